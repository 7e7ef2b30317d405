prop = "C34"
edits = [("python/podio_gen/cpp_generator.py", """        fields = [self._arrow_field(member.name, self._arrow_type(member)) for member in members]
""", """        fields = [
            self._arrow_field(member.name, self._arrow_type(member))
            for member in sorted(members, key=lambda m: m.is_array)
        ]
""")]
needs = "a component with an array that is not its last member"
breaks = "the fields of the component are not in the order in which they are filled and read"
extra = ["c34_demo.py", "c34.yaml"]
