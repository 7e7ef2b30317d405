prop = "C32"
edits = [("python/podio_gen/cpp_generator.py", """                includes.add(self._build_include_for_class(relation.bare_type, include_from))
""", """                if include_from == IncludeFrom.INTERNAL or not includes:
                    # headers of the upstream datamodel include each other
                    includes.add(self._build_include_for_class(relation.bare_type, include_from))
""")]
needs = "relations to two unrelated types of an upstream model"
breaks = "the header of the collection data does not include the second type, the generated code does not compile"
extra = ["c32_demo.py", "c32_up.yaml", "c32_dn.yaml"]
