prop = "C35"
edits = [("python/podio_gen/julia_generator.py", """            if not relation.is_builtin:
                params.add((relation.bare_type, relation.full_type))
""", """            # the struct itself is known without a parameter
            if not relation.is_builtin and relation.bare_type != datatype["class"].bare_type:
                params.add((relation.bare_type, relation.full_type))
""")]
needs = "a data type with a relation to its own type or to one with the same name in another namespace"
breaks = "the struct uses a type parameter that it does not declare"
extra = ["c35_demo.py", "c35.yaml"]
