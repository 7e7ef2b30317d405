prop = "C27"
edits = [("python/podio_schema_evolution.py", """                if old.full_type != new.full_type:
""", """                # what is generated depends on the (element) type and the size
                if (old.bare_type, old.array_bare_type, old.array_size) != (
                    new.bare_type,
                    new.array_bare_type,
                    new.array_size,
                ):
""")]
needs = "a member whose type changes to a component with the same name in another namespace"
breaks = "the change of the type is not reported, so the impossible evolution is accepted"
extra = ["c27_bare_types_demo.py"]
