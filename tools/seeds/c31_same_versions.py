prop = "C31"
edits = [("python/podio_gen/schema_evolution.py", """            result[datatype] = parsed_migrations
""", """            # A change needs to be declared only once
            unique = {(m.from_version, m.to_version, m.details["from"]): m for m in parsed_migrations}
            result[datatype] = list(unique.values())
""")]
needs = "two declared renames with the same versions and the same old name, e.g. of a member and of the data type itself"
breaks = "only the last one is kept"
extra = ["c31_same_versions_demo.py"]
