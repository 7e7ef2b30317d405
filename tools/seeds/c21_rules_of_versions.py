prop = "C21"
edits = [("python/podio_gen/cpp_generator.py", """        return [r for r in iorules if r is not None]
""", """        # Each member needs only one rule
        return list({(r.sourceClass, r.targetClass, r.target): r for r in iorules if r is not None}.values())
""")]
needs = "two old versions of a data model in which the same member still has its old name"
breaks = "only one of the old versions gets the rule that fills the renamed member, in data of the other version it has its default value"
extra = ["ev1.yaml", "ev2.yaml", "ev3.yaml", "evolution.yaml", "check_rules.py"]
