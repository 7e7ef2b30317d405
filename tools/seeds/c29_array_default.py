prop = "C29"
edits = [("python/podio_gen/podio_config_reader.py", """        return MemberVariable(
            name=name, array_type=typ, array_size=size, unit=unit, default_val=def_val
        )
""", """        return MemberVariable(
            name=name,
            array_type=typ,
            array_size=size,
            unit=unit,
            default_val=def_val if def_val and unit is None else None,
        )
""")]
needs = "an array in a component without description, with a default value and a unit"
breaks = "the default value is lost"
extra = ["c29_array_default_demo.py"]
