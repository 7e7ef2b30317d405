prop = "C30"
edits = [("python/podio_gen/generator_utils.py", """        unit = f"[{self.unit}]" if self.unit else ""
""", """        # units are given for values, arrays can mix several
        unit = f"[{self.unit}]" if self.unit and not self.is_array else ""
""")]
needs = "an array with a unit"
breaks = "the definition that is stored in the files has lost the unit"
extra = ["c30_array_unit_demo.py"]
