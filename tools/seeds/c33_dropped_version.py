prop = "C33"
edits = [("python/podio_gen/cpp_generator.py", """            if datatype_name not in self.datamodel.datatypes:
                if not self._is_renamed_datatype(datatype_name):
                    continue
            for old_version in old_versions:
""", """            if datatype_name not in self.datamodel.datatypes:
                if not self._is_renamed_datatype(datatype_name):
                    continue
                # the last version that had this name is the one to start from
                old_versions = old_versions[-1:]
            for old_version in old_versions:
""")]
needs = "a data type that has been renamed and existed in at least two older versions"
breaks = "there is no dictionary for the data type in all but one of the old versions"
extra = ["c33_demo.py", "c33_v1.yaml", "c33_v2.yaml", "c33_v3.yaml", "c33_evolution.yaml"]
