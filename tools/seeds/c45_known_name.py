prop = "C45"
edits = [('python/podio/frame.py', '        self._param_key_types = self._get_param_keys_types()  # refresh the cache\n', '        if key not in self._param_key_types:  # refresh the cache\n            self._param_key_types = self._get_param_keys_types()\n')]
needs = "a parameter name that is used again with another type"
breaks = "the second type is not seen from Python"
extra = ["bindings_stub.py", "c45_known_name_demo.py"]
