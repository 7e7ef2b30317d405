prop = "C45"
edits = [('python/podio/frame.py', '        if collection == self._coll_nullptr:\n            raise KeyError', '        if not collection:\n            raise KeyError')]
needs = "a collection without elements"
breaks = "an empty collection is reported as not available"
extra = ["bindings_stub.py", "c45_empty_collection_demo.py"]
