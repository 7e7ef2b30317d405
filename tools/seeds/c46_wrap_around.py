prop = "C46"
edits = [('python/podio/frame_iterator.py', '            entry = self._reader.getEntries(self._category) + entry\n', '            n_entries = self._reader.getEntries(self._category)\n            entry = entry % n_entries if n_entries else entry\n')]
needs = "an index that is further from the end than there are entries"
breaks = "another entry is returned instead of an IndexError"
extra = ["bindings_stub.py", "c46_wrap_around_demo.py"]
