prop = "C46"
edits = [('python/podio/base_writer.py', '        for writer in self.writers:\n            try:\n                writer.finish()\n            except AttributeError:\n                pass\n', '        try:\n            for writer in self.writers:\n                writer.finish()\n        except AttributeError:\n            pass\n')]
needs = "a writer whose construction failed after it was registered, or one without a finish function, before another writer"
breaks = "the writers after it are never finished and their files are lost"
extra = ["bindings_stub.py", "c46_unfinished_demo.py"]
