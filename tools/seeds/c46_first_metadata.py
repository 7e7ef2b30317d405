prop = "C46"
edits = [('python/podio/root_merge.py', '    for frame in frames:\n        frame.put_parameter("MergedInputFiles", list(input_files))\n\n    with', '    frames[0].put_parameter("MergedInputFiles", list(input_files))\n\n    with')]
needs = "merging with the metadata of all files"
breaks = "only the first metadata frame tells which files were merged"
extra = ["bindings_stub.py", "c46_first_metadata_demo.py"]
