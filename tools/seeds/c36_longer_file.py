prop = "C36"
edits = [("python/podio_gen/generator_base.py", "            existing_content = infile.read()\n", "            # (no need to read more than what has to be there)\n            existing_content = infile.read(len(content))\n")]
needs = "an old file in the output directory that starts with the whole new content and has more after it"
breaks = "the old file is taken as up to date and its additional content is kept"
extra = ["c36_demo.py"]
