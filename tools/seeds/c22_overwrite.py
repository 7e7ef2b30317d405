prop = "C22"
edits = [("src/CollectionBufferFactory.cc", """      for (auto i = prevSize; i < version; ++i) {
""", """      for (auto i = prevSize - (prevSize > 1); i < version; ++i) {
""")]
needs = "creation functions registered for two versions of a type, the newer one last, the older one at least 2"
breaks = "the creation function of the older version is replaced by the one of the newer version"
