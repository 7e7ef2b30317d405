prop = "C20"
edits = [("src/SchemaEvolution.cc", """      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
""", """      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), currentVersion);
""")]
needs = "one evolution function that is registered for several old versions of a type and distinguishes them by the version it is given"
breaks = "the function is told the current version instead of the one of the buffers"
