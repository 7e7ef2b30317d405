prop = "C23"
edits = [("src/DatamodelRegistry.cc", """  if (typeName.size() > 10 && typeName.substr(typeName.size() - 10) == "Collection") {
    typeName = typeName.substr(0, typeName.size() - 10);
  }
""", """  if (const auto pos = typeName.find("Collection"); pos != std::string_view::npos && pos > 0) {
    typeName = typeName.substr(0, pos);
  }
""")]
needs = "a data type whose name contains the word Collection"
breaks = "the relation names of such a type are not found (or those of another type are returned)"
gens = "gen coll.yaml cm"
files = ["coll.yaml"]
