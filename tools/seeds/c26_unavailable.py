prop = "C26"
edits = [("python/templates/macros/implementations.jinja2", """    j["{{ relation.name }}"].emplace_back(v.id());
""", """    if (v.isAvailable()) {
      j["{{ relation.name }}"].emplace_back(v.id());
    }
""")]
needs = "JSON output of an object with a relation entry that is not available"
breaks = "the list of related objects has fewer entries than the object has relations"
env = 'DEMO_FLAGS="-DPODIO_JSON_OUTPUT"'
