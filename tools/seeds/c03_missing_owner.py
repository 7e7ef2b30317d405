prop = "C03"
edits = [("python/templates/CollectionData.cc.jinja2", """      entries.push_back(obj);
    }
    return true; // TODO: check success, how?""", """      if (obj) {
        entries.push_back(obj);
      }
    }
    return true; // TODO: check success, how?""")]
needs = "a subset collection that refers to objects of a collection that is not available on reading"
breaks = "the subset silently loses entries, so its size and the positions of the remaining ones change"
