prop = "C05"
edits = [("python/templates/Collection.cc.jinja2", "      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n",
          "      // the collectionID follows as soon as this collection gets its ID\n      obj->id.index = static_cast<int>(m_storage.entries.size());\n")]
needs = "adding an object to a collection that has its ID already"
breaks = "objects that are added after the ID was set do not carry the ID of their collection"
