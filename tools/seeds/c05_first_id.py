prop = "C05"
edits = [("include/podio/detail/LinkCollectionImpl.h", """[id](auto* obj) { obj->id = {obj->id.index, id}; });
    }
""", """[id](auto* obj) {
        // objects that have the ID of a collection already keep it
        if (obj->id.collectionID == 0) {
          obj->id = {obj->id.index, id};
        }
      });
    }
""")]
needs = "a collection of links that gets an ID more than once"
breaks = "the links keep the first ID and are not found via the ID of their collection"
