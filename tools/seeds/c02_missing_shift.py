prop = "C02"
edits = [("python/templates/macros/collections.jinja2", """      if (!collectionProvider->get(id.collectionID, coll)) {
        m_rel_{{ relation.name }}->emplace_back({{ relation.full_type }}::makeEmpty());
        continue;
      }
      podio::detail::addMultiRelation""", """      if (!collectionProvider->get(id.collectionID, coll)) {
        // nothing to relate to
        continue;
      }
      podio::detail::addMultiRelation""")]
needs = "a one-to-many relation with an entry in a collection that was not stored, followed by further entries or further objects"
breaks = "the entries after an unavailable one move up, so that later relations (also those of other objects) refer to the wrong object"
