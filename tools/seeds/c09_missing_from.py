prop = "C09"
edits = [("include/podio/detail/LinkCollectionData.h", """        entries[i]->m_from = nullptr;
      }
    }

    for (size_t i = 0; i < entries.size(); ++i) {
      const auto id = (*m_refCollections[1])[i];
      if (id.index != podio::ObjectID::invalid) {
        podio::CollectionBase* coll = nullptr;
        if (!collectionProvider->get(id.collectionID, coll)) {
          entries[i]->m_to = nullptr;
          continue;
        }
        podio::detail::addSingleRelation(entries[i]->m_to, coll, id);
""", """        entries[i]->m_from = nullptr;
      }

      const auto toId = (*m_refCollections[1])[i];
      if (toId.index != podio::ObjectID::invalid) {
        podio::CollectionBase* coll = nullptr;
        if (!collectionProvider->get(toId.collectionID, coll)) {
          entries[i]->m_to = nullptr;
          continue;
        }
        podio::detail::addSingleRelation(entries[i]->m_to, coll, toId);
""")]
needs = "a stored link whose from collection is not available while its to collection is"
breaks = "the available end of the link is lost together with the missing one"
