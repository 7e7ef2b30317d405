prop = "C03"
edits = [("include/podio/detail/LinkCollectionImpl.h", """    m_collectionID = id;
    if (!m_isSubsetColl) {
      std::ranges::for_each(m_storage.entries, [id](auto* obj) { obj->id = {obj->id.index, id}; });
    }
""", """    m_collectionID = id;
    std::ranges::for_each(m_storage.entries, [id](auto* obj) { obj->id = {obj->id.index, id}; });
""")]
needs = "a subset collection of links that gets an ID (e.g. by putting it into a frame) after it was filled"
breaks = "the links of the owning collection change their identity and the stored subset refers to itself"
