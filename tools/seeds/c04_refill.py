prop = "C04"
edits = [("python/templates/Collection.cc.jinja2", """  m_storage.clear(m_isSubsetColl);
  m_isPrepared = false;
}""", """  if (!m_storage.entries.empty()) {
    m_storage.clear(m_isSubsetColl);
    m_isPrepared = m_isSubsetColl;
  }
}""")]
needs = "a subset collection (or an empty one) that is prepared for writing, cleared, filled again and written"
breaks = "the collection is written without the new elements"
