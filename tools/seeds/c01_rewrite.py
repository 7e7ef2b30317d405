prop = "C01"
edits = [("python/templates/Collection.cc.jinja2", """  // Preparing a collection doesn't affect the underlying I/O buffers, so this
  // collection is still prepared
  m_isPrepared = true;
""", """  // Subset collections do not have any I/O buffers that could be reused. All
  // others are still prepared
  m_isPrepared = m_isSubsetColl || m_storage.entries.empty();
""")]
needs = "writing a collection again that was read"
breaks = "every object is stored twice"
