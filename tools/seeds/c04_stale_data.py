prop = "C04"
edits = [("include/podio/detail/LinkCollectionData.h", """    // Normal collections manage a bit more and have to clean up a bit more
    if (m_data) {
      m_data->clear();
    }
    for (const auto& pointer : m_refCollections) {
""", """    // Normal collections manage a bit more and have to clean up a bit more
    for (const auto& pointer : m_refCollections) {
""")]
needs = "a collection of links that is prepared for writing, cleared, filled again and written"
breaks = "the data of the links before clearing are written again, in front of the new ones"
