prop = "C15"
edits = [("include/podio/Frame.h", """  const auto& [_, inserted] = m_retrievedIDs.insert(collectionID);

  if (inserted) {
    auto coll = doGet(name.value());
""", """  const auto& [_, inserted] = m_retrievedIDs.insert(collectionID);

  if (inserted) {
    // Only the collection that has been asked for needs its relations
    auto coll = doGet(name.value(), m_collections.size() < 2);
""")]
needs = "a chain of relations through at least three collections, requested from its start, or a second collection with relations"
breaks = "collections that are unpacked because others relate to them come without their own relations"
