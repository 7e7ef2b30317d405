prop = "C12"
edits = [("include/podio/detail/Link.h", """  constexpr bool operator<(const LinkT& other) const {
    return m_obj < other.m_obj;
  }
""", """  bool operator<(const LinkT& other) const {
    // order that does not depend on addresses
    const auto a = getObjectID();
    const auto b = other.getObjectID();
    return a.collectionID != b.collectionID ? a.collectionID < b.collectionID : a.index < b.index;
  }
""")]
needs = "ordering different links that are not part of a collection with an ID, e.g. as keys of a map"
breaks = "different untracked links are equivalent in the order though not equal, so sets and maps lose them"
