prop = "C19"
edits = [("src/CollectionIDTable.cc", """  if (result == m_names.end()) {
    m_names.emplace_back(name);
    MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);
    m_collectionIDs.emplace_back(ID);
  } else {
    const auto index = std::distance(m_names.begin(), result);
    ID = m_collectionIDs[index];
  }
""", """  MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);
  if (result == m_names.end()) {
    m_names.emplace_back(name);
    m_collectionIDs.emplace_back(ID);
  }
""")]
needs = "a table read from a file with IDs that are not the hash of the name (files of older versions count from one), and adding a name it has"
breaks = "add returns an ID that differs from the one the table has for the name"
