prop = "C43"
edits = [("src/DataSource.cc", "  m_activeCollections.emplace_back(columnIndex);\n", """  // Several nodes can ask for the same column, one look up per entry is enough
  if (m_activeCollections.empty() || m_activeCollections.back() < columnIndex) {
    m_activeCollections.emplace_back(columnIndex);
  }
""")]
needs = "columns that are asked for in another order than the one in which the file has them"
breaks = "columns that are asked for after one that comes later in the file are never filled, their readers point to null"
files = ["c43.h", "RDataSource.hxx", "RDataFrame.hxx"]
