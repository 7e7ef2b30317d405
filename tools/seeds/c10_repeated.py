prop = "C10"
edits = [("include/podio/LinkNavigator.h", """    m_to2from.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));
""", """    const auto known = m_to2from.find(to);
    if (known == m_to2from.end() || !(known->second.o == from)) {
      m_to2from.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));
    }
""")]
needs = "two links between the same two objects, looked up in the backward direction"
breaks = "only one of the links is found"
