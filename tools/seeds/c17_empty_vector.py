prop = "C17"
edits = [("include/podio/GenericParameters.h", """    std::lock_guard lock{mtx};
    map.insert_or_assign(key, std::move(value));
""", """    std::lock_guard lock{mtx};
    if (value.empty()) {
      map.try_emplace(key);
    } else {
      map.insert_or_assign(key, std::move(value));
    }
""")]
needs = "setting a parameter that has values to an empty vector"
breaks = "the old values stay"
