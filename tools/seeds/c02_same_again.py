prop = "C02"
edits = [("include/podio/detail/RelationIOHelpers.h", """    relElements.emplace_back((*typeColl)[id.index]);
""", """    const RelType elem = (*typeColl)[id.index];
    // relations are filled once per object, so there is no need to have the same element twice in a row
    if (relElements.empty() || relElements.back() != elem) {
      relElements.emplace_back(elem);
    }
""")]
needs = "a one-to-many relation that holds the same object twice in a row, also as last one of an object and first one of the next, that is stored and read back"
breaks = "one of the two is lost and all relations of the following objects are shifted"
