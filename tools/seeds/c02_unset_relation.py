prop = "C02"
edits = [("python/templates/macros/collections.jinja2", """  for (auto& obj : entries) {
    if (obj->m_{{ relation.name }}) {
      m_refCollections[{{ real_index }}]->emplace_back(obj->m_{{ relation.name }}->getObjectID());
    } else {
      m_refCollections[{{ real_index }}]->push_back({podio::ObjectID::invalid, 0});
    }
  }
""", """  auto& {{ relation.name }}_refs = *m_refCollections[{{ real_index }}];
  {{ relation.name }}_refs.resize(entries.size());
  for (size_t i = 0; i < entries.size(); ++i) {
    const auto* obj = entries[i];
    if (obj->m_{{ relation.name }}) {
      {{ relation.name }}_refs[i] = obj->m_{{ relation.name }}->getObjectID();
    } else if (i > 0) {
      {{ relation.name }}_refs[i].index = podio::ObjectID::invalid;
    } else {
      {{ relation.name }}_refs[i].collectionID = 0;
    }
    // nothing to do for consecutive objects with the same relation
    for (; i + 1 < entries.size() && obj->m_{{ relation.name }} && entries[i + 1]->m_{{ relation.name }} && entries[i + 1]->m_{{ relation.name }}->getObjectID().index == {{ relation.name }}_refs[i].index; ++i) {
      {{ relation.name }}_refs[i + 1] = {{ relation.name }}_refs[i];
    }
  }
""")]
needs = "two consecutive objects whose one-to-one relations refer to the same position in different collections"
breaks = "the second one comes back with a relation into the collection of the first one"
