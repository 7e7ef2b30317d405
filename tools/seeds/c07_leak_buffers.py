prop = "C07"
edits = [("python/templates/macros/collections.jinja2", """      delete static_cast<{{ class.full_type }}DataContainer*>(buffers.data);
{% for member in VectorMembers %}
      delete static_cast<std::vector<{{ member.full_type }}>*>((*buffers.vectorMembers)[{{ loop.index0 }}].second);
{% endfor %}
""", """{% for member in VectorMembers %}
{% if loop.first %}
      for (size_t i = 0; i + 1 < buffers.vectorMembers->size(); ++i) {
        // all of them are vectors
        delete static_cast<std::vector<{{ member.full_type }}>*>((*buffers.vectorMembers)[i].second);
      }
{% endif %}
{% endfor %}
      delete static_cast<{{ class.full_type }}DataContainer*>(buffers.data);
""")]
needs = "read buffers of a type with vector members that are dropped without making a collection of them"
breaks = "the buffer of the last vector member is leaked (and others are deleted as the wrong type)"
