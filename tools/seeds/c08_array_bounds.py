prop = "C08"
edits = [("python/templates/macros/implementations.jinja2", """m_obj->data.{{ member.name }}.at(i) = value; }""", """m_obj->data.{{ member.name }}[i < m_obj->data.{{ member.name }}.size() ? i : m_obj->data.{{ member.name }}.size() - 1] = value; }""")]
needs = "setting an element of an array member with an index outside of the array"
breaks = "the last element is overwritten instead of refusing the index"
