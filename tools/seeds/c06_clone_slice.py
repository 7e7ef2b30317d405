prop = "C06"
edits = [("python/templates/macros/implementations.jinja2", """    tmp->data.{{ relation.name }}_begin = 0;
    tmp->data.{{ relation.name }}_end = tmp->m_{{ relation.name }}->size();
""", """    tmp->data.{{ relation.name }}_end -= tmp->data.{{ relation.name }}_begin;
    tmp->data.{{ relation.name }}_begin = tmp->data.{{ relation.name }}_begin > tmp->data.{{ relation.name }}_end ? 0 : tmp->data.{{ relation.name }}_begin;
""")]
needs = "cloning an object with relations or vector members that was read from file and is not the first one"
breaks = "the clone has fewer relations and vector member entries than the original"
