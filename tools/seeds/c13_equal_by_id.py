prop = "C13"
edits = [("python/templates/Interface.h.jinja2", """    return lhs.m_self->equal(rhs.m_self.get());
""", """    // The ID identifies the object, no matter which type it has
    return lhs.m_self->getObjectID() == rhs.m_self->getObjectID();
""")]
needs = "comparing interface values of two different objects that are not part of a collection (with an ID) yet"
breaks = "different untracked objects compare equal"
