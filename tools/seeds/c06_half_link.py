prop = "C06"
edits = [("include/podio/detail/Link.h", """        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);
      }
      if (m_obj->m_to) {
        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);
      }
""", """        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);
        if (m_obj->m_to) {
          tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);
        }
      }
""")]
needs = "a clone of a link that has only its to end set"
breaks = "the clone has no to end"
