prop = "C14"
edits = [("include/podio/Frame.h", """      it->second->setID(m_idTable.add(name));
""", """      const auto id = m_idTable.add(name);
      if (it->second->isSubsetCollection() || !it->second->hasID()) {
        it->second->setID(id);
      }
""")]
needs = "putting a collection that already has an ID, e.g. because it was assigned by the user"
breaks = "the collection keeps its old ID, which the ID table of the frame does not know or knows for another name"
