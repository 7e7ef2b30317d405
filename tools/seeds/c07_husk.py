prop = "C07"
edits = [("include/podio/utilities/MaybeSharedPtr.h", """      if (m_ctrlBlock->owned) {
        delete m_ptr;
      }
      delete m_ctrlBlock;
    }
""", """      if (m_ctrlBlock->owned) {
        delete m_ptr;
        delete m_ctrlBlock;
      }
    }
""")]
needs = "an object that is created on its own and then added to a collection"
breaks = "the control block of its handles is never released"
