prop = "C11"
edits = [("include/podio/UserDataCollection.h", """    _vecPtr = &_vec; // Set the pointer to the correct internal vector
""", """    if (!_vecPtr) {
      _vecPtr = &_vec; // Set the pointer to the internal vector on first use
    }
""")]
needs = "getting the buffers of a collection, moving it, and getting the buffers of the new one"
breaks = "the buffers point into the collection that was moved from, so nothing (or garbage) is written"
