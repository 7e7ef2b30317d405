prop = "C02"
edits = [("include/podio/Frame.h", """    auto coll = doGet(name.value(), false);
    if (coll) {
      collection = coll;
      return true;
    }
""", """    // (nothing is left to be unpacked, and its references are set by the first call)
    collection = doGet(name.value(), false);
    return true;
""")]
needs = "a frame read without one of its collections, to which two others (or two relations) refer: the second request for it must fail like the first one"
breaks = "a collection that is not there is reported as found the second time, and the reader of the references follows a null pointer"
