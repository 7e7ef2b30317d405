prop = "C26"
edits = [("include/podio/detail/Link.h", """  j["to"] = nlohmann::json{{"collectionID", link.getTo().getObjectID().collectionID},
                           {"index", link.getTo().getObjectID().index}};
""", """  if (link.getFrom().isAvailable()) {
    j["to"] = nlohmann::json{{"collectionID", link.getTo().getObjectID().collectionID},
                             {"index", link.getTo().getObjectID().index}};
  }
""")]
needs = "JSON output of a link whose from end is not set or not available"
breaks = "the identity of its to end is missing"
env = 'DEMO_FLAGS="-DPODIO_JSON_OUTPUT"'
