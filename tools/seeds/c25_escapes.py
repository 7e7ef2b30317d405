prop = "C25"
edits = [("src/Glob.cc", """    if (escape) {
      escape = false;
    } else if (c == '\\\\') {
      escape = true;
    } else if""", """    if (c == '\\\\') {
      escape = true;
    } else if (escape) {
      escape = false;
    } else if""")]
needs = "an escaped backslash directly before a wildcard"
breaks = "the wildcard is taken as escaped, the name is not expanded"
