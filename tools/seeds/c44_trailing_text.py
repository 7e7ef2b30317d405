prop = "C44"
edits = [("tools/src/argparseUtils.h", "if (err != std::errc{} || ptr != str.end()) {", "if (err != std::errc{} || ptr == str.data()) {")]
needs = "an entry list with text after a number, such as a range written as 2-4 or blanks between entries"
breaks = "podio-dump takes the number at the start and ignores the rest instead of refusing the list"
