prop = "C24"
edits = [("podioVersion.in.h", """#define PODIO_MINOR_VERSION(v) (((v) & (-1UL >> 32)) >> 16)""", """#define PODIO_MINOR_VERSION(v) (((v) >> 16) & 0xff)""")]
needs = "a version with a minor number above 255"
breaks = "decoding gives a different minor number than was encoded"
