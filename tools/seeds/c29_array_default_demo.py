from podio_gen.podio_config_reader import MemberParser

for text in ("std::array<int, 3> a{1, 2, 3}[mm]", "std::array<int, 3> a{1, 2, 3}", "std::array<int, 3> a{1, 2, 3}[mm] // text", "int a{1}[mm]"):
    m = MemberParser().parse(text, False)
    if m.default_val != ("1" if text.startswith("int") else "1, 2, 3") or m.unit != ("mm" if "mm" in text else None):
        raise SystemExit("FAILED: %s: default value %s, unit %s" % (text, m.default_val, m.unit))
