"""Definitions of members: parsing (podio_config_reader.MemberParser), and their textual representation (generator_utils.MemberVariable)"""
import json
from pysym.engine import eq, f_and, f_or, f_not, is_sym, CharStr, ALPHABET, rt_fstr
from podio_gen.podio_config_reader import MemberParser
from podio_gen.generator_utils import DefinitionError, MemberVariable, DataModelJSONEncoder
DEPTH = 0

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
WORD = LETTERS + DIGITS + "_\u00e9"
BUILTIN = ["int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short", "bool", "long long", "unsigned long long"]
FIXED = ["int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"]
JULIA = dict(zip(BUILTIN, ["Int32", "Int64", "Float32", "Float64", "UInt32", "UInt32", "UInt64", "Char", "Int16", "Bool", "Int64", "UInt64"]))
PRINT = ALPHABET.replace("\n", "")
PARSER = MemberParser()


def cat(*xs):
    return rt_fstr(*xs)


def spaces(e, what, least=0):
    return " " * (least + e.choose(2, what))


def identifier(e, what, most):
    """a name of 1..most characters"""
    return e.chars(what, 1 + e.choose(most, what + " length"), WORD, LETTERS + "_")


def some_type(e, most=2, k=None):
    """(text, full type, builtin)"""
    k = e.choose(4, "kind of type") if k is None else k
    if k == 0:
        t = BUILTIN[e.choose(len(BUILTIN), "builtin type")]
        return t, t, True
    if k == 1:
        t = FIXED[e.choose(len(FIXED), "fixed width type")]
        return ("std::" if e.flip("qualified") else "") + t, "std::" + t, True
    if k == 2:  # the end of the name of a type that starts like a builtin one, or like nothing in particular
        base = ["", "int", "unsigned", "int16_t", "long", "std"][e.choose(6, "start of the type")]
        t = cat(base, e.chars("type", 1 + e.choose(most, "type length"), LETTERS + DIGITS + "_", LETTERS if not base else LETTERS + DIGITS + "_"))
        for b in BUILTIN + FIXED + ["int8_t", "uint8_t"]:  # (these are other cases)
            e.assume(f_not(eq(t, b)))
        return t, t, False
    a = e.chars("namespace", 1 + e.choose(most, "namespace length"), LETTERS + DIGITS + "_", LETTERS) if e.flip("in a namespace") else ""
    e.assume(f_not(eq(a, "std")))  # (std:: is only there for integers)
    b = e.chars("class", 1, LETTERS + DIGITS + "_", LETTERS)
    t = cat(a, "::", b)
    return t, t, False


def definition(e, most, comment=True, simple=False):
    """a definition with everything that can be part of it: (text, expected)"""
    z = e.choose(8, "array and kind of type") if not simple else 0
    array = z >= 4 if not simple else e.flip("array")
    typ, full, builtin = some_type(e, most, z % 4) if not simple else [("int", "int", True), ("a::B", "a::B", False)][e.choose(2, "type")]
    sp = " " * e.choose(2, "spaces")

    def spaces(e, what, least=0):
        return sp or " " * least
    x = dict(type=full, builtin=builtin, array=array)
    if array:
        size = e.chars("size", 1 + e.choose(1 if simple else 2, "size length"), DIGITS)
        s = spaces(e, "spaces in array")
        text = cat("std::array", s, "<", s, typ, s, ",", s, size, s, ">", spaces(e, "space after array", 0 if comment else 1))
        x["size"] = size
    else:
        text = cat(typ, spaces(e, "space after type", 1))
    name = identifier(e, "name", 1 if simple else 2)
    x["name"] = name
    text = cat(sp, text, name, spaces(e, "space after name"))
    x["default"] = None
    k = e.choose(4 if not simple else 2, "default value")
    if k:
        v = e.chars("value", k if k < 3 else 1, [c for c in PRINT if c not in "{}"])
        if k == 3:
            v = cat("{", v, "},{", e.chars("value", 1, DIGITS), "}")
        text = cat(text, "{", v, "}", spaces(e, "space after value"))
        x["default"] = v
    x["unit"] = None
    if e.flip("unit"):
        u = e.chars("unit", 1 + e.choose(2, "unit length"), LETTERS + "_*/^")
        text = cat(text, "[", u, "]", spaces(e, "space after unit"))
        x["unit"] = u
    x["comment"] = None
    if comment:
        n = e.choose(4 if not simple else 3, "comment length")
        c = e.chars("comment", n, PRINT)
        if n == 3 or simple:
            c = cat(["", "{x} ", "} // "][e.choose(3, "start of the comment")], c)
        text = cat(text, "//", c)
        x["comment"] = c.strip()
    elif e.flip("trailing space"):
        text = cat(text, " ")
    return text, x


def is_(e, a, b, msg):
    e.check(a is None if b is None else a is not None and eq(a, b), msg)


def expect(e, m, x):
    e.check(m.is_array == x["array"], "arrays are recognized")
    if x["array"]:
        is_(e, m.array_type, x["type"], "the type of the elements")
        is_(e, m.array_size, x["size"], "the size of the array")
        is_(e, m.full_type, cat("std::array<", x["type"], ", ", x["size"], ">"), "the type of the array")
        e.check(m.is_builtin_array == x["builtin"] and not m.is_builtin, "arrays of builtin types")
    else:
        is_(e, m.full_type, x["type"], "the type")
        e.check(m.is_builtin == x["builtin"] and not m.is_builtin_array, "builtin types")
    is_(e, m.name, x["name"], "the name")
    is_(e, m.default_val, x["default"], "the default value")
    is_(e, m.unit, x["unit"], "the unit")
    is_(e, m.description or "", x["comment"] or "", "the description")


def parse_and_expect(e, text, x, require):
    try:
        m = PARSER.parse(text, require)
    except DefinitionError:
        e.check(False, "a valid definition is accepted")
    expect(e, m, x)
    e.trace("member", [m.full_type, m.name, m.default_val, m.unit, m.description])
    return m


def h_parse(e):
    """a complete definition is understood as written"""
    text, x = definition(e, 1, True, not DEPTH)
    m = parse_and_expect(e, text, x, e.flip("description required"))
    if x["default"] is not None and x["unit"] is not None:
        e.cover("everything")
    if x["array"]:
        e.cover("array")
    return m, x


def h_parse_type(e):
    """all types, with the least of everything else"""
    typ, full, builtin = some_type(e, 2 if not DEPTH else 3)
    array = e.flip("array")
    name = identifier(e, "name", 2)
    text = cat("std::array<", typ, ", 3> ", name, " // d") if array else cat(typ, " ", name, " // d")
    m = parse_and_expect(e, text, dict(type=full, builtin=builtin, array=array, size="3", name=name, default=None, unit=None, comment="d"), True)
    if builtin and not array:
        e.check(m.julia_type == (JULIA[full] if full in JULIA else full[5:].replace("_t", "").replace("uint", "UInt").replace("int", "Int")), "the type in Julia")
        e.cover("builtin")
    ns = full.split("::")
    if not array and not builtin and len(ns) == 2:
        is_(e, m.namespace, ns[0], "the namespace")
        is_(e, m.bare_type, ns[1], "the type in the namespace")
        e.cover("namespace")
    elif not array:
        e.check(m.namespace == "", "no namespace")
        is_(e, m.bare_type, full, "the type")


def h_parse_rest(e):
    """all default values, units and comments"""
    name = "n"
    text = ["int n", "std::array<int, 2> n"][e.choose(2, "start")]
    x = dict(type="int", builtin=True, array=text != "int n", size="2", name=name, default=None, unit=None)
    k = e.choose(5, "default value")
    text += spaces(e, "space before value")
    if k:
        v = e.chars("value", k if k < 3 else 1, [c for c in PRINT if c not in "{}"])
        if k == 3:
            v = cat("{", v, "},{", e.chars("value", 1, DIGITS), "}")
        if k == 4:
            v = cat("a{", v, "}b")
        text = cat(text, "{", v, "}")
        x["default"] = v
        e.cover("default value")
    text = cat(text, spaces(e, "space before unit"))
    if e.flip("unit"):
        u = e.chars("unit", 1 + e.choose(2 if not DEPTH else 4, "unit length"), LETTERS + "_*/^")
        text = cat(text, "[", u, "]")
        x["unit"] = u
    c = e.chars("comment", e.choose(4 if not DEPTH else 5, "comment length"), PRINT)
    if k and e.flip("braces in the comment"):
        c = cat(["{x} ", "} // ", "}//", "}[m]//"][e.choose(4, "start of the comment")], c)
        e.cover("braces")
    text = cat(text, spaces(e, "space before comment"), "//", c)
    x["comment"] = c.strip()
    parse_and_expect(e, text, x, True)


def h_parse_bare(e):
    """definitions without a description"""
    text, x = definition(e, 1, False, True)
    if e.flip("description required"):
        try:
            PARSER.parse(text, True)
        except DefinitionError:
            e.cover("rejected")
            return
        e.check(False, "a definition without the required description is rejected")
    parse_and_expect(e, text, x, False)
    e.cover("accepted")


# ---- an independent recognizer of definitions, working on single characters
def one_of(c, allowed):
    """the character c is one of the allowed (forks)"""
    from pysym import engine as E
    if isinstance(c, CharStr):
        return E.ENG.branch(E.ch_in(c.chars[0], E.mask_of(allowed), None))
    return c in allowed


def skip(s, i, allowed):
    while i < len(s) and one_of(s[i], allowed):
        i += 1
    return i


def tail_ok(s, i, comment):
    """[unit] and the comment after the name or the default value"""
    i = skip(s, i, " ")
    if i < len(s) and one_of(s[i], "["):
        j = skip(s, i + 1, LETTERS + "_*/^")
        if j == i + 1:
            return False
        j = skip(s, j, WORD)
        if not (j < len(s) and one_of(s[j], "]")):
            return False
        i = j + 1
    i = skip(s, i, " ")
    if comment:
        return i + 1 < len(s) and one_of(s[i], "/") and one_of(s[i + 1], "/")
    return skip(s, i, " \t\n") == len(s)


def after_name(s, comment):
    """what follows the name of a member is valid"""
    i = skip(s, 0, " ")
    if i < len(s) and one_of(s[i], "{"):
        for j in range(i + 2, len(s)):
            if one_of(s[j - 1], "\n"):
                return False
            if one_of(s[j], "}") and tail_ok(s, j + 1, comment):
                return True
        return False
    return tail_ok(s, 0, comment)


def h_reject_tail(e):
    """everything that does not follow the rules is rejected: what comes after the name"""
    n = 1 + e.choose(4 if not DEPTH else 6, "length")
    arr = e.flip("array")
    s = e.chars("text", n, ALPHABET, " {[/}];=,\n")
    require = e.flip("description required")
    text = cat("std::array<int, 2> a" if arr else "int a", s)
    good = after_name(s, True) or (not require and after_name(s, False))
    try:
        m = PARSER.parse(text, require)
    except DefinitionError:
        m = None
    e.check((m is not None) == good, "a definition is accepted exactly if what follows the name is valid")
    if good:
        e.check(eq(m.name, "a"), "the name")
        e.cover("accepted")
    else:
        e.cover("rejected")


def h_reject_head(e):
    """everything that does not follow the rules is rejected: type and name"""
    n = 1 + e.choose(4 if not DEPTH else 5, "length")
    s = e.chars("text", n, [c for c in ALPHABET if c not in "/{}[]<>"])
    text = cat(s, " // c")
    # type, spaces, name
    i = skip(s, 0, " ")
    j = i
    if j + 1 < n and one_of(s[j], ":") and one_of(s[j + 1], ":"):
        j += 2
    k = j
    if k < n and one_of(s[k], LETTERS):
        k = skip(s, k, LETTERS + DIGITS + ":_")
    b = skip(s, k, " ")
    good = k > j and b > k and b < n and one_of(s[b], LETTERS + "_")
    nend = skip(s, b, WORD) if good else 0
    good = good and skip(s, nend, " ") == n
    typ = s[i:k]
    nested = False
    if good:
        parts = typ.split("::")
        nested = len(parts) > 2
    try:
        m = PARSER.parse(text, True)
    except DefinitionError:
        m = None
    e.check((m is not None) == (good and not nested), "a definition is accepted exactly if it has a valid type and a valid name")
    if m is not None:
        e.check(eq(m.name, s[b:nend]), "the name")
        e.check(eq(m.full_type, typ), "the type")
        e.cover("accepted")
    else:
        e.cover("rejected")


def h_reject_nested(e):
    """types are in one namespace at most"""
    n = 1 + e.choose(4, "parts")
    parts = [e.chars("part", 1 + e.choose(2, "length"), LETTERS + DIGITS + "_", LETTERS) for _ in range(n)]
    typ = cat(*[y for x in parts for y in (x, "::")][:-1])
    text = cat("std::array<", typ, ", 3> m // d") if e.flip("array") else cat(typ, " m // d")
    try:
        m = PARSER.parse(text, True)
    except DefinitionError:
        m = None
    if n == 1:  # (a one or two letter type can't be the name of a builtin one, or a fixed width one)
        e.check(m is not None, "a type without namespace is accepted")
    e.check((m is not None) == (n <= 2), "a definition is accepted exactly if its type is in one namespace at most")
    e.cover("accepted" if m is not None else "rejected")


def h_json(e):
    """the textual representation of a member is parsed to the same member"""
    desc = e.choose(2, "description")
    text, x = definition(e, 1, bool(desc), True)
    m = PARSER.parse(text, False)
    t = m._to_json()
    req = bool(desc)
    try:
        r = PARSER.parse(t, req)
    except DefinitionError:
        e.check(False, "the representation of a member is a valid definition")
    expect(e, r, x)
    is_(e, r._to_json(), t, "the representation does not change")
    e.trace("text", t)
    if x["default"] is not None:
        e.cover("default")
