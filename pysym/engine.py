"""Symbolic execution of Python code (the generator and schema tools of podio).

Values: `SymStr` is a string given by guarded cases [(z3 condition, value)], exclusive and exhaustive under the path
condition. All operations on strings are lifted over the cases; where Python needs a concrete truth value (or length,
or key) the path forks on the corresponding formula, and a z3 solver decides which sides are feasible. The code under
test is the one in /repo: `load` reads the current source, and only replaces those constructs that the interpreter
evaluates on the raw buffers of strings (f-strings, `in`, subscripts, `join`) by calls that handle symbolic strings.
Paths are explored depth first by re-execution until all feasible ones are done (or a budget is exceeded: incomplete).
"""
import ast, collections, importlib.abc, importlib.machinery, importlib.util, itertools, operator, re, sys, time, types, builtins
import z3
from .formula import F, among, atom, evaluate, same as f_same, f_and, f_not, f_or, rng, to_z3


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, where=""):
        super().__init__(msg)
        self.msg, self.where = msg, where


class Incomplete(Exception):
    pass


ENG = None


def is_sym(x):
    return isinstance(x, SymStr)


def cases(x):
    if isinstance(x, CharStr):  # (no operation on single characters: go through the possible values)
        return [(True, ENG.concretize(x))]
    return x.cases if isinstance(x, SymStr) else [(True, x)]


def _or(cs):
    return f_or(*cs)


def _key(v):
    return (type(v).__name__, repr(v))


def merge(cs):
    d = {}
    for c, v in cs:
        d.setdefault(_key(v), (v, []))[1].append(c)
    return [(_or(c), v) for v, c in d.values()]


def lift(fn, *args):
    """apply fn to all combinations of the cases of the arguments, and make one value of the results"""
    if not any(isinstance(a, SymStr) for a in args):
        return fn(*args)
    out = []
    for combo in itertools.product(*[cases(a) for a in args]):
        cond = f_and(*[c for c, _ in combo])
        if cond is False:
            continue
        out.append((cond, fn(*[v for _, v in combo])))
    return unify(out)


def unify(cs):
    cs = merge(cs)
    vals = [v for _, v in cs]
    if len(cs) == 1:
        return vals[0]
    if all(isinstance(v, bool) for v in vals):
        return ENG.branch(_or(c for c, v in cs if v))
    if all(isinstance(v, str) for v in vals):
        return SymStr(cs)
    if any(isinstance(v, (list, tuple)) for v in vals):
        # fork on the shape, then element by element
        shapes = {}
        for c, v in cs:
            k = (type(v), len(v)) if isinstance(v, (list, tuple)) else (type(v), repr(v))
            shapes.setdefault(k, []).append((c, v))
        keys = list(shapes)
        for i, k in enumerate(keys):
            if i + 1 == len(keys) or ENG.branch(_or(c for c, _ in shapes[k])):
                grp = shapes[k]
                if not isinstance(grp[0][1], (list, tuple)):
                    return grp[0][1]
                els = [unify([(c, v[j]) for c, v in grp]) for j in range(len(grp[0][1]))]
                return type(grp[0][1])(els)
    for i, (c, v) in enumerate(cs):
        if i + 1 == len(cs) or ENG.branch(c):
            return v


class SymStr(str):
    """a symbolic string. The characters of the object itself are only a token."""
    _n = 0

    def __new__(cls, cs):
        o = str.__new__(cls, "\ue000%d\ue001" % SymStr._n)
        SymStr._n += 1
        o.cases = cs
        if ENG is not None:
            ENG.tokens[str.__str__(o)] = o
        return o

    def __hash__(self):
        return 4711

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, str):
            return False
        return ENG.branch(eq(self, other))

    def __ne__(self, other):
        return not self == other

    def __bool__(self):
        return ENG.branch(_or(c for c, v in self.cases if v))

    def __len__(self):
        return lift(len, self)

    def __str__(self):
        return self

    def __repr__(self):
        return lift(repr, self)

    def __format__(self, spec):
        return lift(lambda v: format(v, spec), self)

    def __add__(self, o):
        return lift(lambda a, b: a + b, self, o)

    def __radd__(self, o):
        return lift(lambda a, b: a + b, o, self)

    def __rmod__(self, o):
        return rt_mod(o, self)

    def join(self, xs):
        xs = list(xs)
        return rt_fstr(*[p for i, x in enumerate(xs) for p in ([self] if i else []) + [x]]) if xs else ""

    def __mod__(self, o):
        return lift(lambda a: a % o, self)

    def __getitem__(self, k):
        return lift(lambda a: a[k], self)

    def __iter__(self):
        return iter(list(lift(list, self)))

    def __contains__(self, x):
        return lift(lambda a, b: b in a, self, x)

    def __lt__(self, o):
        return lift(lambda a, b: a < b, self, o)

    def __gt__(self, o):
        return lift(lambda a, b: a > b, self, o)

    def __le__(self, o):
        return lift(lambda a, b: a <= b, self, o)

    def __ge__(self, o):
        return lift(lambda a, b: a >= b, self, o)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _lifted(name):
    def m(self, *a, **kw):
        return lift(lambda s, *b: getattr(s, name)(*b, **kw), self, *a)

    m.__name__ = name
    return m


# all methods of strings
for _n in [n for n in dir(str) if not n.startswith("__") and n not in ("join", "maketrans") and n not in SymStr.__dict__]:
    setattr(SymStr, _n, _lifted(_n))


def eq(a, b):
    """formula: the strings are equal (without forking)"""
    if a is b:
        return True
    if not is_sym(a) and not is_sym(b):
        return a == b
    if isinstance(a, CharStr) or isinstance(b, CharStr):
        if not isinstance(a, CharStr):
            a, b = b, a
        if isinstance(b, CharStr) or not is_sym(b):
            return eq_chars(a.chars, chars_of(b))
        return f_or(*[f_and(c, eq_chars(a.chars, v)) for c, v in b.cases])
    if is_sym(a) and is_sym(b):
        if str.__lt__(b, a):
            a, b = b, a
        if len(a.cases) == len(b.cases) == 1:
            return a.cases[0][1] == b.cases[0][1]
    return _or(f_and(c1, c2) for c1, v1 in cases(a) for c2, v2 in cases(b) if v1 == v2)


# ---------------------------------------------------------------- strings of symbolic characters
# the possible characters: printable ASCII, tab and newline, and a letter that is not ASCII
ALPHABET = "\t\n" + "".join(chr(c) for c in range(32, 127)) + "\u00e9"
AIDX = {c: i for i, c in enumerate(ALPHABET)}
NA = len(ALPHABET)


class Ch:
    """a symbolic character"""
    __slots__ = ("var",)

    def __init__(self, var):
        self.var = var


def mask_of(chars):
    return sum(1 << AIDX[c] for c in set(chars) if c in AIDX)


def ch_in(c, mask, pred):
    """formula: the character c is one of the mask (concrete characters: pred)"""
    if isinstance(c, Ch):
        return among(c.var, mask, NA)
    return pred(c)


def eq_ch(a, b):
    if isinstance(a, Ch) and isinstance(b, Ch):
        return f_same(a.var, b.var)
    if isinstance(b, Ch):
        a, b = b, a
    if isinstance(a, Ch):
        return among(a.var, mask_of(b), NA)
    return a == b


def eq_chars(a, b):
    if len(a) != len(b):
        return False
    return f_and(*[eq_ch(x, y) for x, y in zip(a, b)])


def chars_of(x):
    return x.chars if isinstance(x, CharStr) else tuple(x)


def mkstr(chars):
    chars = tuple(chars)
    if any(isinstance(c, Ch) for c in chars):
        return CharStr(chars)
    return "".join(chars)


SPACES = " \t\n"


def _flat(x):
    """no string with different possible lengths"""
    return isinstance(x, CharStr) or not is_sym(x)


class CharStr(SymStr):
    """a string of known length with symbolic characters"""
    def __new__(cls, chars):
        o = str.__new__(cls, "\ue000%d\ue001" % SymStr._n)
        SymStr._n += 1
        o.chars = tuple(chars)
        ENG.tokens[str.__str__(o)] = o
        return o

    @property
    def cases(self):
        return [(True, ENG.concretize(self))]

    def __bool__(self):
        return bool(self.chars)

    def __len__(self):
        return len(self.chars)

    def __str__(self):
        return self

    def __format__(self, spec):
        return self if not spec else format(ENG.concretize(self), spec)

    def __add__(self, o):
        return mkstr(self.chars + chars_of(o)) if isinstance(o, CharStr) or not is_sym(o) else self + ENG.concretize(o)

    def __radd__(self, o):
        return mkstr(chars_of(o) + self.chars) if isinstance(o, CharStr) or not is_sym(o) else ENG.concretize(o) + self

    def __getitem__(self, k):
        return mkstr(self.chars[k]) if isinstance(k, slice) else mkstr((self.chars[k],))

    def __iter__(self):
        return iter([mkstr((c,)) for c in self.chars])

    def _at(self, sub, i):
        return eq_chars(self.chars[i:i + len(sub)], chars_of(sub))

    def __contains__(self, sub):
        return any(ENG.branch(self._at(sub, i)) for i in range(len(self.chars) - len(sub) + 1))

    def _part(self, start=None, end=None):
        return self if start is None and end is None else self[slice(start, end)]

    def startswith(self, sub, *a):
        if isinstance(sub, tuple):
            return any(self.startswith(x, *a) for x in sub)
        if a:
            p = self._part(*a)
            return p.startswith(sub) if is_sym(p) else rt_call(p, "startswith", sub)
        return ENG.branch(eq_chars(self.chars[:len(sub)], chars_of(sub))) if _flat(sub) else ENG.concretize(self).startswith(sub)

    def endswith(self, sub, *a):
        if isinstance(sub, tuple):
            return any(self.endswith(x, *a) for x in sub)
        if a:
            p = self._part(*a)
            return p.endswith(sub) if is_sym(p) else rt_call(p, "endswith", sub)
        return len(sub) == 0 or (ENG.branch(eq_chars(self.chars[-len(sub):], chars_of(sub))) if _flat(sub) else ENG.concretize(self).endswith(sub))

    def _positions(self, sub, start=None, end=None):
        start, end, _ = slice(start, end).indices(len(self.chars))
        return range(start, end - len(sub) + 1)

    def find(self, sub, *a):
        sub = sub if _flat(sub) else ENG.concretize(sub)
        return next((i for i in self._positions(sub, *a) if ENG.branch(self._at(sub, i))), -1)

    def rfind(self, sub, *a):
        sub = sub if _flat(sub) else ENG.concretize(sub)
        return next((i for i in reversed(self._positions(sub, *a)) if ENG.branch(self._at(sub, i))), -1)

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        n, i = 0, 0
        for k in self._positions(sub, *a):
            if k >= i and ENG.branch(self._at(sub, k)):
                n, i = n + 1, k + max(len(sub), 1)
        return n

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def removeprefix(self, x):
        return self[len(x):] if self.startswith(x) else self

    def removesuffix(self, x):
        return self[:len(self.chars) - len(x)] if len(x) and self.endswith(x) else self

    def replace(self, old, new, count=-1):
        if not len(old) or not _flat(old):
            return ENG.concretize(self).replace(ENG.concretize(old), ENG.concretize(new), count)
        return rt_fstr(*[p for i, x in enumerate(self.split(old, count)) for p in ([new] if i else []) + [x]])

    def _all(self, pred):
        return bool(self.chars) and ENG.branch(f_and(*[ch_in(c, mask_of([x for x in ALPHABET if pred(x)]), pred) for c in self.chars]))

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return not self.chars or self._all(str.isascii)

    def isprintable(self):
        return not self.chars or self._all(str.isprintable)

    def isidentifier(self):
        first, rest = str.isidentifier, lambda c: ("a" + c).isidentifier()
        return bool(self.chars) and ENG.branch(f_and(*[ch_in(c, mask_of([x for x in ALPHABET if p(x)]), p) for c, p in zip(self.chars, [first] + [rest] * len(self.chars))]))

    def lstrip(self, what=None):
        c = list(self.chars)
        what = SPACES if what is None else what
        m = mask_of(what)
        while c and ENG.branch(ch_in(c[0], m, lambda x: x in what)):
            c.pop(0)
        return mkstr(c)

    def rstrip(self, what=None):
        c = list(self.chars)
        what = SPACES if what is None else what
        m = mask_of(what)
        while c and ENG.branch(ch_in(c[-1], m, lambda x: x in what)):
            c.pop()
        return mkstr(c)

    def strip(self, what=None):
        return self.lstrip(what).rstrip(what)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, rest = [], self.lstrip()
            while len(rest):
                if maxsplit == 0:
                    return out + [rest.rstrip()]
                chars, i = chars_of(rest), 1  # (the first one is no space)
                while i < len(chars) and not ENG.branch(ch_in(chars[i], mask_of(SPACES), lambda x: x in SPACES)):
                    i += 1
                out.append(mkstr(chars[:i]))
                rest = mkstr(chars[i:]).lstrip()
                maxsplit -= 1
            return out
        out, cur, i = [], [], 0
        while i < len(self.chars):
            if maxsplit != 0 and i + len(sep) <= len(self.chars) and ENG.branch(self._at(sep, i)):
                out.append(mkstr(cur))
                cur = []
                i += len(sep)
                maxsplit -= 1
            else:
                cur.append(self.chars[i])
                i += 1
        return out + [mkstr(cur)]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep) if maxsplit < 0 else ENG.concretize(self).rsplit(sep, maxsplit)
        out, rest = [], self
        while maxsplit > 0:
            a, b, c = rt_call(rest, "rpartition", sep)
            if not b:
                break
            out.insert(0, c)
            rest = a
            maxsplit -= 1
        return [rest] + out

    def splitlines(self, keepends=False):
        if keepends:
            return ENG.concretize(self).splitlines(True)
        out = self.split("\n")
        return out if len(out[-1]) else out[:-1]

    def __repr__(self):
        return repr(ENG.concretize(self))


# ---- regular expressions on symbolic characters: a backtracking matcher with the semantics of re
from re import _parser as sre_parse, _constants as sre  # noqa: E402

_CAT = {sre.CATEGORY_WORD: r"\w", sre.CATEGORY_NOT_WORD: r"\W", sre.CATEGORY_DIGIT: r"\d", sre.CATEGORY_NOT_DIGIT: r"\D", sre.CATEGORY_SPACE: r"\s",
        sre.CATEGORY_NOT_SPACE: r"\S"}
_SETS = {}


def charset(op, av, flags=0):
    """(mask, predicate) of a single character item"""
    k = (op, repr(av), flags)
    if k in _SETS:
        return _SETS[k]
    if op is sre.LITERAL:
        p = lambda c: ord(c) == av
    elif op is sre.NOT_LITERAL:
        p = lambda c: ord(c) != av
    elif op is sre.ANY:
        p = lambda c: c != "\n" or bool(flags & re.DOTALL)
    elif op is sre.CATEGORY:
        r = re.compile(_CAT[av], flags & re.ASCII)
        p = lambda c: bool(r.match(c))
    elif op is sre.RANGE:
        p = lambda c: av[0] <= ord(c) <= av[1]
    elif op is sre.IN:
        neg = av[0][0] is sre.NEGATE
        sub = [charset(o, a, flags)[1] for o, a in av if o is not sre.NEGATE]
        p = lambda c: any(s(c) for s in sub) != neg
    else:
        return None
    if flags & re.IGNORECASE and op in (sre.LITERAL, sre.RANGE):
        q = p
        p = lambda c: q(c) or q(c.swapcase()) if len(c.swapcase()) == 1 else q(c)
    elif flags & re.IGNORECASE and op is sre.NOT_LITERAL:
        q = p
        p = lambda c: q(c) and q(c.swapcase())
    _SETS[k] = (mask_of([c for c in ALPHABET if p(c)]), p)
    return _SETS[k]


class Matcher:
    def __init__(self, pattern, flags=0):
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = flags | self.tree.state.flags
        if self.flags & re.MULTILINE:
            raise Incomplete("multiline regular expression")
        self.groups = self.tree.state.groups

    def run(self, s, start, full):
        self.s = s
        self.end = len(s)

        def done(pos, g):
            return (pos, g) if not full or pos == self.end else None

        return self.seq(list(self.tree), 0, start, {}, done)

    def seq(self, items, i, pos, g, cont):
        if i == len(items):
            return cont(pos, g)
        return self.item(items[i], pos, g, lambda p, gg: self.seq(items, i + 1, p, gg, cont))

    def item(self, it, pos, g, cont):
        op, av = it
        cs = charset(op, av, self.flags)
        if cs is not None:
            if pos < self.end and ENG.branch(ch_in(self.s[pos], *cs)):
                return cont(pos + 1, g)
            return None
        if op is sre.SUBPATTERN:
            n, _, _, sub = av
            return self.seq(list(sub), 0, pos, g, lambda p, gg: cont(p, {**gg, n: (pos, p)} if n is not None else gg))
        if op is sre.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, g, cont)
                if r is not None:
                    return r
            return None
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def more(n, p, gg):
                return self.seq(sub, 0, p, gg, lambda q, g3: rep(n + 1, q, g3) if q != p or n < lo else None)

            def rep(n, p, gg):
                if n < lo:
                    return more(n, p, gg)
                if op is sre.MAX_REPEAT:
                    r = more(n, p, gg) if hi is sre.MAXREPEAT or n < hi else None
                    return r if r is not None else cont(p, gg)
                r = cont(p, gg)
                return r if r is not None else (more(n, p, gg) if hi is sre.MAXREPEAT or n < hi else None)

            return rep(0, pos, g)
        if op is sre.AT:
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                return cont(pos, g) if pos == 0 else None
            if av is sre.AT_END_STRING:
                return cont(pos, g) if pos == self.end else None
            if av is sre.AT_END:
                ok = pos == self.end or (pos == self.end - 1 and ENG.branch(eq_ch(self.s[pos], "\n")))
                return cont(pos, g) if ok else None
            if av in (sre.AT_BOUNDARY, sre.AT_NON_BOUNDARY):
                w = charset(sre.CATEGORY, sre.CATEGORY_WORD, self.flags & ~re.IGNORECASE)
                a, b = (0 <= q < self.end and ENG.branch(ch_in(self.s[q], *w)) for q in (pos - 1, pos))
                return cont(pos, g) if (a != b) == (av is sre.AT_BOUNDARY) else None
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            d, sub = av
            at = pos
            if d < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Incomplete("regular expression item %s" % op)
                at = pos - lo
            r = self.seq(list(sub), 0, at, g, lambda p, gg: (p, gg)) if at >= 0 else None
            if (r is not None) != (op is sre.ASSERT):
                return None
            return cont(pos, r[1] if r is not None else g)
        if op is sre.GROUPREF:
            if av not in g:
                return None
            t = self.s[slice(*g[av])]
            return cont(pos + len(t), g) if ENG.branch(eq_chars(self.s[pos:pos + len(t)], t)) else None
        if op is getattr(sre, "ATOMIC_GROUP", None):
            r = self.seq(list(av), 0, pos, g, lambda p, gg: (p, gg))
            return None if r is None else cont(*r)
        if op is getattr(sre, "POSSESSIVE_REPEAT", None):
            r = self.item((sre.MAX_REPEAT, av), pos, g, lambda p, gg: (p, gg))
            return None if r is None else cont(*r)
        raise Incomplete("regular expression item %s" % op)


_MATCHERS = {}


def find_chars(pat, s, how):
    """the spans of a match and its groups"""
    m = _MATCHERS.get((pat.pattern, pat.flags)) or Matcher(pat.pattern, pat.flags & ~re.UNICODE)
    _MATCHERS[(pat.pattern, pat.flags)] = m
    ch = s.chars
    for start in range(len(ch) + 1) if how == "search" else (0,):
        r = m.run(ch, start, how == "fullmatch")
        if r is not None:
            return [(start, r[0])] + [r[1].get(k, (-1, -1)) for k in range(1, m.groups)]
    return None


def untoken(x):
    """puts the symbolic strings back in what has been written and read by a library that copies strings as they are"""
    if isinstance(x, str):
        if not is_sym(x) and x[:1] == "\ue000" and x[-1:] == "\ue001":
            return ENG.tokens[x]
        if not is_sym(x) and "\ue000" in x:
            raise Incomplete("a library took a symbolic string apart")
        return x
    if isinstance(x, list):
        return [untoken(y) for y in x]
    if isinstance(x, dict):
        return {untoken(k): untoken(y) for k, y in x.items()}
    return x


# ---------------------------------------------------------------- rewritten constructs
def _has_sym_keys(d):
    return any(is_sym(k) for k in d)


def rt_fstr(*parts):
    if any(isinstance(p, CharStr) for p in parts):
        return mkstr([c for p in parts for c in chars_of(p if isinstance(p, CharStr) or not is_sym(p) else ENG.concretize(p))])
    if any(is_sym(p) for p in parts):
        parts = [q for p in parts for q in (p.parts if isinstance(p, LazyStr) else (p,))]
        n = 1
        for p in parts:
            n *= len(p.cases) if is_sym(p) else 1
        return lift(lambda *p: "".join(p), *parts) if n <= 64 else LazyStr(parts)
    return "".join(parts)


class LazyStr(SymStr):
    """a concatenation with many cases, which are only listed when they matter"""
    def __new__(cls, parts):
        o = str.__new__(cls, "\ue000%d\ue001" % SymStr._n)
        SymStr._n += 1
        o.parts, o._cases = parts, None
        ENG.tokens[str.__str__(o)] = o
        return o

    @property
    def cases(self):
        if self._cases is None:
            self._cases = cases(lift(lambda *p: "".join(p), *self.parts))
        return self._cases

    def __add__(self, o):
        return rt_fstr(self, o)

    def __radd__(self, o):
        return rt_fstr(o, self)


def rt_fmt(v, conv, spec):
    if conv == "r":
        v = repr_of(v)
    elif conv == "s":
        v = str_of(v)
    if is_sym(v):
        return lift(lambda s: format(s, spec), v)
    r = type(v).__format__(v, spec) if not hasattr(type(v), "__sym_str__") else v
    return r


def str_of(v):
    if is_sym(v):
        return v
    return type(v).__str__(v)


def rt_int(v):
    return int(ENG.concretize(v)) if is_sym(v) else int(v)


def rt_float(v):
    return float(ENG.concretize(v)) if is_sym(v) else float(v)


def repr_of(v):
    if is_sym(v):
        return lift(repr, v)
    if isinstance(v, (list, tuple)) and any(is_sym(x) for x in v):
        o, c = ("[", "]") if isinstance(v, list) else ("(", ")")
        parts = [o]
        for i, x in enumerate(v):
            parts += [", "] * (i > 0) + [repr_of(x)]
        return rt_fstr(*parts, c)
    return type(v).__repr__(v)


def rt_format_builtin(v, spec=""):
    # objects that define __str__ with symbolic parts
    if isinstance(v, CharStr) and not spec:
        return v
    if is_sym(v):
        return lift(lambda s: format(s, spec), v)
    if type(v).__format__ is object.__format__ and not spec:
        return type(v).__str__(v)
    return type(v).__format__(v, spec)


def rt_in(x, c):
    if isinstance(c, SymSet):
        return x in c
    if is_sym(c):
        return c.__contains__(x)
    if isinstance(c, str):
        return lift(lambda a, b: b in a, c, x) if is_sym(x) else x in c
    if isinstance(x, str) and isinstance(c, (list, tuple, set, frozenset, dict, type({}.keys()), type({}.values()))):
        if is_sym(x) or any(is_sym(k) for k in c):
            return ENG.branch(f_or(*[eq(x, k) for k in c if isinstance(k, str)]))
    return x in c


def rt_getitem(d, k):
    if isinstance(d, dict) and isinstance(k, str) and (is_sym(k) or _has_sym_keys(d)):
        for kk, v in d.items():
            if isinstance(kk, str) and (kk is k or ENG.branch(eq(kk, k))):
                return v
        if isinstance(d, collections.defaultdict) and d.default_factory is not None:
            d[k] = d.default_factory()
            return d[k]
        if hasattr(type(d), "__missing__") and not isinstance(d, collections.defaultdict):
            return type(d).__missing__(d, k)
        raise KeyError(k)
    if isinstance(d, str) and is_sym(d):
        return d[k] if isinstance(d, CharStr) else lift(lambda a: a[k], d)
    return d[k]


def _hit(d, k):
    return next((kk for kk in d if isinstance(kk, str) and (kk is k or ENG.branch(eq(kk, k)))), None)


def rt_setitem(d, k, v):
    if isinstance(d, dict) and isinstance(k, str) and (is_sym(k) or _has_sym_keys(d)):
        h = _hit(d, k)
        d[k if h is None else h] = v
        return
    d[k] = v


def rt_delitem(d, k):
    if isinstance(d, dict) and isinstance(k, str) and (is_sym(k) or _has_sym_keys(d)):
        h = _hit(d, k)
        if h is None:
            raise KeyError(k)
        k = h
    del d[k]


def rt_dict(*a, **kw):
    """dict(..), displays and comprehensions of dicts"""
    d = {}
    rt_update(d, *a, **kw)
    return d


def rt_update(d, /, *a, **kw):
    for x in a:
        for k, v in (x.items() if isinstance(x, dict) else [(k, x[k]) for k in x.keys()] if hasattr(x, "keys") else x):
            rt_setitem(d, k, v)
    for k, v in kw.items():
        rt_setitem(d, k, v)


def rt_fromkeys(xs, v=None):
    return rt_dict([(x, v) for x in xs])


def rt_isinstance(x, t):
    if isinstance(x, SymSet):
        ts = t if isinstance(t, tuple) else (t,)
        return any(u in (set, frozenset, SymSet) or isinstance(u, type) and u not in (list, tuple, dict, str) and issubclass(set, u) for u in ts)
    return isinstance(x, t)


_VIEWS = (type({}.keys()), type({}.items()))


def rt_binop(op, a, b):
    if op == "%":
        return rt_mod(a, b)
    if isinstance(a, _VIEWS) or isinstance(a, (set, frozenset)) and isinstance(b, SymSet):
        a = SymSet(a)
        b = b if isinstance(b, SymSet) else SymSet(b)
    if op == "|" and isinstance(a, dict) and isinstance(b, dict):
        return rt_dict(a, b)
    return {"-": lambda: a - b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()


def rt_mod(a, b):
    if not isinstance(a, str) or is_sym(a) or not (is_sym(b) or isinstance(b, tuple) and any(is_sym(x) for x in b)):
        return lift(lambda x: x % b, a) if is_sym(a) and not isinstance(b, (tuple, SymStr)) else a % b
    args = list(b) if isinstance(b, tuple) else [b]
    parts = re.split(r"(%[sr%])", a)
    if "%" in "".join(parts[0::2]):  # (other conversions)
        return lift(lambda f, *x: f % tuple(x), a, *args)
    out = []
    for x in parts:
        out.append("%" if x == "%%" else rt_fmt_entry(args.pop(0), x[1], "") if x in ("%s", "%r") else x)
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return rt_fstr(*out)


def rt_format(fmt, /, *a, **kw):
    import string
    f, out, auto = string.Formatter(), [], 0
    for lit, field, spec, conv in f.parse(fmt):
        out.append(lit)
        if field is not None:
            if not field or field[0] in ".[":
                field, auto = str(auto) + field, auto + 1
            spec = rt_format(spec, *a, **kw) if spec else ""
            out.append(rt_fmt_entry(f.get_field(field, a, kw)[0], conv or "", spec))
    return rt_fstr(*out)


def rt_strm(name):
    """str.name used as a function"""
    return lambda obj, /, *a, **kw: rt_call(obj, name, *a, **kw)


def rt_call(obj, name, /, *a, **kw):
    """method calls that take strings on containers or plain strings"""
    if isinstance(obj, str) and not is_sym(obj):
        if name == "join":
            xs = list(a[0])
            if any(is_sym(x) for x in xs):
                parts = []
                for i, x in enumerate(xs):
                    parts += [obj] * (i > 0) + [x]
                return rt_fstr(*parts)
            return obj.join(xs)
        if name == "format":
            return rt_format(obj, *a, **kw)
        if any(isinstance(x, CharStr) for x in a) and name in ("startswith", "endswith") and len(a) == 1:
            n = len(a[0])
            return ENG.branch(eq_chars(tuple(obj[:n] if name == "startswith" else obj[max(len(obj) - n, 0):]), a[0].chars))
        if any(isinstance(x, CharStr) for x in a) and name in ("removeprefix", "removesuffix"):
            return (obj[len(a[0]):] if name == "removeprefix" else obj[:len(obj) - len(a[0])]) if len(a[0]) and rt_call(obj, name.replace("remove", "").replace("prefix", "startswith").replace("suffix", "endswith"), a[0]) else obj
        if name in ("startswith", "endswith") and a and isinstance(a[0], tuple) and any(is_sym(x) for x in a[0]):
            return any(rt_call(obj, name, x, *a[1:]) for x in a[0])
        if any(is_sym(x) for x in list(a) + list(kw.values())):
            return lift(lambda o, *b: getattr(o, name)(*b, **kw), obj, *a)
    if isinstance(obj, SymSet) and name in ("pop",):
        return obj.pop()
    if name == "update" and isinstance(obj, dict) and type(obj).update is dict.update:
        return rt_update(obj, *a, **kw)
    if isinstance(obj, dict) and a and isinstance(a[0], str) and (is_sym(a[0]) or _has_sym_keys(obj)):
        k, dflt = a[0], a[1] if len(a) > 1 else kw.get("default")
        if name in ("get", "setdefault", "pop"):
            hit = _hit(obj, k)
            if name == "get":
                return obj[hit] if hit is not None else dflt
            if name == "setdefault":
                return obj[hit] if hit is not None else obj.setdefault(k, dflt)
            if hit is not None:
                return obj.pop(hit)
            if len(a) > 1:
                return dflt
            raise KeyError(k)
    return getattr(obj, name)(*a, **kw)


def eqv(a, b):
    """formula: two values are equal"""
    if isinstance(a, str) and isinstance(b, str):
        return eq(a, b)
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and f_and(*[eqv(x, y) for x, y in zip(a, b)])
    return a is b or bool(a == b)


class SymSet:
    """a set whose elements can be symbolic: elements that may be equal are only compared when it matters"""
    def __init__(self, xs=()):
        self.xs = []
        self.update(xs)

    def add(self, x):
        if not any(eqv(x, y) is True for y in self.xs):
            self.xs.append(x)
        self.clean = False

    def update(self, *xss):
        for xs in xss:
            for x in xs:
                self.add(x)

    def _dedup(self):
        if not self.clean:
            out = []
            for x in self.xs:
                if not any(ENG.branch(eqv(x, y)) for y in out):
                    out.append(x)
            self.xs, self.clean = out, True
        return self.xs

    clean = True

    def discard(self, x):
        n = len(self.xs)
        self.xs = [y for y in self.xs if not ENG.branch(eqv(x, y))]
        return n != len(self.xs)

    def remove(self, x):
        if not self.discard(x):
            raise KeyError(x)

    def has(self, x):
        """formula"""
        return f_or(*[eqv(x, y) for y in self.xs])

    def __contains__(self, x):
        return ENG.branch(self.has(x))

    def __iter__(self):
        return iter(list(self._dedup()))

    def __len__(self):
        return len(self._dedup())

    def __bool__(self):
        return bool(self.xs)

    def union(self, *o):
        r = SymSet(self.xs)
        r.update(*o)
        return r

    def difference(self, *o):
        other = SymSet()
        other.update(*o)
        return SymSet([x for x in self if not ENG.branch(other.has(x))])

    def intersection(self, o):
        other = SymSet(o)
        return SymSet([x for x in self if ENG.branch(other.has(x))])

    def issubset(self, o):
        other = SymSet(o)
        return all(ENG.branch(other.has(x)) for x in self.xs)

    def issuperset(self, o):
        return SymSet(o).issubset(self)

    def isdisjoint(self, o):
        return not self.intersection(o)

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(o).difference(self))

    __or__, __sub__, __and__, __xor__ = union, difference, intersection, symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self

    def difference_update(self, *o):
        self.xs = self.difference(*o).xs

    def intersection_update(self, o):
        self.xs = self.intersection(o).xs

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.xs = self.symmetric_difference(o).xs
        return self

    def __eq__(self, o):
        return self.issubset(o) and SymSet(o).issubset(self)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def copy(self):
        return SymSet(self.xs)

    def __copy__(self):
        return SymSet(self.xs)

    def __deepcopy__(self, memo):
        return SymSet(self.xs)

    def pop(self):
        return self._dedup().pop(0)

    def clear(self):
        self.xs, self.clean = [], True


class ReShim(types.ModuleType):
    """the re module for symbolic strings: the real engine, lifted over the cases"""
    def __init__(self):
        super().__init__("re")

    def __getattr__(self, n):
        v = getattr(re, n)
        return v

    def compile(self, p, flags=0):
        return p if isinstance(p, PatShim) else PatShim(re.compile(ENG.concretize(p) if is_sym(p) else p, flags))

    def escape(self, p):
        return lift(re.escape, p)

    def split(self, p, s, *a, **kw):
        return self.compile(p).split(s, *a, **kw)

    def sub(self, p, r, s, *a, **kw):
        return self.compile(p).sub(r, s, *a, **kw)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)


class MatchShim:
    def __init__(self, pat, s, parts, span):
        self.re, self.string, self.parts, self.span = pat, s, parts, span

    def groups(self, default=None):
        return tuple(default if x is None else x for x in self.parts[1:])

    def groupdict(self, default=None):
        return {k: default if self.parts[i] is None else self.parts[i] for k, i in self.re.p.groupindex.items()}

    def __getitem__(self, i):
        return self.parts[i if isinstance(i, int) else self.re.p.groupindex[i] if i in self.re.p.groupindex else self._none()]

    def _none(self):
        raise IndexError("no such group")

    def group(self, *i):
        if not i:
            return self.parts[0]
        return self[i[0]] if len(i) == 1 else tuple(self[k] for k in i)

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]


class PatShim:
    def __init__(self, p):
        self.p, self.pattern, self.flags, self.groupindex = p, p.pattern, p.flags, p.groupindex

    def _do(self, how, s, *pos):
        if pos:
            return getattr(self.p, how)(ENG.concretize(s), *pos)
        if not is_sym(s):
            return getattr(self.p, how)(s)
        if isinstance(s, CharStr):
            spans = find_chars(self.p, s, how)
            if spans is None:
                return None
            return MatchShim(self, s, [None if a < 0 else mkstr(s.chars[a:b]) for a, b in spans], lambda i: spans[i if isinstance(i, int) else self.groupindex[i]])

        def f(x):
            m = getattr(self.p, how)(x)
            return None if m is None else (m.group(0),) + m.groups()

        r = lift(f, s)
        return None if r is None else MatchShim(self, s, r, lambda i: getattr(self.p, how)(ENG.concretize(s)).span(i))

    def match(self, s, *pos):
        return self._do("match", s, *pos)

    def fullmatch(self, s, *pos):
        return self._do("fullmatch", s, *pos)

    def search(self, s, *pos):
        return self._do("search", s, *pos)

    def split(self, s, *a, **kw):
        return lift(lambda x: self.p.split(x, *a, **kw), s)

    def sub(self, r, s, *a, **kw):
        if callable(r) or is_sym(r):
            s, r = ENG.concretize(s), r if callable(r) else ENG.concretize(r)
        return lift(lambda x: self.p.sub(r, x, *a, **kw), s)

    def subn(self, r, s, *a, **kw):
        return self.p.subn(r, ENG.concretize(s), *a, **kw)

    def findall(self, s):
        return lift(self.p.findall, s)

    def finditer(self, s):
        return self.p.finditer(ENG.concretize(s))


METHODS = {n for n in dir(str) if not n.startswith("__")} - {"maketrans"} | {"get", "setdefault", "pop", "update"}


class Rewrite(ast.NodeTransformer):
    def call(self, fn, *args):
        return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                if isinstance(spec, ast.JoinedStr):
                    spec = self.call("_vp_fstr", *spec.values)
                parts.append(self.call("_vp_fmt", v.value, ast.Constant(conv), spec))
            else:
                parts.append(v)
        return ast.copy_location(self.call("_vp_fstr", *parts), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.call("_vp_in", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(self.call("_vp_getitem", n.value, n.slice), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self.call("_vp_setitem", t.value, t.slice, n.value)), n)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, ast.Slice):
            t = n.target
            load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
            if isinstance(n.op, (ast.BitOr, ast.Add)):  # (in place, for containers)
                v = ast.Call(func=ast.Name(id="_vp_iadd" if isinstance(n.op, ast.Add) else "_vp_ior", ctx=ast.Load()), args=[load, n.value], keywords=[])
            else:
                v = ast.BinOp(left=load, op=n.op, right=n.value)
            return self.visit(ast.copy_location(ast.Assign(targets=[t], value=v), n))
        self.generic_visit(n)
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self.call("_vp_delitem", t.value, t.slice)), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        op = {ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.Mod: "%"}.get(type(n.op))
        return ast.copy_location(self.call("_vp_binop", ast.Constant(op), n.left, n.right), n) if op else n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("_vp_set", ast.List(elts=n.elts, ctx=ast.Load())), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("_vp_set", ast.ListComp(elt=n.elt, generators=n.generators)), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("_vp_dict", ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        parts = [v if k is None else ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.copy_location(self.call("_vp_dict", *parts), n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "str" and not n.attr.startswith("__") and n.attr != "maketrans":
            return ast.copy_location(self.call("_vp_strm", ast.Constant(n.attr)), n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "dict" and n.attr == "fromkeys":
            return ast.copy_location(ast.Name(id="_vp_fromkeys", ctx=ast.Load()), n)
        return n

    def visit_AnnAssign(self, n):  # (annotations stay as they are)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(b) for b in n.body]
        # (no values may be kept from one path to another)
        n.decorator_list = [self.visit(d) for d in n.decorator_list if ast.unparse(d).split("(")[0] not in ("lru_cache", "functools.lru_cache", "cache", "functools.cache")]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not any(isinstance(k.value, ast.Starred) for k in n.keywords):
            return ast.copy_location(ast.Call(func=ast.Name(id="_vp_call", ctx=ast.Load()), args=[f.value, ast.Constant(f.attr)] + n.args, keywords=n.keywords), n)
        if isinstance(f, ast.Name) and f.id in ("set", "frozenset") and not n.keywords:
            return ast.copy_location(self.call("_vp_set", *n.args), n)
        if isinstance(f, ast.Name) and f.id in ("dict", "isinstance"):
            f.id = "_vp_" + f.id
            return n
        if isinstance(f, ast.Name) and f.id in ("str", "int", "float") and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(self.call("_vp_" + f.id, n.args[0]), n)
        return n


def rt_fmt_entry(v, conv, spec):
    if conv == "r":
        v = repr_of(v)
    elif conv == "s":
        v = str_of(v)
    return rt_format_builtin(v, spec)


RUNTIME = dict(_vp_fstr=rt_fstr, _vp_fmt=rt_fmt_entry, _vp_in=rt_in, _vp_getitem=rt_getitem, _vp_setitem=rt_setitem, _vp_delitem=rt_delitem, _vp_dict=rt_dict, _vp_fromkeys=rt_fromkeys, _vp_isinstance=rt_isinstance, _vp_binop=rt_binop, _vp_strm=rt_strm, _vp_iadd=operator.iadd, _vp_ior=operator.ior, _vp_call=rt_call, _vp_str=str_of, _vp_set=SymSet, _vp_int=rt_int, _vp_float=rt_float)


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """imports the modules below `root` from source, with the rewriting above"""
    def __init__(self, root, packages, rewrite=True):
        self.root, self.packages, self.rewrite = root, packages, rewrite
        self.loaded = {}

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in self.packages:
            return None
        p = self.root / name.replace(".", "/")
        pk = p.is_dir()
        f = p / "__init__.py" if pk else p.with_suffix(".py")
        if not f.exists():
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=str(f), is_package=pk)
        if pk:
            spec.submodule_search_locations = [str(p)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        src = open(f, encoding="utf-8").read()
        tree = ast.parse(src, f)
        self.loaded[mod.__name__] = f
        mod.__file__ = f
        if self.rewrite:
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            mod.__dict__.update(RUNTIME)
        exec(compile(tree, f, "exec"), mod.__dict__)
        if self.rewrite and mod.__dict__.get("re") is re:
            mod.__dict__["re"] = RESHIM
            # patterns compiled at import time
            for k, v in list(mod.__dict__.items()):
                if isinstance(v, re.Pattern):
                    mod.__dict__[k] = PatShim(v)
                elif isinstance(v, type) and v.__module__ == mod.__name__:
                    for kk, vv in list(v.__dict__.items()):
                        if isinstance(vv, re.Pattern):
                            setattr(v, kk, PatShim(vv))


RESHIM = ReShim()


# ---------------------------------------------------------------- engines
class Profile:
    """records the functions of the code under test that are executed (on some of the paths)"""
    def __init__(self, root):
        self.root, self.seen = root, set()

    def __call__(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.root):
            self.seen.add(frame.f_code.co_filename[len(self.root):] + ": " + frame.f_code.co_qualname)


class Symbolic:
    symbolic = True

    def __init__(self, max_paths=2000000, seconds=600, part=None):
        self.part = part
        self.solver = z3.Solver()
        self.solver.set("timeout", 30000)
        self.max_paths, self.deadline = max_paths, time.time() + seconds
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.covers = {}
        self.violations = []
        self.samples = []
        self.incomplete = ""
        self.models = []  # recent models, to avoid queries with a known answer

    # ---- solver
    def _check(self, c):
        """is the path condition satisfiable together with c?"""
        if c is False:
            return False
        t = time.time()
        self.queries += 1
        r = self.solver.check(to_z3(c)) if c is not True else self.solver.check()
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Incomplete("solver gave up: " + self.solver.reason_unknown())
        return r == z3.sat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        d = self.known.get(c)
        if d is not None:
            return d
        if self.pos < len(self.trail):
            d = self.trail[self.pos][0]
            self.pos += 1
        else:
            d = self._decide(c)
        self.known[c] = d
        self.known[f_not(c)] = not d
        return d

    def _decide(self, c):
        n = f_not(c)
        if not self._check(c):
            return self._push(False, False, n)
        if not self._check(n):
            return self._push(True, False, c)
        return self._push(True, True, c)

    def _push(self, d, alt, cond):
        self.solver.push()
        if cond is not True:
            self.solver.add(to_z3(cond))
        self.trail.append([d, alt, cond])
        self.pos += 1
        return d

    # ---- inputs
    def sym(self, name, domain):
        domain = list(dict.fromkeys(domain))
        name = self._name(name)
        self.inputs.append((name, domain))
        if len(domain) == 1:
            return SymStr([(True, domain[0])])
        self._range(name, len(domain))
        return SymStr([(atom(name, i), s) for i, s in enumerate(domain)])

    def chars(self, name, n, allowed=None, first=None):
        """a string of n characters (of those allowed, of the alphabet)"""
        out = []
        for i in range(n):
            nm = self._name(name)
            self.inputs.append((nm, list(ALPHABET)))
            self._range(nm, NA)
            c = Ch(nm)
            a = first if i == 0 and first is not None else allowed
            if a is not None:
                self.assume(among(nm, mask_of(a), NA))
            out.append(c)
        return mkstr(out)

    def concretize(self, x):
        """the value of a string, one path for every possibility"""
        if not is_sym(x):
            return x
        for _ in range(4096):
            if isinstance(x, CharStr):
                if self.pos < len(self.trail):
                    v = self.trail[self.pos][3]
                    self.pos += 1
                else:
                    if not self._check(True):
                        raise PathEnd()
                    m = self.solver.model()
                    v = "".join(c if not isinstance(c, Ch) else ALPHABET[m.eval(z3.Int(c.var), model_completion=True).as_long()] for c in x.chars)
                    self._push(True, False, True)
                    self.trail[-1].append(v)
                if self.branch(eq(x, v)):
                    return v
            else:
                for c, v in x.cases:
                    if self.branch(c):
                        return v
        raise Incomplete("too many values of a string")

    def _range(self, name, n):
        # part of the path condition, one scope of its own
        if self.pos < len(self.trail):
            self.pos += 1
            return
        self._push(True, False, rng(name, n))

    def _name(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return "%s#%d" % (name, k)

    def choose(self, n, name):
        """an integer 0..n-1, one path each"""
        if n == 1:
            return 0
        name = self._name(name)
        self.inputs.append((name, list(range(n))))
        self._range(name, n)
        if self.part is not None and len(self.inputs) == 1:
            i, k = self.part
            self.assume(f_or(*[atom(name, x) for x in range(n) if x % k == i]))
        for i in range(n - 1):
            if self.branch(atom(name, i)):
                return i
        return n - 1

    def flip(self, name):
        return bool(self.choose(2, name))

    def lit(self, s):
        return SymStr([(True, s)])

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if self.pos < len(self.trail):
            self.pos += 1
        else:
            if not self._check(c):
                # nothing satisfies the assumption on this path
                raise PathEnd()
            self._push(True, False, c)
        self.known[c] = True
        self.known[f_not(c)] = False

    def check(self, c, msg):
        """the property: must hold for all values on this path"""
        self.asserts += 1
        if c is True or (c is not False and self.known.get(c)):
            return
        if c is False:
            self._fail(msg, True)
        if self.pos < len(self.trail):
            self.pos += 1  # was decided before
            return
        n = f_not(c)
        if self._check(n):
            self._fail(msg, n)
        self._push(True, False, True)

    def _model(self, c=True):
        if not self._check(c):
            raise Incomplete("path condition became unsatisfiable")
        m = self.solver.model()
        return {n: m.eval(z3.Int(n), model_completion=True).as_long() if len(d) > 1 else 0 for n, d in self.inputs}

    def _values(self, m):
        return {n: d[m[n]] for n, d in self.inputs}

    def _fail(self, msg, c):
        v = Violation(msg)
        v.inputs = self._values(self._model(c))
        raise v

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def trace(self, name, v):
        self.traces.append((name, v))

    def value(self, v, m):
        if isinstance(v, CharStr):
            return "".join(c if not isinstance(c, Ch) else ALPHABET[m.get(c.var, 0)] for c in v.chars)
        if is_sym(v):
            return next((x for c, x in v.cases if evaluate(c, m)), "?")
        if isinstance(v, (list, tuple)):
            return [self.value(x, m) for x in v]
        if isinstance(v, (set, frozenset)):
            return sorted(str(self.value(x, m)) for x in v)
        if isinstance(v, SymSet):
            return sorted({str(self.value(x, m)) for x in v.xs})
        if isinstance(v, dict):
            return {self.value(k, m): self.value(x, m) for k, x in v.items()}
        if isinstance(v, F):
            return evaluate(v, m)
        return v

    # ---- exploration
    def run(self, fn, prof=None, want_samples=40):
        global ENG
        ENG = self
        self.trail = []
        self.asserts = 0
        t0 = time.time()
        nextsample = 1
        while True:
            self.pos = 0
            self.counter, self.inputs, self.traces, self.known = {}, [], [], {}
            SymStr._n = 0
            self.tokens = {}
            try:
                try:
                    if prof is not None:
                        sys.setprofile(prof if self.paths < 20 or self.paths % 64 == 0 else None)
                    fn(self)
                    done = True
                except PathEnd:
                    done = False
                except (Violation, Incomplete):
                    raise
                except RecursionError:
                    raise
                except (Exception, SystemExit) as ex:  # the code under test fell over
                    import traceback
                    tb = traceback.extract_tb(ex.__traceback__)
                    w = "%s:%s" % (tb[-1].filename, tb[-1].lineno)
                    v = Violation("%s: %s escapes" % (type(ex).__name__, str.__str__(str(ex))[:120] if not is_sym(ex) else ""), w)
                    v.inputs = self._values(self._model())
                    raise v
                self.paths += 1
                if done and (self.paths >= nextsample) and len(self.samples) < want_samples:
                    m = self._model()
                    self.samples.append(dict(inputs=self._values(m), trace=[[n, self.value(x, m)] for n, x in self.traces]))
                    nextsample = self.paths + 1 + self.paths // 8
            except Violation as v:
                self.paths += 1
                self.violations.append(dict(kind="assert", msg=v.msg, where=v.where, inputs=v.inputs))
                if len(self.violations) >= 3:
                    break
            except Incomplete as ex:
                self.incomplete = str(ex)
                break
            # backtrack
            while self.trail and not self.trail[-1][1]:
                self.trail.pop()
                self.solver.pop()
            if not self.trail:
                break
            d = self.trail.pop()
            self.solver.pop()
            neg = f_not(d[2])
            self.solver.push()
            self.solver.add(to_z3(neg))
            self.trail.append([False, False, neg])
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.incomplete = "budget exceeded after %d paths" % self.paths
                break
        sys.setprofile(None)
        self.wall = time.time() - t0


class Diverged(Exception):
    pass


class Concrete:
    """the same harness with concrete inputs on the unmodified code"""
    symbolic = False
    tokens = {}

    def concretize(self, x):
        return x

    def __init__(self, inputs):
        self.inputs, self.counter, self.traces = inputs, {}, []

    def _in(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        n = "%s#%d" % (name, k)
        if n not in self.inputs:
            raise Diverged("input %s is not part of the replay" % n)
        return self.inputs[n]

    def sym(self, name, domain):
        return self._in(name)

    def choose(self, n, name):
        return 0 if n == 1 else self._in(name)

    def chars(self, name, n, allowed=None, first=None):
        r = "".join(self._in(name) for _ in range(n))
        for i, c in enumerate(r):
            a = first if i == 0 and first is not None else allowed
            if a is not None:
                self.assume(c in a)
        return r

    def flip(self, name):
        return bool(self.choose(2, name))

    def lit(self, s):
        return s

    def assume(self, c):
        if not c:
            raise Diverged("assumption does not hold")

    def check(self, c, msg):
        if not c:
            raise Violation(msg)

    def cover(self, name):
        pass

    def trace(self, name, v):
        def norm(x):
            if isinstance(x, (list, tuple)):
                return [norm(y) for y in x]
            if isinstance(x, (set, frozenset)):
                return sorted(str(norm(y)) for y in x)
            if isinstance(x, dict):
                return {norm(k): norm(y) for k, y in x.items()}
            return x

        self.traces.append([name, norm(v)])
