"""Formulas over variables of finite domains: interned, simplified while they are built, and translated to z3 once."""
import z3


class F:
    __slots__ = ("op", "args", "z", "neg", "cube")

    def __repr__(self):
        return "%s%r" % (self.op, self.args)


_T = {}


def _mk(op, args):
    k = (op, args)
    f = _T.get(k)
    if f is None:
        f = F()
        f.op, f.args, f.z, f.neg, f.cube = op, args, None, None, None
        if op == "is":
            f.cube = {args[0]: args[1]}
        elif op == "and":
            c = {}
            for a in args:
                if a.op == "is":
                    c[a.args[0]] = a.args[1]
            f.cube = c
        else:
            f.cube = {}
        _T[k] = f
    return f


def atom(var, i):
    return _mk("is", (var, i))


def among(var, mask, n):
    """var is one of the values of the bit mask (of a domain of n values)"""
    full = (1 << n) - 1
    mask &= full
    if mask == 0:
        return False
    if mask == full:
        return True
    f = _mk("in", (var, mask, n))
    if f.neg is None:
        f.neg = _mk("in", (var, full ^ mask, n))
        f.neg.neg = f
    return f


def same(v1, v2):
    """two variables of the same domain have the same value"""
    if v1 == v2:
        return True
    return _mk("same", (min(v1, v2), max(v1, v2)))


def _runs(mask):
    out, i = [], 0
    while mask >> i:
        if mask >> i & 1:
            j = i
            while mask >> j & 1:
                j += 1
            out.append((i, j - 1))
            i = j
        else:
            i += 1
    return out


def f_not(a):
    if isinstance(a, bool):
        return not a
    if a.neg is None:
        a.neg = _mk("not", (a,))
        a.neg.neg = a
    return a.neg


def f_and(*xs):
    out, seen, cube = [], set(), {}
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        for y in (x.args if x.op == "and" else (x,)):
            if y in seen:
                continue
            if y.neg is not None and y.neg in seen:
                return False
            if y.op == "is":
                v, i = y.args
                if cube.setdefault(v, i) != i:
                    return False
            seen.add(y)
            out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    out.sort(key=id)
    return _mk("and", tuple(out))


def f_or(*xs):
    out, seen = [], set()
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        for y in (x.args if x.op == "or" else (x,)):
            if y in seen:
                continue
            if y.neg is not None and y.neg in seen:
                return True
            seen.add(y)
            out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    out.sort(key=id)
    return _mk("or", tuple(out))


def to_z3(f):
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if f.z is None:
        if f.op == "is":
            f.z = z3.Int(f.args[0]) == f.args[1]
        elif f.op == "not":
            f.z = z3.Not(to_z3(f.args[0]))
        elif f.op == "and":
            f.z = z3.And([to_z3(x) for x in f.args])
        elif f.op == "or":
            f.z = z3.Or([to_z3(x) for x in f.args])
        elif f.op == "in":
            v = z3.Int(f.args[0])
            runs = _runs(f.args[1])
            f.z = z3.Or([v == a if a == b else z3.And(v >= a, v <= b) for a, b in runs]) if len(runs) > 1 else \
                (v == runs[0][0] if runs[0][0] == runs[0][1] else z3.And(v >= runs[0][0], v <= runs[0][1]))
        elif f.op == "same":
            f.z = z3.Int(f.args[0]) == z3.Int(f.args[1])
        elif f.op == "range":
            v = z3.Int(f.args[0])
            f.z = z3.And(v >= 0, v < f.args[1])
    return f.z


def rng(var, n):
    return _mk("range", (var, n))


def evaluate(f, m):
    """m: variable -> index"""
    if isinstance(f, bool):
        return f
    if f.op == "is":
        return m.get(f.args[0], 0) == f.args[1]
    if f.op == "not":
        return not evaluate(f.args[0], m)
    if f.op == "and":
        return all(evaluate(x, m) for x in f.args)
    if f.op == "or":
        return any(evaluate(x, m) for x in f.args)
    if f.op == "in":
        return bool(f.args[1] >> m.get(f.args[0], 0) & 1)
    if f.op == "same":
        return m.get(f.args[0], 0) == m.get(f.args[1], 0)
    return 0 <= m.get(f.args[0], 0) < f.args[1]
