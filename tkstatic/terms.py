"""Value terms: hash-consed polynomial normal form over opaque atoms.

A term is None (unknown) or a tuple of (monomial, coefficient), a monomial
being a tuple of (atom id, exponent) with exponents a + b*alpha, alpha being
the symbolic Mack parameter.  Two terms denote the same value whenever they
are equal; different terms denote different functions of their atoms.
"""
from fractions import Fraction as F

_atoms = {}
_names = []


def reset():
    _atoms.clear()
    _names.clear()
    SIGNED.clear()


def atom_id(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_names)
        _atoms[key] = i
        _names.append(key)
    return i


def atom(*key):
    """A term consisting of one opaque value; any unknown argument -> unknown."""
    if any(k is None for k in key):
        return None
    return (((((atom_id(key), (F(1), F(0))),), F(1))),)


def key_of(t):
    """the key of a term that is exactly one atom, else None"""
    if t is None or len(t) != 1 or t[0][1] != 1 or len(t[0][0]) != 1 or t[0][0][0][1] != (F(1), F(0)):
        return None
    return _names[t[0][0][0][0]]


def name_of(i):
    return _names[i]


def fn_of(t):
    key = key_of(t)
    return key[0] if key else None


def is_num(t):
    return t is not None and (t == () or (len(t) == 1 and t[0][0] == ()))


def num(t):
    return F(0) if t == () else t[0][1]


def const(c):
    try:
        c = F(c).limit_denominator(10 ** 9)
    except (ValueError, OverflowError, TypeError):
        return None
    return () if c == 0 else (((), c),)


ONE = const(1)
LIMIT = 16


def _mk(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) > LIMIT:
        return None
    return tuple(sorted(d.items()))


def add(a, b, s=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, F(0)) + s * c
    return _mk(d)


def sub(a, b):
    return add(a, b, -1)


def _mm(m1, m2):
    d = dict(m1)
    for x, (p, q) in m2:
        p0, q0 = d.get(x, (F(0), F(0)))
        d[x] = (p0 + p, q0 + q)
    return tuple(sorted((k, v) for k, v in d.items() if v != (0, 0)))


def mul(a, b):
    if a is None or b is None:
        return None
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            m = _mm(m1, m2)
            d[m] = d.get(m, F(0)) + c1 * c2
    return _mk(d)


def inv(a):
    if a is None or a == ():
        return None
    if len(a) == 1:
        m, c = a[0]
        return ((tuple((x, (-p, -q)) for x, (p, q) in m), F(1) / c),)
    lead = a[0][1]
    b = tuple((m, c / lead) for m, c in a)
    i = atom_id(("poly", b))
    return ((((i, (F(-1), F(0))),), F(1) / lead),)


def div(a, b):
    if a is None or b is None:
        return None
    if len(b) > 1 and len(a) == len(b):
        r = a[0][1] / b[0][1]
        if a == tuple((m, c * r) for m, c in b):
            return const(r)
    return mul(a, inv(b))


def power(a, e):
    """e: (p, q) exponent p + q*alpha."""
    if a is None:
        return None
    p, q = e
    if a == ():
        return () if q == 0 and p > 0 else None
    if len(a) == 1:
        m, c = a[0]
        if c == 1 and all(v == 0 or q == 0 for _, (u, v) in m):
            return ((tuple((x, (u * p, v * p + u * q)) for x, (u, v) in m), F(1)),)
        if q == 0 and p.denominator == 1 and abs(p) < 12:
            return ((tuple((x, (u * p, v * p)) for x, (u, v) in m), c ** int(p)),)
    elif q == 0 and p.denominator == 1 and 0 < p <= 3:
        r = a
        for _ in range(int(p) - 1):
            r = mul(r, a)
        return r
    i = atom_id(("poly", a))
    return ((((i, (p, q)),), F(1)),)


def linear(name, t, rows):
    """a linear reduction (SUM, MEAN) distributes over sums and constants"""
    if t is None or rows is None:
        return None
    r = ()
    for m, c in t:
        x = atom(name, ((m, F(1)),) if m else ONE, rows)
        if name == "MEAN" and not m:
            x = ONE
        r = add(r, mul(const(c), x))
    return r


def mapatoms(t, f):
    """apply f to every atom (a homomorphism for row-wise arithmetic)"""
    if t is None:
        return None
    r = ()
    for m, c in t:
        x = ((( ), c),) if c != 0 else ()
        for a, e in m:
            k = _names[a]
            if k[0] == "poly":
                b = mapatoms(k[1], f)
            else:
                b = f(((((a, (F(1), F(0))),), F(1)),))
            x = mul(x, power(b, e))
        r = add(r, x)
    return r


def single(t):
    """the atom key if the term is exactly one atom"""
    if t is not None and len(t) == 1 and t[0][1] == 1 and len(t[0][0]) == 1:
        (x, e), = t[0][0]
        if e == (1, 0):
            return _names[x]
    return None


def show(t, depth=3):
    if t is None:
        return "?"
    if t == ():
        return "0"
    out = []
    for m, c in t:
        fs = []
        for x, (p, q) in m:
            e = "" if (p, q) == (1, 0) else "^(%s)" % (("%s" % p) + ("%+g*alpha" % float(q) if q else ""))
            fs.append(show_atom(x, depth) + e)
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    return " + ".join(out)


def show_atom(x, depth):
    k = _names[x]
    if depth <= 0:
        return str(k[0])
    args = []
    for a in k[1:]:
        if isinstance(a, tuple) and (a == () or (a and isinstance(a[0], tuple) and len(a[0]) == 2)):
            try:
                args.append(show(a, depth - 1))
                continue
            except Exception:
                pass
        args.append(str(a))
    return "%s(%s)" % (k[0], ", ".join(args)) if args else str(k[0])


def atoms_in(t, seen=None):
    """all atom keys reachable from the term"""
    seen = set() if seen is None else seen
    if t is None:
        return seen
    for m, c in t:
        for x, e in m:
            if x not in seen:
                seen.add(x)
                for a in _names[x][1:]:
                    if isinstance(a, tuple) and a and isinstance(a[0], tuple) and len(a[0]) == 2:
                        try:
                            atoms_in(a, seen)
                        except Exception:
                            pass
    return seen


def leaves(t, kinds=("val",)):
    """atom keys of the given kinds reachable from the term"""
    return {_names[x] for x in atoms_in(t) if _names[x][0] in kinds}


def is_term(a):
    return isinstance(a, tuple) and (a == () or (isinstance(a[0], tuple) and len(a[0]) == 2 and isinstance(a[0][0], tuple)))


def _rnd(z):
    """nearby complex numbers to one key"""
    if z != z:
        return "nan"
    def f(x):
        return 0.0 if abs(x) < 1e-9 else float("%.8g" % x)
    return (f(z.real), f(z.imag))


def value(t, seed, memo=None):
    """the term at a pseudo-random assignment of its opaque atoms (every atom in (1.1, 2.9), or below one for a negative seed,
    so that differences of the kind x * f - x take either sign; a function of its evaluated arguments), known functions interpreted; None when it has no finite value.  Terms that are equal as functions agree for
    every seed; terms that agree at several seeds are taken to be equal."""
    if t is None:
        return None
    memo = {} if memo is None else memo
    total = 0j
    for m, c in t:
        v = complex(float(c))
        for x, (p, q) in m:
            a = _avalue(x, seed, memo)
            if a is None:
                return None
            e = float(p) + float(q) * _alpha(seed)
            try:
                v *= a ** e
            except (ZeroDivisionError, OverflowError):
                return None
        total += v
    return total


SIGNED = set()       # atoms that take either sign at seeds from 1000 on; there, selections by comparison are carried out too


def _alpha(seed):
    return 0.37 + 0.21 * (seed % 5)


def _avalue(x, seed, memo):
    import cmath
    import hashlib
    key = (x, seed)
    if key in memo:
        return memo[key]
    k = _names[x]
    r = None
    try:
        if k[0] == "poly":
            r = value(k[1], seed, memo)
        elif k[0] in ("exp", "log") and len(k) == 2 and is_term(k[1]):
            a = value(k[1], seed, memo)
            r = None if a is None else getattr(cmath, k[0])(a)
        elif k[0] == "abs" and len(k) == 2 and is_term(k[1]):
            a = value(k[1], seed, memo)
            r = None if a is None else complex(abs(a))
        elif seed >= 1000 and k[0] == "ite" and len(k) == 4 and all(is_term(a) for a in k[1:]) and (key_of(k[1]) or ("",))[0] == "cmp":
            op, a, b = key_of(k[1])[1:]
            a, b = value(a, seed, memo), value(b, seed, memo)
            if a is None or b is None or abs(a.imag) + abs(b.imag) > 1e-9 or op not in ("Gt", "GtE", "Lt", "LtE"):
                raise ValueError
            r = value(k[2] if (a.real > b.real if op in ("Gt", "GtE") else a.real < b.real) else k[3], seed, memo)
        elif seed >= 1000 and k[0] == "sign" and len(k) == 2 and is_term(k[1]):
            a = value(k[1], seed, memo)
            r = None if a is None or abs(a.imag) > 1e-9 else complex((a.real > 0) - (a.real < 0))
        else:
            args = []
            for a in k[1:]:
                if is_term(a):
                    b = value(a, seed, memo)
                    if b is None:
                        raise ValueError
                    args.append(_rnd(b))
                else:
                    args.append(a)
            h = hashlib.sha256(repr((k[0], args, seed)).encode()).digest()
            u = int.from_bytes(h[:6], "big") / 2 ** 48
            r = complex(1.1 + 1.8 * u if seed > 0 else 0.3 + 0.65 * u)
            if seed >= 1000 and x in SIGNED and h[7] & 1:
                r = -r
    except (ValueError, OverflowError, ZeroDivisionError):
        r = None
    memo[key] = r
    return r


def same(a, b, seeds=(1, 2, 3, -1, -2)):
    """do two terms denote the same value?  None when that cannot be told"""
    if a is None or b is None:
        return None
    if a == b:
        return True
    for s in seeds:
        x, y = value(a, s), value(b, s)
        if x is None or y is None:
            return None
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
            return False
    return True
