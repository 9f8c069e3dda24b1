"""Abstract values: uninterpreted terms, pointers, linear expressions over
integer atoms (with a small convex-constraint store), and bit vectors of
input bits (a dyadic partition domain)."""
from math import gcd

class T:
    """Interned uninterpreted term."""
    __slots__ = ("op", "args", "_h")
    _tab = {}
    def __new__(cls, op, *args):
        k = (op, args)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op = op; r.args = args; r._h = hash(k)
            cls._tab[k] = r
        return r
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __repr__(self):
        if not self.args: return str(self.op)
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))
    def __lt__(self, o): return repr(self) < repr(o)
    def __reduce__(self): return (T, (self.op,) + self.args)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

UNDEF = T("undef")

class Ptr:
    __slots__ = ("o", "off", "_h")
    def __init__(self, o, off=0):
        self.o = o; self.off = off; self._h = hash((o, off)) ^ 0x5bd1
    def __hash__(self): return self._h
    def __eq__(self, x): return x.__class__ is Ptr and self.o == x.o and self.off == x.off
    def __ne__(self, x): return not self.__eq__(x)
    def __repr__(self): return "&%s%s" % (self.o, "" if self.off == 0 else "+%r" % (self.off,))

NULL = Ptr(None, 0)

class Agg(tuple):
    """First-class struct value."""
    __slots__ = ()
    def __repr__(self): return "{" + ", ".join(map(repr, self)) + "}"

# ---------------------------------------------------------------- linear
class Lin:
    __slots__ = ("c", "t", "_h")
    def __init__(self, c, t):
        self.c = c; self.t = t; self._h = hash((c, t)) ^ 0x77
    def __hash__(self): return self._h
    def __eq__(self, o): return o.__class__ is Lin and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self.__eq__(o)
    def __repr__(self):
        s = "".join("%+d*%r" % (k, a) if abs(k) != 1 else ("+" if k > 0 else "-") + repr(a) for a, k in self.t)
        if self.c or not s: s += "%+d" % self.c
        return "<" + s.lstrip("+") + ">"

def is_num(v): return v.__class__ is int or v.__class__ is Lin

def atom(a): return Lin(0, ((a, 1),))

_key = repr
def mklin(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: _key(x[0])))
    if not t: return c
    return Lin(c, t)

def ladd(a, b, kb=1):
    if a.__class__ is int and b.__class__ is int: return a + kb * b
    c = 0; d = {}
    for v, k in ((a, 1), (b, kb)):
        if v.__class__ is int: c += k * v
        else:
            c += k * v.c
            for x, q in v.t: d[x] = d.get(x, 0) + k * q
    return mklin(c, d)
def lsub(a, b): return ladd(a, b, -1)
def lscale(a, k):
    if a.__class__ is int: return a * k
    if k == 0: return 0
    return Lin(a.c * k, tuple((x, q * k) for x, q in a.t))
def latoms(a): return [x for x, _ in a.t] if a.__class__ is Lin else []
def lsubst(a, m):
    """substitute atoms by numbers"""
    if a.__class__ is int: return a
    if not any(x in m for x, _ in a.t): return a
    r = a.c; rest = {}
    for x, q in a.t:
        if x in m: r = ladd(r, m[x], q)
        else: rest[x] = rest.get(x, 0) + q
    return ladd(r, mklin(0, rest))

def _norm_ge(l):
    """constraint l >= 0, integer-tightened; returns int or Lin"""
    if l.__class__ is int: return l
    g = 0
    for _, q in l.t: g = gcd(g, abs(q))
    if g > 1:
        return Lin(l.c // g, tuple((x, q // g) for x, q in l.t))
    return l

class Num:
    """A conjunction of linear constraints over the integers (convex domain)."""
    __slots__ = ("ge", "_cache")
    def __init__(self, ge=frozenset()):
        self.ge = ge; self._cache = {}
    def add(self, l):
        """assume l >= 0; returns new Num or None if contradictory"""
        l = _norm_ge(l)
        if l.__class__ is int: return self if l >= 0 else None
        if l in self.ge: return self
        n = Num(self.ge | {l})
        if infeasible(component(self.ge, l) | {l}): return None
        return n
    def add_eq(self, l):
        n = self.add(l)
        return n and n.add(lscale(l, -1))
    def entails(self, l):
        if l.__class__ is int: return l >= 0
        l = _norm_ge(l)
        if l.__class__ is int: return l >= 0
        if l in self.ge: return True
        r = self._cache.get(l)
        if r is None:
            r = infeasible(component(self.ge, l) | {_norm_ge(ladd(lscale(l, -1), -1))})
            self._cache[l] = r
        return r
    def entails_eq(self, l):
        if l.__class__ is int: return l == 0
        return self.entails(l) and self.entails(lscale(l, -1))
    def project(self, keep):
        """constraints over atoms satisfying keep (others eliminated)"""
        cs = set(self.ge)
        while True:
            el = None
            cnt = {}
            for l in cs:
                for x, q in l.t:
                    if not keep(x):
                        p = cnt.setdefault(x, [0, 0]); p[0 if q > 0 else 1] += 1
            if not cnt: break
            el = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], repr(x)))
            cs = fm(cs, el)
            if cs is None: return self
            if len(cs) > 400: cs = {l for l in cs if len(l.t) <= 2}
        return Num(frozenset(prune(minimise(cs))))
    def subst(self, m):
        n = Num(frozenset())
        out = set()
        for l in self.ge:
            v = _norm_ge(lsubst(l, m))
            if v.__class__ is int:
                if v < 0: return None
            else: out.add(v)
        if infeasible(out): return None
        return Num(frozenset(out))
    def __repr__(self): return "{" + ", ".join(sorted("%r>=0" % l for l in self.ge)) + "}"

def component(cs, l):
    """the constraints connected to l through shared atoms (the others are satisfiable on their own)"""
    at = {x for x, _ in l.t}; rest = list(cs); out = set()
    while True:
        nxt = []; ch = False
        for c in rest:
            if any(x in at for x, _ in c.t):
                out.add(c); at.update(x for x, _ in c.t); ch = True
            else: nxt.append(c)
        if not ch: return out
        rest = nxt

def prune(cs):
    """drops facts over several atoms that already follow from the range of each atom"""
    lo = {}; hi = {}
    for l in cs:
        if l.__class__ is Lin and len(l.t) == 1:
            (x, q), = l.t
            if q > 0:
                v = -(l.c // q)
                if x not in lo or v > lo[x]: lo[x] = v
            else:
                v = l.c // -q
                if x not in hi or v < hi[x]: hi[x] = v
    out = set()
    for l in cs:
        if l.__class__ is Lin and len(l.t) > 1:
            m = l.c
            for x, q in l.t:
                b = lo.get(x) if q > 0 else hi.get(x)
                if b is None: m = -1; break
                m += q * b
            if m >= 0: continue
        out.add(l)
    return out

def minimise(cs):
    # keep only the tightest constant for each linear part
    best = {}
    for l in cs:
        if l.__class__ is int: continue
        if l.t not in best or l.c < best[l.t]: best[l.t] = l.c
    return {Lin(c, t) for t, c in best.items()}

def fm(cs, x):
    pos = []; neg = []; rest = set()
    for l in cs:
        q = dict(l.t).get(x, 0)
        if q > 0: pos.append((q, l))
        elif q < 0: neg.append((-q, l))
        else: rest.add(l)
    if len(pos) * len(neg) > 4000: return None
    for p, a in pos:
        for n, b in neg:
            g = gcd(p, n)
            r = _norm_ge(ladd(lscale(a, n // g), lscale(b, p // g)))
            if r.__class__ is int:
                if r < 0: return {Lin(-1, ())}
            else: rest.add(r)
    return minimise(rest) if rest else rest

_inf = {}
def infeasible(cs):
    cs = frozenset(cs)
    r = _inf.get(cs)
    if r is None:
        r = _infeasible(cs)
        if len(_inf) > 200000: _inf.clear()
        _inf[cs] = r
    return r
def _infeasible(cs):
    cs = minimise(cs)
    # quick: pair contradiction
    d = {l.t: l.c for l in cs}
    for t, c in d.items():
        nt = tuple((x, -q) for x, q in t)
        if nt in d and c + d[nt] < 0: return True
    while True:
        cnt = {}
        for l in cs:
            if not l.t:
                if l.c < 0: return True
                continue
            for x, q in l.t:
                p = cnt.setdefault(x, [0, 0]); p[0 if q > 0 else 1] += 1
        if not cnt: return False
        x = min(cnt, key=lambda a: cnt[a][0] * cnt[a][1] - cnt[a][0] - cnt[a][1])
        cs = fm(cs, x)
        if cs is None: return False
        if len(cs) > 600: return False
        for l in cs:
            if not l.t and l.c < 0: return True

# ---------------------------------------------------------------- bit vectors
class BV:
    """bits: tuple, least significant first; each 0, 1, (atom, i) or ('~', atom, i)"""
    __slots__ = ("b", "_h")
    def __init__(self, b):
        self.b = b; self._h = hash(b) ^ 0x1234
    def __hash__(self): return self._h
    def __eq__(self, o): return o.__class__ is BV and self.b == o.b
    def __ne__(self, o): return not self.__eq__(o)
    def __repr__(self):
        return "bv[" + "".join("%d" % x if x.__class__ is int else "." for x in reversed(self.b)) + "]" + \
            "{%s}" % ",".join(sorted({repr(x[-2]) for x in self.b if x.__class__ is not int}))
    def lo(self): return sum(1 << i for i, x in enumerate(self.b) if x == 1)
    def hi(self): return sum(1 << i for i, x in enumerate(self.b) if x != 0)

def bv_atom(a, w): return BV(tuple((a, i) for i in range(w)))
def bv_make(bits):
    bits = tuple(bits)
    if all(x.__class__ is int for x in bits):
        return sum(x << i for i, x in enumerate(bits))
    return BV(bits)
def bv_bits(v, w):
    if v.__class__ is int: return tuple((v >> i) & 1 for i in range(w))
    b = v.b
    if len(b) < w: b = b + (0,) * (w - len(b))
    return b[:w]
def bneg(x):
    if x.__class__ is int: return 1 - x
    return x[1:] if x[0] == '~' and len(x) == 3 else ('~',) + x
def bv_subst(v, m):
    if v.__class__ is not BV: return v
    out = []; ch = False
    for x in v.b:
        if x.__class__ is int: out.append(x); continue
        if len(x) == 3:
            r = m.get(x[1:])
            if r is not None: x = 1 - r; ch = True
        else:
            r = m.get(x)
            if r is not None: x = r; ch = True
        out.append(x)
    return bv_make(out) if ch else v
