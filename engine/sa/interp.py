"""Abstract interpreter over the LLVM IR of a driver translation unit.

States are abstract (see dom.py); undecided comparisons split the state, loop
heads are joined by subsumption and widening (anti-unification of the two
states, keeping the constraints that hold in both), calls into the repository
are inlined, calls into the standard library go to contract models.  Nothing
is executed and no solver is involved: the numeric domain is a conjunction of
linear constraints decided by elimination."""
import os, sys, time
from .dom import *
from .ir import AnalysisBroken

sys.setrecursionlimit(10000)

# wall-clock budget of one check: what is not decided by then is reported as undecided
DEADLINE = time.time() + float(os.environ.get("SA_BUDGET", "600"))

class Throw:
    __slots__ = ("typ", "what")
    def __init__(self, typ, what=None): self.typ = typ; self.what = what
    def __repr__(self): return "Throw(%s)" % self.typ
class Call:
    __slots__ = ("fn", "args", "post")
    def __init__(self, fn, args, post=None): self.fn = fn; self.args = args; self.post = post
class Drop:
    """path abandoned (infeasible or already reported)"""
DROP = Drop()

class Undecided(Exception):
    def __init__(self, msg): self.msg = msg
class Violation(Exception):
    def __init__(self, rule, msg): self.rule = rule; self.msg = msg
class Split(Exception):
    """undecided scalar fact: carries list of (state) alternatives; the instruction is re-executed in each"""
    def __init__(self, states): self.states = states

class Frame:
    __slots__ = ("fn", "bb", "pc", "prev", "regs", "retid", "post", "va", "allocas", "mark")
    def __init__(self, fn, retid=None, post=None):
        self.fn = fn; self.bb = 0; self.pc = 0; self.prev = None; self.regs = {}; self.retid = retid; self.post = post; self.va = None; self.allocas = (); self.mark = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.bb = self.bb; f.pc = self.pc; f.prev = self.prev; f.regs = dict(self.regs)
        f.retid = self.retid; f.post = self.post; f.va = self.va; f.allocas = self.allocas; f.mark = self.mark
        return f

class State:
    __slots__ = ("frames", "mem", "objs", "models", "num", "tf", "bits", "mon", "trace", "exc", "caught", "ctr", "heads", "ghost", "wide", "visits")
    def __init__(self):
        self.frames = []; self.mem = {}; self.objs = {}; self.models = {}; self.num = Num(); self.tf = {}; self.bits = {}
        self.mon = {}; self.trace = None; self.exc = None; self.caught = (); self.ctr = 0; self.heads = (); self.ghost = {}; self.wide = False; self.visits = ()
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.objs = dict(self.objs); s.models = dict(self.models)
        s.num = self.num; s.tf = dict(self.tf); s.bits = dict(self.bits); s.mon = dict(self.mon); s.trace = self.trace
        s.exc = self.exc; s.caught = self.caught; s.ctr = self.ctr; s.heads = self.heads; s.ghost = dict(self.ghost); s.wide = self.wide; s.visits = self.visits
        return s
    def fresh(self, hint="v"):
        self.ctr += 1
        return T("%s#%d" % (hint, self.ctr))
    def new_obj(self, kind, size=None, **info):
        self.ctr += 1
        o = T("obj", kind, self.ctr)
        self.objs[o] = dict(kind=kind, size=size, **info)
        self.mem[o] = {}
        return o
    def note(self, text, loc=None):
        self.trace = (self.trace, (text, loc))
    def trace_list(self):
        out = []; t = self.trace
        while t: out.append(t[1]); t = t[0]
        return out[::-1]
    # ---- numeric assumptions
    def assume_ge(self, l):
        n = self.num.add(l) if l.__class__ is Lin else (self.num if l >= 0 else None)
        if n is None: return False
        self.num = n
        return True
    def assume_eq(self, l): return self.assume_ge(l) and self.assume_ge(lscale(l, -1))

def width(ty):
    if ty.__class__ is str and ty[0] == "i": return int(ty[1:])
    return 64
def tysize(ty):
    if ty.__class__ is str:
        if ty[0] == "i": return (int(ty[1:]) + 7) // 8
        if ty == "p": return 8
        if ty[0] == "f": return int(ty[1:]) // 8
        return 0
    return ty[1]
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def uns(v, w): return v & ((1 << w) - 1)

class Interp:
    def __init__(self, mod, models=None, opts=None):
        self.mod = mod
        self.models = models or {}
        self.opts = dict(max_states=200000, max_depth=60, widen_after=3, throw_opaque=False)
        if opts: self.opts.update(opts)
        self.violations = []; self.undecided = []; self.stats = dict(steps=0, paths=0, calls=0, forks=0, joins=0)
        self.analysed = set(); self.modelled = {}; self.loads = 0
        self.callhooks = []; self.enterhooks = []; self.retire = None
        self.head_states = {}
        self.typeids = {}
        self._modelcache = {}
        self.on_load = None; self.on_store = None; self.on_widen = None; self.on_head = None; self.on_rmw = None

    # ------------------------------------------------------------ reporting
    def loc(self, st):
        """innermost location inside the repository, and the call chain"""
        for f in reversed(st.frames):
            if f.bb < len(f.fn.blocks) and f.pc < len(f.fn.blocks[f.bb]):
                ins = f.fn.blocks[f.bb][min(f.pc, len(f.fn.blocks[f.bb]) - 1)]
                l = self.mod.loc(ins)
                if l and "/include/pluto/" in l[0] and l[1]:
                    return (l[0], l[1], f.fn.dem)
        for f in reversed(st.frames):
            if f.fn.file and "/include/pluto/" in f.fn.file: return (f.fn.file, f.fn.line, f.fn.dem)
        return (None, None, st.frames[-1].fn.dem if st.frames else None)
    def violate(self, st, rule, msg, **kw):
        l = self.loc(st)
        v = dict(rule=rule, msg=msg, file=l[0], line=l[1], function=l[2],
                 path=["%s%s" % (t, " (%s:%s)" % (os.path.basename(x[0]), x[1]) if x and x[0] else "") for t, x in st.trace_list()][-40:],
                 stack=[f.fn.dem for f in st.frames][-8:])
        v.update(kw)
        self.violations.append(v)
        # a definite violation decides the check: what is left only gets a little more time
        global DEADLINE
        DEADLINE = min(DEADLINE, time.time() + 60)
    def undec(self, st, msg):
        l = self.loc(st)
        self.undecided.append(dict(msg=msg, file=l[0], line=l[1], function=l[2], stack=[f.fn.dem for f in st.frames][-6:]))
        if os.environ.get("SA_DEBUG"): print("UNDECIDED", msg, l, [f.fn.dem[:100] for f in st.frames][-5:])

    # ------------------------------------------------------------ operands
    def val(self, st, fr, o):
        if o.__class__ is int:
            v = fr.regs.get(o, UNDEF)
            if v.__class__ is BV and st.bits: v = bv_subst(v, st.bits)
            return v
        return self.const(st, o)
    def const(self, st, o):
        k = o[0]
        if k == "i": return int(o[2])
        if k == "null": return NULL
        if k == "g":
            n = self.mod.resolve(o[1])
            return Ptr(("g", n), 0)
        if k == "undef": return UNDEF
        if k == "zero": return self.zero(o[1])
        if k == "agg": return Agg(self.const(st, x) for x in o[2])
        if k == "gep":
            b = self.const(st, o[1]); return Ptr(b.o, ladd(b.off, o[2]))
        if k == "cast":
            v = self.const(st, o[3])
            if o[1] == "ptrtoint": return self.p2i(v)
            return v
        if k == "f": return T("fp", o[1])
        if k == "ce":
            a = [self.const(st, x) for x in o[3]]
            if o[1] in ("sub", "add"): return ladd(a[0], a[1], 1 if o[1] == "add" else -1)
        raise Undecided("constant %r" % (o,))
    def zero(self, ty):
        if ty.__class__ is str: return NULL if ty == "p" else (T("fp", "0") if ty[0] == "f" else 0)
        if ty[0] == "s": return Agg(self.zero(x[1]) for x in ty[2])
        return Agg(self.zero(ty[3]) for _ in range(ty[2]))
    def p2i(self, v):
        if v.__class__ is Ptr:
            if v.o is None: return v.off
            return ladd(atom(T("addr", v.o)), v.off)
        return v
    def i2p(self, v):
        if v.__class__ is Ptr: return v
        if v.__class__ is int: return NULL if v == 0 else Ptr(None, v)
        if v.__class__ is Lin:
            ad = [x for x, q in v.t if x.__class__ is T and x.op == "addr" and q == 1]
            if len(ad) == 1: return Ptr(ad[0].args[0], lsub(v, atom(ad[0])))
        return T("i2p", v)

    # ------------------------------------------------------------ memory
    def gobj(self, st, o):
        """materialise a global"""
        if o in st.objs: return
        name = o[1]
        g = self.mod.globals.get(name)
        if g is None:
            st.objs[o] = dict(kind="fn", size=0); st.mem[o] = {}; return
        st.objs[o] = dict(kind="global", size=g["size"], const=g["const"], name=g["dem"])
        m = {}
        for off, sz, c in g.get("init", ()):
            if c[0] == "zfill": m[("z", off)] = (sz, None)
            else:
                try: m[off] = (sz, self.const(st, c))
                except Undecided: pass
        st.mem[o] = m
    def load(self, st, p, size, ty):
        self.loads += 1
        if p.__class__ is not Ptr: raise Undecided("load through %r" % (p,))
        if p.o is None:
            raise Violation("null-dereference", "load through a null pointer")
        if p.o.__class__ is tuple:
            if p.o[1] == "__libc_single_threaded": return 1   # reference counts of private objects: the plain path
            self.gobj(st, p.o)
        info = st.objs.get(p.o)
        if info is None: raise Undecided("load from unknown object %r" % (p.o,))
        if info.get("dead"): raise Violation("use-after-lifetime", "read of %s after its lifetime ended" % (info.get("name") or info["kind"]))
        if self.on_load:
            r = self.on_load(self, st, p, size, ty)
            if r is not None: return r
        if info["kind"] == "array": return self.array_load(st, p, size, ty, info)
        if ty.__class__ is not str:
            if ty[0] == "s": return Agg(self.load(st, Ptr(p.o, ladd(p.off, e[0])), tysize(e[1]), e[1]) for e in ty[2])
            es = tysize(ty[3]); return Agg(self.load(st, Ptr(p.o, ladd(p.off, i * es)), es, ty[3]) for i in range(ty[2]))
        m = st.mem[p.o]
        if p.off.__class__ is not int:
            r = self.sym_load(st, p, size, ty, info, m)
            if r is not None: return r
            raise Undecided("load at symbolic offset %r of %s" % (p.off, info["kind"]))
        if info.get("size") is not None and (p.off < 0 or p.off + size > info["size"]):
            raise Violation("out-of-bounds", "read of %d bytes at offset %d of an object of %d bytes" % (size, p.off, info["size"]))
        e = m.get(p.off)
        if e is not None and e[0] == size:
            return self.coerce(bv_subst(e[1], st.bits), size, ty)
        # parts
        for k, e in m.items():
            if k.__class__ is tuple: continue
            if k.__class__ is int and k <= p.off and p.off + size <= k + e[0] and e[1].__class__ in (int, BV):
                b = bv_bits(e[1], e[0] * 8)
                return bv_make(b[(p.off - k) * 8:(p.off - k + size) * 8])
        parts = []
        off = p.off
        while off < p.off + size:
            e = m.get(off)
            if e is None or e[1].__class__ not in (int, BV): break
            parts.append((e[0], e[1])); off += e[0]
        if parts and off == p.off + size:
            bits = ()
            for s, v in parts: bits += bv_bits(v, s * 8)
            return bv_make(bits)
        for k, e in m.items():
            if k.__class__ is tuple and k[0] == "z" and k[1] <= p.off and p.off + size <= k[1] + e[0]:
                if not any(kk.__class__ is int and kk < p.off + size and p.off < kk + ee[0] for kk, ee in m.items() if kk.__class__ is int):
                    return NULL if ty == "p" else (T("fp", "0") if ty[0] == "f" else 0)
        if info.get("lazy"):
            v = self.lazy(st, p, size, ty, info)
            self.put(st, p.o, p.off, size, v)
            return v
        return UNDEF
    def coerce(self, v, size, ty):
        if ty == "p":
            if v.__class__ is int: return NULL if v == 0 else Ptr(None, v)
            if v.__class__ is Lin: return self.i2p(v)
        elif ty[0] == "i":
            if v.__class__ is Ptr: return self.p2i(v)
            w = int(ty[1:])
            if v.__class__ is int and w < size * 8: return v & ((1 << w) - 1)
        return v
    def sym_load(self, st, p, size, ty, info, m):
        """lookup in a constant table at a symbolic position"""
        return None
    def lazy(self, st, p, size, ty, info):
        nm = T("in", info.get("name") or p.o, p.off)
        if ty == "p":
            o = T("obj", "deref", nm)
            if o not in st.objs:
                st.objs[o] = dict(kind="lazy", size=None, lazy=True, name=T("deref", nm)); st.mem[o] = {}
            return Ptr(o, 0)
        if ty[0] == "f": return nm
        a = atom(nm)
        st.assume_ge(a); st.assume_ge(lsub((1 << (8 * size)) - 1, a))
        return a
    def array_load(self, st, p, size, ty, info):
        es = info["es"]
        idx = self.div_exact(p.off, es)
        if idx is None or size != es: raise Undecided("unaligned read of an input array")
        n = info["len"]; extra = info.get("nul", 0)
        self.bounds(st, idx, ladd(n, extra), info, "read")
        if extra and not st.num.entails(lsub(lsub(n, 1), idx)):
            # may be the terminator
            d = lsub(idx, n)
            if st.num.entails_eq(d): return 0
            a = st.copy(); b = st.copy(); alts = []
            if a.assume_eq(d): alts.append(a)
            if b.assume_ge(lsub(lsub(n, 1), idx)): alts.append(b)
            raise Split(alts)
        return info["elem"](self, st, p.o, idx, ty, info)
    def bounds(self, st, idx, n, info, what):
        if not st.num.entails(idx) if idx.__class__ is Lin else idx < 0:
            if st.wide: raise Undecided("%s of %s at index %r: not proved >= 0" % (what, info.get("name"), idx))
            raise Violation("out-of-bounds", "%s of %s at index %r: not proved >= 0" % (what, info.get("name"), idx))
        if not st.num.entails(lsub(lsub(n, 1), idx)):
            if st.wide: raise Undecided("%s of %s at index %r: not proved < %r" % (what, info.get("name"), idx, n))
            raise Violation("out-of-bounds", "%s of %s at index %r: not proved < %r" % (what, info.get("name"), idx, n))
    def div_exact(self, v, k):
        if k == 1: return v
        if v.__class__ is int: return v // k if v % k == 0 else None
        if v.__class__ is Lin and v.c % k == 0 and all(q % k == 0 for _, q in v.t):
            return Lin(v.c // k, tuple((x, q // k) for x, q in v.t))
        return None
    def store(self, st, p, size, v, vty=None):
        if p.__class__ is not Ptr: raise Undecided("store through %r" % (p,))
        if p.o is None: raise Violation("null-dereference", "store through a null pointer")
        if p.o.__class__ is tuple: self.gobj(st, p.o)
        info = st.objs.get(p.o)
        if info is None: raise Undecided("store to unknown object")
        if info.get("dead"): raise Violation("use-after-lifetime", "write to %s after its lifetime ended" % (info.get("name") or info["kind"]))
        if self.on_store and self.on_store(self, st, p, size, v): return
        if v.__class__ is Agg:
            if vty[0] == "s":
                for e, x in zip(vty[2], v): self.store(st, Ptr(p.o, ladd(p.off, e[0])), tysize(e[1]), x, e[1])
            else:
                es = tysize(vty[3])
                for i, x in enumerate(v): self.store(st, Ptr(p.o, ladd(p.off, i * es)), es, x, vty[3])
            return
        if p.off.__class__ is not int: raise Undecided("store at symbolic offset")
        if info.get("size") is not None and (p.off < 0 or p.off + size > info["size"]):
            raise Violation("out-of-bounds", "write of %d bytes at offset %d of an object of %d bytes" % (size, p.off, info["size"]))
        self.put(st, p.o, p.off, size, v)
    def put(self, st, o, off, size, v):
        m = dict(st.mem[o]); st.mem[o] = m
        e = m.get(off)
        if e is None or e[0] != size:
            for k in [k for k, x in m.items() if k.__class__ is int and k < off + size and off < k + x[0]]: del m[k]
        m[off] = (size, v)
        # keep zero fill under explicit values consistent: explicit values win in load
    def erase_range(self, st, o, off, size):
        m = dict(st.mem[o]); st.mem[o] = m
        for k in [k for k, x in m.items() if k.__class__ is int and k < off + size and off < k + x[0]]: del m[k]
        for k in [k for k, x in m.items() if k.__class__ is tuple and k[0] == "z" and k[1] < off + size and off < k[1] + x[0]]:
            sz = m.pop(k)[0]
            if k[1] < off: m[("z", k[1])] = (off - k[1], None)
            if k[1] + sz > off + size: m[("z", off + size)] = (k[1] + sz - off - size, None)
    def copy_mem(self, st, d, s, size):
        """memcpy / move of raw bytes and model objects"""
        if s.o.__class__ is tuple: self.gobj(st, s.o)
        if s.off.__class__ is not int or d.off.__class__ is not int or size.__class__ is not int: raise Undecided("symbolic memcpy")
        if st.objs[s.o].get("dead"): raise Violation("use-after-lifetime", "copy from an object after its lifetime ended")
        items = [(k, x) for k, x in st.mem[s.o].items() if k.__class__ is int and s.off <= k and k + x[0] <= s.off + size]
        zs = [(k, x) for k, x in st.mem[s.o].items() if k.__class__ is tuple and k[1] < s.off + size and s.off < k[1] + x[0]]
        lazy = st.objs[s.o].get("lazy")
        self.erase_range(st, d.o, d.off, size)
        m = dict(st.mem[d.o]); st.mem[d.o] = m
        for k, x in zs:
            a = max(k[1], s.off); b = min(k[1] + x[0], s.off + size)
            m[("z", a - s.off + d.off)] = (b - a, None)
        for k, x in items: m[k - s.off + d.off] = x
        if lazy and not items:
            if size in (1, 2, 4, 8):
                v = self.load(st, s, size, "i%d" % (size * 8)); self.put(st, d.o, d.off, size, v)
            else: m[("copyof", d.off)] = (size, s)
        for (o, off) in [k for k in st.models if k[0] == s.o and k[1].__class__ is int and s.off <= k[1] < s.off + size]:
            st.models[(d.o, off - s.off + d.off)] = st.models[(o, off)]

    # ------------------------------------------------------------ numbers
    def num_norm(self, st, v, w, signed):
        """unique representative in the (un)signed range of width w; may Split"""
        if v.__class__ is int: return sgn(uns(v, w), w) if signed else uns(v, w)
        if w == 64 and self.opts.get("nowrap") and (signed or st.num.entails(v)): return v
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if st.num.entails(ladd(v, -lo)) and st.num.entails(lsub(hi, v)): return v
        alts = []
        for k in (0, 1, -1):
            u = ladd(v, -k * (1 << w))
            s = st.copy()
            if s.assume_ge(ladd(u, -lo)) and s.assume_ge(lsub(hi, u)):
                alts.append((s, u))
        if not alts: raise Undecided("value out of range")
        if len(alts) == 1:
            # the range facts are entailed (or assumed: no other wrap feasible)
            st.num = alts[0][0].num
            return alts[0][1]
        raise Split([s for s, _ in alts])
    def aslin(self, v):
        if v.__class__ in (int, Lin): return v
        if v.__class__ is Ptr: return self.p2i(v)
        if v.__class__ is T and v is not UNDEF: return atom(v)
        if v.__class__ is BV: return atom(T("bv", v))
        raise Undecided("number expected, got %r" % (v,))
    def split_ge(self, st, l, text=None):
        """decide l >= 0, splitting if open"""
        if l.__class__ is int: return l >= 0
        if st.num.entails(l): return True
        neg = ladd(lscale(l, -1), -1)
        if st.num.entails(neg): return False
        a = st.copy(); b = st.copy()
        alts = []
        if a.assume_ge(l): alts.append(a)
        if b.assume_ge(neg): alts.append(b)
        raise Split(alts)
    def cmp(self, st, pred, a, b, w):
        if a is UNDEF or b is UNDEF: raise Undecided("comparison with an undefined value")
        if a.__class__ is Ptr or b.__class__ is Ptr:
            return self.cmp_ptr(st, pred, a, b)
        if a.__class__ is int and b.__class__ is int: return self.cmp_int(pred, uns(a, w), uns(b, w), w)
        if a.__class__ is BV or b.__class__ is BV:
            if a.__class__ in (int, BV) and b.__class__ in (int, BV):
                return self.cmp_bv(st, pred, a, b, w)
        if a.__class__ is T or b.__class__ is T:
            r = self.cmp_term(st, pred, a, b, w)
            if r is not None: return r
        a = self.aslin(a); b = self.aslin(b)
        if pred in ("eq", "ne"):
            d = lsub(a, b)
            if d.__class__ is int: r = uns(d, w) == 0
            elif st.num.entails_eq(d): r = True
            else:
                m = 1 << w
                if (st.num.entails(ladd(d, -1)) and st.num.entails(lsub(m - 1, d))) or (st.num.entails(ladd(lscale(d, -1), -1)) and st.num.entails(ladd(d, m - 1))): r = False
                else:
                    # bring both into the same range, then three-way split
                    try_s = None
                    for s in (False, True):
                        if self.inrange(st, a, w, s) and self.inrange(st, b, w, s): try_s = s; break
                    if try_s is None:
                        a2 = self.num_norm(st, a, w, False); b2 = self.num_norm(st, b, w, False); d = lsub(a2, b2)
                    if st.num.entails_eq(d): r = True
                    elif st.num.entails(ladd(d, -1)) or st.num.entails(ladd(lscale(d, -1), -1)): r = False
                    else:
                        alts = []
                        for f in (lambda s: s.assume_eq(d), lambda s: s.assume_ge(ladd(d, -1)), lambda s: s.assume_ge(ladd(lscale(d, -1), -1))):
                            s = st.copy()
                            if f(s): alts.append(s)
                        raise Split(alts)
            return int(r) if pred == "eq" else int(not r)
        signed = pred[0] == "s"
        a = self.num_norm(st, a, w, signed); b = self.num_norm(st, b, w, signed)
        p = pred[1:]
        if p == "lt": l = ladd(lsub(b, a), -1)
        elif p == "le": l = lsub(b, a)
        elif p == "gt": l = ladd(lsub(a, b), -1)
        else: l = lsub(a, b)
        return int(self.split_ge(st, l))
    def inrange(self, st, v, w, signed):
        if w == 64 and self.opts.get("nowrap") and signed: return True
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if v.__class__ is int: return lo <= v <= hi
        return st.num.entails(ladd(v, -lo)) and st.num.entails(lsub(hi, v))
    def cmp_term(self, st, pred, a, b, w):
        """comparison involving an opaque term; subclasses refine"""
        return None
    def cmp_int(self, pred, a, b, w):
        if pred == "eq": return int(a == b)
        if pred == "ne": return int(a != b)
        if pred[0] == "s": a = sgn(a, w); b = sgn(b, w)
        p = pred[1:]
        return int(a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
    def cmp_ptr(self, st, pred, a, b):
        if a.__class__ is not Ptr or b.__class__ is not Ptr:
            r = self.cmp_term(st, pred, a, b, 64)
            if r is not None: return r
            raise Undecided("comparison of pointers %r and %r" % (a, b))
        if a.o == b.o:
            d = lsub(a.off, b.off)
            if pred in ("eq", "ne"):
                if d.__class__ is int: r = d == 0
                elif st.num.entails_eq(d): r = True
                elif st.num.entails(ladd(d, -1)) or st.num.entails(ladd(lscale(d, -1), -1)): r = False
                else:
                    alts = []
                    for f in (lambda s: s.assume_eq(d), lambda s: s.assume_ge(ladd(d, -1)), lambda s: s.assume_ge(ladd(lscale(d, -1), -1))):
                        s = st.copy()
                        if f(s): alts.append(s)
                    raise Split(alts)
                return int(r) if pred == "eq" else int(not r)
            p = pred[1:]
            l = {"lt": ladd(lscale(d, -1), -1), "le": lscale(d, -1), "gt": ladd(d, -1), "ge": d}[p]
            return int(self.split_ge(st, l))
        if pred == "eq": return 0
        if pred == "ne": return 1
        raise Undecided("ordering of pointers into different objects")
    # ---- bit vectors
    def cmp_bv(self, st, pred, a, b, w):
        A = bv_bits(a, w); B = bv_bits(b, w)
        if pred in ("eq", "ne"):
            if A == B: return int(pred == "eq")
            diff = []
            for x, y in zip(A, B):
                if x == y: continue
                if x.__class__ is int and y.__class__ is int or x == bneg(y): return int(pred == "ne")
                diff.append((x, y))
            if len(diff) == 1 and (diff[0][0].__class__ is int or diff[0][1].__class__ is int):
                x, y = diff[0]
                if x.__class__ is not int: x, y = y, x
                # equal iff y == x
                bit = y if x == 1 else bneg(y)
                return bv_make(((bit if pred == "eq" else bneg(bit)),))
            self.split_bit(st, diff[-1][0] if diff[-1][0].__class__ is not int else diff[-1][1])
        if pred[0] == "s":
            # flip sign bits and compare unsigned
            A = A[:-1] + (bneg(A[-1]),); B = B[:-1] + (bneg(B[-1]),); pred = "u" + pred[1:]
        for i in range(w - 1, -1, -1):
            x, y = A[i], B[i]
            if x == y: continue
            if x.__class__ is int and y.__class__ is int or x == bneg(y):
                if x.__class__ is int and y.__class__ is int:
                    lt = x < y
                    return int({"ult": lt, "ule": lt, "ugt": not lt, "uge": not lt}[pred])
            # can the comparison be decided on the remaining intervals?
            la = sum(1 << k for k in range(i + 1) if A[k] == 1); ha = sum(1 << k for k in range(i + 1) if A[k] != 0)
            lb = sum(1 << k for k in range(i + 1) if B[k] == 1); hb = sum(1 << k for k in range(i + 1) if B[k] != 0)
            if ha < lb: return int(pred in ("ult", "ule"))
            if la > hb: return int(pred in ("ugt", "uge"))
            if pred in ("ule", "ugt") and ha <= lb: return int(pred == "ule")
            if pred in ("uge", "ult") and la >= hb: return int(pred == "uge")
            self.split_bit(st, x if x.__class__ is not int else y)
        return int(pred in ("ule", "uge"))
    def split_bit(self, st, bit):
        key = bit[1:] if len(bit) == 3 else bit
        alts = []
        for v in (0, 1):
            s = st.copy(); s.bits[key] = v; alts.append(s)
        self.stats["forks"] += 1
        raise Split(alts)
    def binop_bv(self, st, op, a, b, w, x):
        A = bv_bits(a, w); B = bv_bits(b, w)
        if op == "and":
            out = []
            for p, q in zip(A, B):
                if p == 0 or q == 0: out.append(0)
                elif p == 1: out.append(q)
                elif q == 1 or p == q: out.append(p)
                elif p == bneg(q): out.append(0)
                else: self.split_bit(st, p)
            return bv_make(out)
        if op == "or":
            out = []
            for p, q in zip(A, B):
                if p == 1 or q == 1: out.append(1)
                elif p == 0: out.append(q)
                elif q == 0 or p == q: out.append(p)
                elif p == bneg(q): out.append(1)
                else: self.split_bit(st, p)
            return bv_make(out)
        if op == "xor":
            out = []
            for p, q in zip(A, B):
                if p == 0: out.append(q)
                elif q == 0: out.append(p)
                elif p == 1: out.append(bneg(q))
                elif q == 1: out.append(bneg(p))
                elif p == q: out.append(0)
                elif p == bneg(q): out.append(1)
                else: self.split_bit(st, p)
            return bv_make(out)
        if op in ("shl", "lshr", "ashr"):
            if b.__class__ is not int:
                for q in B:
                    if q.__class__ is not int: self.split_bit(st, q)
                b = sum(q << i for i, q in enumerate(B))
            if b >= w: raise Violation("shift-width", "shift by %d of a %d-bit value" % (b, w))
            if op == "shl": return bv_make((0,) * b + A[:w - b])
            return bv_make(A[b:] + ((A[-1] if op == "ashr" else 0),) * b)
        if op in ("add", "sub"):
            c = 0 if op == "add" else 1
            if op == "sub": B = tuple(bneg(q) for q in B)
            out = []
            for p, q in zip(A, B):
                vals = [v for v in (p, q, c) if v.__class__ is not int]
                k = sum(v for v in (p, q, c) if v.__class__ is int)
                if not vals: out.append(k & 1); c = k >> 1; continue
                if len(vals) == 1:
                    v = vals[0]
                    if k == 0: out.append(v); c = 0; continue
                    if k == 2: out.append(v); c = 1; continue
                    if k == 1: out.append(bneg(v)); c = v; continue
                if len(vals) == 2 and vals[0] == vals[1]:
                    out.append(k); c = vals[0]; continue
                if len(vals) == 2 and vals[0] == bneg(vals[1]):
                    # sum 1 + k
                    out.append((1 + k) & 1); c = (1 + k) >> 1; continue
                self.split_bit(st, vals[0])
            return bv_make(out)
        if op in ("mul", "udiv", "urem") and b.__class__ is int:
            if b and b & (b - 1) == 0:
                s = b.bit_length() - 1
                if op == "mul": return self.binop_bv(st, "shl", a, s, w, x)
                if op == "udiv": return self.binop_bv(st, "lshr", a, s, w, x)
                return self.binop_bv(st, "and", a, b - 1, w, x)
        if op == "mul" and a.__class__ is int: return self.binop_bv(st, op, b, a, w, x)
        if op in ("sdiv", "srem") and b.__class__ is int:
            if A[-1] == 0: return self.binop_bv(st, "u" + op[1:], a, b, w, x)
            if A[-1] != 1: self.split_bit(st, A[-1])
        # enumerate: split the highest undetermined bit
        for q in reversed(A + B):
            if q.__class__ is not int: self.split_bit(st, q)
        raise Undecided("bit operation %s" % op)
    def binop(self, st, op, a, b, w, x):
        if a is UNDEF or b is UNDEF: return UNDEF
        if a.__class__ is int and b.__class__ is int:
            return self.binop_int(op, a, b, w, x)
        if (a.__class__ is BV or b.__class__ is BV) and a.__class__ in (int, BV) and b.__class__ in (int, BV):
            return self.binop_bv(st, op, a, b, w, x)
        if op == "sub" and a == b: return 0
        if op[0] == "f" : return T(op, a, b)
        if a.__class__ in (T,) or b.__class__ in (T,):
            r = self.binop_term(st, op, a, b, w)
            if r is not None: return r
        a = self.aslin(a); b = self.aslin(b)
        if op == "add": return ladd(a, sgn(b, w) if b.__class__ is int else b)
        if op == "sub": return ladd(a, sgn(b, w) if b.__class__ is int else b, -1)
        if op == "mul":
            if b.__class__ is int: return lscale(a, sgn(b, w))
            if a.__class__ is int: return lscale(b, sgn(a, w))
        if op == "shl" and b.__class__ is int: return lscale(a, 1 << b)
        if op == "and" and b.__class__ is int and (b & (b + 1)) == 0:
            op = "urem"; b = b + 1
        if op == "lshr" and b.__class__ is int: op = "udiv"; b = 1 << b
        if op == "ashr" and b.__class__ is int:
            # floor division
            a = self.num_norm(st, a, w, True); return self.divmod(st, a, 1 << b)[0]
        if op in ("udiv", "urem") and b.__class__ is int and b:
            a = self.num_norm(st, a, w, False); q, r = self.divmod(st, a, b); return q if op == "udiv" else r
        if op in ("sdiv", "srem") and b.__class__ is int and b:
            e = self.div_exact(a, sgn(b, w))
            if e is not None and x.get("exact", True) and op == "sdiv" and self.inrange(st, a, w, True): return e
            a = self.num_norm(st, a, w, True)
            if self.split_ge(st, a):
                q, r = self.divmod(st, a, abs(sgn(b, w)))
                if sgn(b, w) < 0: q = lscale(q, -1)
                return q if op == "sdiv" else r
            q, r = self.divmod(st, lscale(a, -1), abs(sgn(b, w)))
            q = lscale(q, -1 if sgn(b, w) > 0 else 1); r = lscale(r, -1)
            return q if op == "sdiv" else r
        return atom(T(op, a, b))
    def binop_term(self, st, op, a, b, w): return None
    def divmod(self, st, a, k):
        if a.__class__ is int: return divmod(a, k)
        if k == 1: return a, 0
        e = self.div_exact(a, k)
        if e is not None: return e, 0
        x, kk = a, k
        if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].__class__ is T and x.t[0][0].op == "div":
            x, kk = x.t[0][0].args[0], x.t[0][0].args[1] * k
        q = atom(T("div", x, kk)); r = lsub(a, lscale(q, k))
        if not (st.num.entails(r) and st.num.entails(lsub(k - 1, r))):
            if not (st.assume_ge(r) and st.assume_ge(lsub(k - 1, r))): raise Undecided("division")
        return q, r
    def binop_int(self, op, a, b, w, x):
        a = uns(a, w); b = uns(b, w)
        if op == "add": return uns(a + b, w)
        if op == "sub": return uns(a - b, w)
        if op == "mul": return uns(a * b, w)
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op in ("shl", "lshr", "ashr"):
            if b >= w: raise Violation("shift-width", "shift by %d of a %d-bit value" % (b, w))
            if op == "shl": return uns(a << b, w)
            if op == "lshr": return a >> b
            return uns(sgn(a, w) >> b, w)
        if b == 0: raise Violation("division-by-zero", "division by zero")
        if op == "udiv": return a // b
        if op == "urem": return a % b
        sa, sb = sgn(a, w), sgn(b, w)
        q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
        if op == "sdiv": return uns(q, w)
        if op == "srem": return uns(sa - q * sb, w)
        raise Undecided("operation " + op)
    def cast(self, st, op, v, fw, tw):
        if v is UNDEF: return UNDEF
        if op in ("bitcast", "addrspacecast", "freeze"): return v
        if op == "ptrtoint": return self.p2i(v)
        if op == "inttoptr": return self.i2p(v)
        if op == "zext":
            if v.__class__ is int: return v
            if v.__class__ is BV: return bv_make(bv_bits(v, fw) + (0,) * (tw - fw))
            if v.__class__ is T: return T("zext", v, tw)
            return self.num_norm(st, v, fw, False)
        if op == "sext":
            if v.__class__ is int: return uns(sgn(v, fw), tw)
            if v.__class__ is BV: b = bv_bits(v, fw); return bv_make(b + (b[-1],) * (tw - fw))
            if v.__class__ is T: return T("sext", v, tw)
            return self.num_norm(st, v, fw, True)
        if op == "trunc":
            if v.__class__ is int: return uns(v, tw)
            if v.__class__ is BV: return bv_make(bv_bits(v, tw))
            if v.__class__ is T:
                if v.op in ("zext", "sext"): return self.trunc_ext(v, tw)
                if tw == 1: return self.term_bool(st, v)
                return T("trunc", v, tw)
            if tw == 1:
                # boolean in memory
                if v.__class__ is Lin and self.split_ge(st, ladd(v, -1)):
                    return 1
                return 0
            if self.inrange(st, v, tw, False) or self.inrange(st, v, tw, True): return v
            return v  # congruent modulo 2**tw
        return T(op, v)
    def trunc_ext(self, v, tw):
        return v.args[0] if True else v
    def term_bool(self, st, v):
        r = st.tf.get(v)
        if r is None:
            alts = []
            for k in (0, 1):
                s = st.copy(); s.tf[v] = k; alts.append(s)
            raise Split(alts)
        return r
    def truth(self, st, v, what=None):
        """decide a 1-bit value"""
        if v.__class__ is int: return v & 1
        if v is UNDEF: raise Violation("uninitialised", "branch on an uninitialised value")
        if v.__class__ is BV: self.split_bit(st, v.b[0])
        if v.__class__ is T: return self.term_bool(st, v)
        if v.__class__ is Lin: return 1 if self.split_ge(st, ladd(v, -1)) else 0
        raise Undecided("condition %r" % (v,))

    # ------------------------------------------------------------ driver loop
    def run(self, fn, args, st, **kw):
        """explore fn(args) from st; returns list of (kind, state, value)"""
        if fn.__class__ is str: fn = self.mod.entry(fn)
        st.frames = []
        self.push(st, fn, args)
        work = [st]; outs = []; n = 0
        later = []   # states that went through a generalised loop head: after all exact ones
        self.head_states = {}
        while work or later:
            s = work.pop() if work else later.pop()
            if s.wide and work:
                later.append(s); continue
            while True:
                n += 1
                if n > self.opts["max_states"] * 20 or (n & 63) == 0 and (time.time() > DEADLINE or len(self.undecided) > 3000):
                    self.undec(s, "analysis budget exhausted"); return outs
                try:
                    r = self.step(s)
                except Split as e:
                    self.stats["forks"] += 1
                    alts = e.states
                    if not alts: break
                    work.extend(alts[1:]); s = alts[0]
                    continue
                except Violation as e:
                    if s.wide and e.rule in self.opts.get("exact", ()): self.undec(s, "after a loop was generalised: " + e.msg)
                    else: self.violate(s, e.rule, e.msg)
                    break
                except Undecided as e:
                    self.undec(s, e.msg); break
                except (TypeError, KeyError, AttributeError, IndexError, ValueError, AssertionError, RecursionError) as e:
                    if os.environ.get("SA_DEBUG"): raise
                    self.undec(s, "outside the modelled fragment (%s: %s)" % (e.__class__.__name__, str(e)[:120])); break
                if r is None:
                    continue
                if r is DROP: break
                if r.__class__ is tuple:
                    self.stats["paths"] += 1
                    outs.append(r); break
                # list of states and finished outcomes
                rest = []
                for q in r:
                    if q.__class__ is tuple:
                        self.stats["paths"] += 1; outs.append(q)
                    elif q is not DROP: rest.append(q)
                if not rest: break
                work.extend(rest[1:]); s = rest[0]
                if s.wide and work and not any(q.wide for q in work[-1:]):
                    later.append(s); break
                if len(work) > self.opts["max_states"]:
                    self.undec(s, "too many abstract states"); return outs
        self.stats["steps"] += n
        return outs

    def push(self, st, fn, args, retid=None, post=None, va=None):
        if fn.decl: raise Undecided("call of function without a body: " + fn.dem)
        if len(st.frames) >= self.opts["max_depth"]: raise Undecided("call depth exceeded at " + fn.dem)
        f = Frame(fn, retid, post)
        for i, a in enumerate(args[:fn.nargs]): f.regs[i] = a
        f.va = va
        st.frames.append(f)
        self.analysed.add(fn.name); self.stats["calls"] += 1
        for h in self.enterhooks: h(self, st, fn, args)

    def goto(self, st, fr, b):
        prev = fr.bb
        fr.prev = prev
        blk = fr.fn.blocks[b]
        # phis evaluated simultaneously
        if blk[0].op == "phi":
            vals = []
            for ins in blk:
                if ins.op != "phi": break
                for pb, o in ins.x["in"]:
                    if pb == prev: vals.append((ins.id, self.val(st, fr, o))); break
            for i, v in vals: fr.regs[i] = v
            fr.pc = len(vals)
        else: fr.pc = 0
        fr.bb = b
        if b in fr.fn.loop_heads():
            return self.at_head(st, fr, b)

    # ------------------------------------------------------------ loop heads
    def at_head(self, st, fr, b):
        from . import widen
        if self.on_head: self.on_head(self, st)
        if self.opts.get("slots"):
            for i, f in enumerate(st.frames):
                for a in f.fn.dead_slots(f.bb, f.pc, i < len(st.frames) - 1):
                    p = f.regs.get(a)
                    if p.__class__ is Ptr and p.o in st.mem and st.objs[p.o]["kind"] == "stack":
                        if st.mem[p.o]: st.mem[p.o] = {}
                        self.drop_models(st, p.o)
        ctx = tuple((f.fn.name, f.bb, f.pc) for f in st.frames)
        if self.opts.get("arrgep") and fr.fn.norm == "std::__advance":
            # a constant number of steps: unrolled
            ctx += tuple(r for r in fr.regs.values() if r.__class__ is int)
        lst = self.head_states.setdefault(ctx, [])
        r = widen.join(self, st, lst, self.opts["widen_after"])
        if r is None:
            self.stats["joins"] += 1
            return DROP
        return None if r is st else [r]

    # ------------------------------------------------------------ one step
    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.bb][fr.pc]
        op = ins.op; x = ins.x
        m = getattr(self, "op_" + op, None)
        if m: return m(st, fr, ins, x)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            a = self.val(st, fr, x["ops"][0]); b = self.val(st, fr, x["ops"][1])
            fr.regs[ins.id] = self.binop(st, op, a, b, width(ins.ty), x); fr.pc += 1; return
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            fr.regs[ins.id] = self.cast(st, op, self.val(st, fr, x["ops"][0]), width(x["oty"]), width(ins.ty)); fr.pc += 1; return
        raise Undecided("instruction " + op)
    def op_freeze(self, st, fr, ins, x):
        fr.regs[ins.id] = self.val(st, fr, x["ops"][0]); fr.pc += 1
    def op_fneg(self, st, fr, ins, x):
        fr.regs[ins.id] = T("fneg", self.val(st, fr, x["ops"][0])); fr.pc += 1
    def op_fcmp(self, st, fr, ins, x):
        a, b = (self.val(st, fr, o) for o in x["ops"])
        fr.regs[ins.id] = self.term_bool(st, T("fcmp", x["pred"], a, b)); fr.pc += 1
    def op_alloca(self, st, fr, ins, x):
        n = self.val(st, fr, x["n"])
        o = st.new_obj("stack", x["size"] * n if n.__class__ is int else None, name=x.get("name") or "tmp")
        fr.allocas = fr.allocas + (o,)
        fr.regs[ins.id] = Ptr(o, 0); fr.pc += 1
    def op_load(self, st, fr, ins, x):
        p = self.val(st, fr, x["ops"][0])
        fr.regs[ins.id] = self.load(st, p, x["size"], ins.ty); fr.pc += 1
    def op_store(self, st, fr, ins, x):
        v = self.val(st, fr, x["ops"][0]); p = self.val(st, fr, x["ops"][1])
        self.store(st, p, x["size"], v, x["vty"]); fr.pc += 1
    def op_atomicrmw(self, st, fr, ins, x):
        p, v = (self.val(st, fr, o) for o in x["ops"]); sub = x["sub"]
        if self.on_rmw:
            r = self.on_rmw(self, st, p, sub, v)
            if r is not None: fr.regs[ins.id] = r; fr.pc += 1; return
        old = self.load(st, p, x["size"], ins.ty); w = width(ins.ty)
        if sub == "xchg": new = v
        elif sub in ("add", "sub", "and", "or", "xor"): new = self.binop(st, sub, old, v, w, {})
        elif sub in ("max", "min", "umax", "umin"):
            lt = self.truth(st, self.cmp(st, ("u" if sub[0] == "u" else "s") + "lt", old, v, w))
            new = (v if lt else old) if sub.endswith("max") else (old if lt else v)
        else: raise Undecided("instruction atomicrmw " + sub)
        self.store(st, p, x["size"], new, ins.ty)
        fr.regs[ins.id] = old; fr.pc += 1
    def op_getelementptr(self, st, fr, ins, x):
        b = self.val(st, fr, x["base"])
        if b.__class__ is not Ptr:
            if b is UNDEF: fr.regs[ins.id] = UNDEF; fr.pc += 1; return
            if not x["var"] and x["off"] == 0: fr.regs[ins.id] = b; fr.pc += 1; return
            raise Undecided("address arithmetic on %r" % (b,))
        off = ladd(b.off, x["off"])
        for o, sc, ty in x["var"]:
            v = self.val(st, fr, o); w = width(ty)
            if v.__class__ is int: v = sgn(uns(v, w), w)
            else:
                v = self.gep_index(st, v, w)
            off = ladd(off, lscale(v, sc))
        if self.opts.get("arrgep") and b.o in st.objs and st.objs[b.o].get("kind") == "array" and off != b.off:
            # positions may go from the first element to one past the last
            info = st.objs[b.o]; i = self.div_exact(off, info["es"])
            if i is not None: self.bounds(st, i, ladd(info["len"], 1), info, "move to a position")
        fr.regs[ins.id] = Ptr(b.o, off); fr.pc += 1
    def gep_index(self, st, v, w):
        v = self.aslin(v)
        if self.inrange(st, v, w, True): return v
        return self.num_norm(st, v, w, True)
    def op_icmp(self, st, fr, ins, x):
        a = self.val(st, fr, x["ops"][0]); b = self.val(st, fr, x["ops"][1])
        fr.regs[ins.id] = self.cmp(st, x["pred"], a, b, width(x["oty"])); fr.pc += 1
    def op_select(self, st, fr, ins, x):
        c = self.val(st, fr, x["ops"][0])
        a = self.val(st, fr, x["ops"][1]); b = self.val(st, fr, x["ops"][2])
        if c.__class__ is BV and a.__class__ in (int, BV) and b.__class__ in (int, BV):
            w = width(ins.ty); bit = c.b[0]; A = bv_bits(a, w); B = bv_bits(b, w); out = []
            for p, q in zip(A, B):
                if p == q: out.append(p)
                elif p == 1 and q == 0: out.append(bit)
                elif p == 0 and q == 1: out.append(bneg(bit))
                else: self.split_bit(st, bit)
            v = bv_make(out)
        elif a == b: v = a
        else: v = a if self.truth(st, c) else b
        fr.regs[ins.id] = v; fr.pc += 1
    def op_extractvalue(self, st, fr, ins, x):
        v = self.val(st, fr, x["ops"][0])
        for i in x["idx"]: v = v[i] if v.__class__ is Agg else UNDEF
        fr.regs[ins.id] = v; fr.pc += 1
    def op_insertvalue(self, st, fr, ins, x):
        v = self.val(st, fr, x["ops"][0]); e = self.val(st, fr, x["ops"][1])
        def shape(ty): return len(ty[2]) if ty[0] == "s" else ty[2]
        def ins_(v, idx, ty):
            if not idx: return e
            n = shape(ty)
            l = list(v) if v.__class__ is Agg else [UNDEF] * n
            l[idx[0]] = ins_(l[idx[0]], idx[1:], ty[2][idx[0]][1] if ty[0] == "s" else ty[3])
            return Agg(l)
        fr.regs[ins.id] = ins_(v, x["idx"], ins.ty); fr.pc += 1
    def op_br(self, st, fr, ins, x):
        if "cond" not in x: return self.goto(st, fr, x["t"])
        c = self.truth(st, self.val(st, fr, x["cond"]))
        l = self.mod.loc(ins)
        if l and "/include/pluto/" in l[0]: st.note("branch %s" % ("taken" if c else "not taken"), l)
        return self.goto(st, fr, x["t"] if c else x["f"])
    def op_switch(self, st, fr, ins, x):
        v = self.val(st, fr, x["cond"]); w = x["w"]
        for c, b in x["cases"]:
            if self.truth(st, self.cmp(st, "eq", v, int(c), w)): return self.goto(st, fr, b)
        return self.goto(st, fr, x["def"])
    def op_unreachable(self, st, fr, ins, x):
        return ("unreachable", st, None)
    def op_ret(self, st, fr, ins, x):
        v = self.val(st, fr, x["ops"][0]) if x["ops"] else None
        return self.do_ret(st, v)
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for o in fr.allocas:
            st.objs.pop(o, None); st.mem.pop(o, None)
            self.drop_models(st, o)
        if fr.post:
            r = fr.post(self, st, v)
            if r.__class__ is list: return self.finish_call(st, r, fr.retid)
            v = r
        if not st.frames: return ("ret", st, v)
        return self.deliver(st, fr.retid, v)
    def drop_models(self, st, o):
        for k in [k for k in st.models if k[0] == o]: del st.models[k]
    def deliver(self, st, retid, v):
        """normal return to the caller frame's current call/invoke"""
        c = st.frames[-1]
        ins = c.fn.blocks[c.bb][c.pc]
        if ins.id is not None: c.regs[ins.id] = UNDEF if v is None else v
        if ins.op == "invoke": return self.goto(st, c, ins.x["normal"])
        c.pc += 1
    # ------------------------------------------------------------ exceptions
    def throw(self, st, t):
        """unwind; returns step result"""
        st.exc = t
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.bb][fr.pc]
            if ins.op == "invoke":
                return self.goto(st, fr, ins.x["unwind"])
            if fr.fn.d.get("nounwind") and not getattr(self, "ignore_nounwind", False):
                self.on_terminate(st, t)
                return DROP
            st.frames.pop()
            for o in fr.allocas:
                st.objs.pop(o, None); st.mem.pop(o, None); self.drop_models(st, o)
            if fr.post:
                r = fr.post(self, st, t)
        return ("throw", st, t)
    def on_terminate(self, st, t):
        self.violate(st, "terminate", "exception %r leaves a noexcept function" % (t,))
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 2)
    def exc_matches(self, typ, catch):
        """does exception class typ match catch typeinfo name? True/False/None(unknown)"""
        if typ is None: return None
        if typ == catch: return True
        H = {"_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12system_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
             "_ZTINSt10filesystem7__cxx1116filesystem_errorE": ["_ZTISt12system_error", "_ZTISt13runtime_error", "_ZTISt9exception"],
             "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"], "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
             "_ZTISt12future_error": ["_ZTISt11logic_error", "_ZTISt9exception"], "_ZTISt17bad_function_call": ["_ZTISt9exception"],
             "_ZTISt12format_error": ["_ZTISt13runtime_error", "_ZTISt9exception"]}
        if typ in H: return catch in H[typ]
        return None
    def op_landingpad(self, st, fr, ins, x):
        t = st.exc; sel = 0
        for kind, c in x["clauses"]:
            if kind != "catch": continue
            if c[0] == "null": sel = 1; break
            name = c[1]
            m = self.exc_matches(t.typ, name)
            if m is None:
                key = T("exc-is", T(str(t.what)), T(name))
                m = st.tf.get(key)
                if m is None:
                    a = st.copy(); a.tf[key] = True
                    b = st.copy(); b.tf[key] = False
                    raise Split([a, b])
            if m: sel = self.typeid(name); break
        fr.regs[ins.id] = Agg((T("excptr", T(str(t.typ)), T(str(t.what))), sel)); fr.pc += 1
        if not x["cleanup"] and sel == 0:
            # the personality would not stop here: continue unwinding
            return self.resume(st)
    def resume(self, st):
        t = st.exc
        fr = st.frames.pop()
        for o in fr.allocas:
            st.objs.pop(o, None); st.mem.pop(o, None); self.drop_models(st, o)
        if fr.post: fr.post(self, st, t)
        if fr.fn.d.get("nounwind"):
            st.frames.append(fr); self.on_terminate(st, t); return DROP
        return self.throw(st, t)
    def op_resume(self, st, fr, ins, x): return self.resume(st)

    # ------------------------------------------------------------ calls
    def op_call(self, st, fr, ins, x): return self.do_call(st, fr, ins, x)
    def op_invoke(self, st, fr, ins, x): return self.do_call(st, fr, ins, x)
    def do_call(self, st, fr, ins, x):
        c = x["callee"]
        args = [UNDEF if o.__class__ is list and o[0] == "unk" else self.val(st, fr, o) for o in x["args"]]
        for i, n in enumerate(x["byval"]):
            if n and args[i].__class__ is Ptr:
                o = st.new_obj("stack", n, name="byval"); self.copy_mem(st, Ptr(o, 0), args[i], n); fr.allocas = fr.allocas + (o,); args[i] = Ptr(o, 0)
        if c.__class__ is list and c[0] == "g": name = self.mod.resolve(c[1])
        elif c.__class__ is list and c[0] == "unk": raise Undecided("inline assembly")
        else:
            p = self.val(st, fr, c)
            if p.__class__ is Ptr and p.o.__class__ is tuple and p.off == 0: name = p.o[1]
            else:
                r = self.indirect(st, ins, p, args)
                if r is None: raise Undecided("indirect call through %r" % (p,))
                return self.finish_call(st, r, ins.id)
        fn = self.mod.funcs.get(name)
        if fn is None: raise Undecided("call of %s" % name)
        return self.call_fn(st, fr, ins, fn, args)
    def call_fn(self, st, fr, ins, fn, args):
        if fn.name.startswith("llvm."):
            r = self.intrinsic(st, fr, ins, fn.name, args)
            if r is not None:
                return self.finish_call(st, r, ins.id)
            fr.pc += 1
            return
        h = self.find_model(fn)
        if h is not None:
            self.modelled[fn.norm] = self.modelled.get(fn.norm, 0) + 1
            r = h(self, st, ins, fn, args)
            return self.finish_call(st, r, ins.id)
        if fn.decl: raise Undecided("call of unmodelled function " + fn.dem)
        va = None
        if ins.x.get("va"): va = args[fn.nargs:]
        return self.push(st, fn, args, ins.id, va=va)
    def find_model(self, fn):
        k = fn.name
        if k in self._modelcache: return self._modelcache[k]
        h = self.models.get(fn.name) or self.models.get(fn.norm)
        if h is None:
            for pat, g in self.models.get("*", ()):
                if pat(fn): h = g; break
        self._modelcache[k] = h
        return h
    def finish_call(self, st, r, retid):
        """r: list of (state, value|Throw|Call|DROP)"""
        out = []
        for s, v in r:
            if v is DROP: continue
            if v.__class__ is Throw: q = self.throw(s, v)
            elif v.__class__ is Call:
                q = self.push(s, v.fn, v.args, retid, v.post)
            else: q = self.deliver(s, retid, v)
            if q is None: out.append(s)
            elif q is DROP: pass
            elif q.__class__ is list: out.extend(q)
            else: out.append(q)
        if len(out) == 1 and out[0] is st: return None
        return out
    def indirect(self, st, ins, p, args): return None

    def intrinsic(self, st, fr, ins, name, args):
        n = name.split(".")
        k = n[1]
        if k in ("dbg", "lifetime", "assume", "invariant", "donothing", "prefetch", "stacksave", "stackrestore", "experimental"):
            if k == "stacksave": return [(st, NULL)]
            if k == "lifetime" and self.opts.get("lifetimes") and args[1].__class__ is Ptr and args[1].off == 0 and st.objs.get(args[1].o, {}).get("kind") == "stack":
                st.mem[args[1].o] = {}; self.drop_models(st, args[1].o)
            return None
        if k in ("memcpy", "memmove"):
            if args[2] == 0: return None
            self.mem_copy(st, args[0], args[1], args[2]); return None
        if k == "memset":
            self.mem_set(st, args[0], args[1], args[2]); return None
        if k == "eh": # typeid.for
            return [(st, self.typeid(args[0].o[1]))]
        if k in ("umin", "umax", "smin", "smax"):
            w = width(ins.ty); a, b = args
            lt = self.truth(st, self.cmp(st, k[0] + "lt", a, b, w))
            return [(st, (a if lt else b) if k[1:] == "min" else (b if lt else a))]
        if k == "abs":
            a = args[0]; w = width(ins.ty)
            neg = self.truth(st, self.cmp(st, "slt", a, 0, w))
            return [(st, self.binop(st, "sub", 0, a, w, {}) if neg else a)]
        if k == "expect": return [(st, args[0])]
        if k == "trap": return [(st, DROP)]
        if k == "is" : return [(st, 0)]  # is.constant
        if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
            w = width(ins.ty[2][0][1]); op = k[1:]
            v = self.binop(st, op, args[0], args[1], w, {})
            if v.__class__ is int and all(a.__class__ is int for a in args):
                a, b = (sgn(z, w) if k[0] == "s" else z for z in args)
                e = a + b if op == "add" else a - b if op == "sub" else a * b
                ov = int(not (-(1 << (w-1)) <= e < (1 << (w-1)))) if k[0] == "s" else int(not 0 <= e < (1 << w))
                return [(st, Agg((v, ov)))]
            return [(st, Agg((v, 0)))]
        if k in ("va_start", "va_end", "va_copy"):
            h = self.models.get("llvm." + k)
            if h: return h(self, st, ins, None, args)
        h = self.models.get(name)
        if h: return h(self, st, ins, None, args)
        raise Undecided("intrinsic " + name)
    def mem_copy(self, st, d, s, n):
        if d.__class__ is not Ptr or s.__class__ is not Ptr or n.__class__ is not int: raise Undecided("memcpy of symbolic size")
        self.copy_mem(st, d, s, n)
    def mem_set(self, st, d, v, n):
        if n.__class__ is not int or v != 0: raise Undecided("memset")
        self.erase_range(st, d.o, d.off, n)
        m = dict(st.mem[d.o]); st.mem[d.o] = m
        m[("z", d.off)] = (n, None)
