from sa.dom import *
from sa.interp import *
from sa import models, ir
from sa.check import Check
import itertools

CMP = {"operator<": lambda a, b: a < b, "operator>": lambda a, b: a > b, "operator<=": lambda a, b: a <= b,
       "operator>=": lambda a, b: a >= b, "operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b}

def ord_models(tyname="ord"):
    m = models.base()
    def mk(f):
        def h(I, st, ins, fn, args):
            a = I.load(st, args[0], 4, "i32"); b = I.load(st, args[1], 4, "i32")
            if a is UNDEF or b is UNDEF: raise Violation("uninitialised", "comparison of an indeterminate value")
            return [(st, int(f(a, b)))]
        return h
    for k, f in CMP.items():
        m["*"].append((lambda fn, k=k: fn.decl and fn.norm == k, mk(f)))
    def sub(I, st, ins, fn, args):
        a = I.load(st, args[0], 4, "i32"); b = I.load(st, args[1], 4, "i32")
        return [(st, T("minus", a, b))]
    m["*"].append((lambda fn: fn.decl and fn.norm == "operator-", sub))
    return m

def weak_orders(n):
    """all weak orderings of n values as rank tuples"""
    out = set()
    for t in itertools.product(range(n), repeat=n):
        s = sorted(set(t)); out.add(tuple(s.index(x) for x in t))
    return sorted(out)

def check_range():
    c = Check("C21", "order abstraction: the range templates are interpreted over a type that only offers comparisons; every one of the 75 weak orderings of the four bounds is decided for each operation against the lexicographic specification")
    mod = ir.compile_module("order.cpp")
    ms = ord_models()
    orders = weak_orders(4)
    def mkrange(st, b, e):
        o = st.new_obj("input", 8, name="range", const=True); st.mem[o] = {0: (4, b), 4: (4, e)}
        return Ptr(o, 0)
    spec = {
        "r_eq": lambda a, b, p, q: (a, b) == (p, q), "r_ne": lambda a, b, p, q: (a, b) != (p, q),
        "r_lt": lambda a, b, p, q: (a, b) < (p, q), "r_gt": lambda a, b, p, q: (a, b) > (p, q),
        "r_le": lambda a, b, p, q: (a, b) <= (p, q), "r_ge": lambda a, b, p, q: (a, b) >= (p, q),
        "r_is_equal": lambda a, b, p, q: (a, b) == (p, q), "r_is_less": lambda a, b, p, q: (a, b) < (p, q),
        "r_overlap": lambda a, b, p, q: a == p or (a < q and p < b),
        "r_less_no": lambda a, b, p, q: a != p and b <= p,
    }
    names = {"r_eq": "operator==", "r_ne": "operator!=", "r_lt": "operator<", "r_gt": "operator>", "r_le": "operator<=", "r_ge": "operator>=",
             "r_is_equal": "is_equal", "r_is_less": "is_less", "r_overlap": "is_overlapping", "r_less_no": "is_less_no_overlap"}
    for e, f in spec.items():
        fn = mod.entry(e)
        for t in orders:
            I = Interp(mod, ms); st = State()
            outs = I.run(fn, [mkrange(st, t[0], t[1]), mkrange(st, t[2], t[3])], st)
            if not c.absorb(I, "order:" + names[e]) or len(outs) != 1 or outs[0][0] != "ret":
                c.ob("order:" + names[e], None, "not decided for bounds %r" % (t,)); continue
            v = outs[0][2]; tgt = target(mod, fn)
            c.ob("order:" + names[e], (v & 1) == int(f(*t)) if v.__class__ is int else None,
                 "%s gives %r where bounds are ordered begin=%d end=%d other.begin=%d other.end=%d, expected %r" % (names[e], v, t[0], t[1], t[2], t[3], f(*t)), **tgt)
    for t in weak_orders(2):
        I = Interp(mod, ms); st = State()
        fn = mod.entry("r_size")
        outs = I.run(fn, [mkrange(st, t[0], t[1])], st)
        if c.absorb(I, "size") and len(outs) == 1:
            c.ob("size", outs[0][2] is T("minus", t[1], t[0]), "size() is %r for begin=%d end=%d, expected end - begin" % (outs[0][2], t[0], t[1]), **target(mod, fn))
        else: c.ob("size", None, "not decided")
        I = Interp(mod, ms); st = State(); fn = mod.entry("r_ctor")
        out = st.new_obj("out", 8, name="range"); a = st.new_obj("input", 4, name="begin"); b = st.new_obj("input", 4, name="end")
        st.mem[a] = {0: (4, 10 + t[0])}; st.mem[b] = {0: (4, 20 + t[1])}
        outs = I.run(fn, [Ptr(out), Ptr(a), Ptr(b)], st)
        if c.absorb(I, "constructor") and len(outs) == 1:
            m = outs[0][1].mem[out]
            c.ob("constructor", m.get(0) == (4, 10 + t[0]) and m.get(4) == (4, 20 + t[1]), "constructor does not store (begin, end): %r" % (m,), **target(mod, fn))
        else: c.ob("constructor", None, "not decided")
    c.require("range operations", len(c.obs), 700)
    c.assumptions = ["the element type's comparison operators are one total order (the property's own premise)"]
    return c

def target(mod, fn):
    """the first repository function called from a driver entry"""
    for b in fn.blocks:
        for ins in b:
            if ins.op in ("call", "invoke") and ins.x["callee"].__class__ is list and ins.x["callee"][0] == "g":
                f = mod.funcs.get(ins.x["callee"][1])
                if f and f.file and "/include/pluto/" in f.file: return dict(file=f.file, line=f.line, function=f.dem)
    return dict(file=fn.file, line=fn.line, function=fn.dem)

def check_minmax():
    from sa import seq
    c = Check("C23", "order abstraction: minimum/maximum are interpreted over a type that only offers comparisons; two-value forms for every weak ordering, container forms by a loop invariant against a ghost best element; abs over linear integer ranges of each width")
    mod = ir.compile_module("minmax.cpp")
    # two values
    for e in ("v_min", "v_max", "v_min_p", "v_max_p"):
        fn = mod.entry(e)
        for t in weak_orders(2):
            ms = ord_models()
            def pm(I, st, ins, f, args):
                a = I.load(st, args[1], 4, "i32"); b = I.load(st, args[2], 4, "i32"); return [(st, int(a < b))]
            ms["pred2::operator()"] = pm
            I = Interp(mod, ms); st = State()
            ps = []
            for i, r in enumerate(t):
                o = st.new_obj("input", 4, name="left" if i == 0 else "right"); st.mem[o] = {0: (4, r)}; ps.append(Ptr(o))
            outs = I.run(fn, ps, st)
            if not c.absorb(I, "two-value:" + e) or len(outs) != 1: c.ob("two-value:" + e, None, "not decided"); continue
            want = (1 if t[1] < t[0] else 0) if "min" in e else (1 if t[0] < t[1] else 0)
            v = outs[0][2]
            c.ob("two-value:" + e, v == ps[want], "%s returns %s for %s, expected the %s argument" % (
                e[2:5], "the left argument" if v == ps[0] else "the right argument" if v == ps[1] else "something that is not an argument",
                "left < right" if t[0] < t[1] else "right < left" if t[1] < t[0] else "equal arguments", ("left", "right")[want]), **target(mod, fn))
    # containers
    for e in ("c_min", "c_max", "c_min_p", "c_max_p"):
        fn = mod.entry(e); isf = "min" in e
        ms = models.base()
        def better(I, st, ia, ib, strict_lt):
            """outcome states of 'a < b' where one of them is the ghost best and the other the next element"""
            best = st.mon["best"]; nxt = st.mon["next"]
            out = []
            for (x, y, flip) in ((ia, ib, False), (ib, ia, True)):
                # x is the new element, y the best so far
                if st.num.entails_eq(lsub(x, nxt)) and best is not None and st.num.entails_eq(lsub(y, best)):
                    for rel in (-1, 0, 1):   # new vs best
                        s = st.copy(); s.note("element compares %s to the best so far" % ("less", "equal", "greater")[rel + 1])
                        if (rel < 0 if isf else rel > 0): s.mon["best"] = x
                        s.mon["next"] = ladd(nxt, 1)
                        r = rel < 0 if not flip else rel > 0   # a < b
                        out.append((s, r, rel, flip))
                    return out
            raise Undecided("comparison of elements other than the best so far and the next one")
        def mk(f):
            def h(I, st, ins, fn2, args):
                args = args[-2:]
                a = seq.index(I, st, args[0]); b = seq.index(I, st, args[1])
                if a is None or b is None: raise Undecided("comparison of something that is not an element")
                if st.mon["best"] is None:
                    # the first element has become the best without a comparison
                    st.mon["best"] = 0; st.mon["next"] = 1
                    ok = I.split_ge(st, lsub(st.objs[a[0]]["len"], 2))
                if a[1] == b[1] or st.num.entails_eq(lsub(a[1], b[1])): return [(st, int(f(0)))]
                res = []
                for s, lt, rel, flip in better(I, st, a[1], b[1], True):
                    ab = rel if not flip else -rel
                    res.append((s, int(f(ab))))
                return res
            return h
        for k, f in (("operator<", lambda r: r < 0), ("operator>", lambda r: r > 0), ("operator<=", lambda r: r <= 0), ("operator>=", lambda r: r >= 0),
                     ("operator==", lambda r: r == 0), ("operator!=", lambda r: r != 0)):
            ms["*"].append((lambda fn2, k=k: fn2.decl and fn2.norm == k, mk(f)))
        ms["pred2::operator()"] = mk(lambda r: r < 0)
        I = Interp(mod, ms); st = State(); st.mon = dict(best=None, next=0)
        arr, n = seq.mkarray(st, "elements"); st.assume_ge(lsub(n, 1))
        outs = I.run(fn, [seq.mkview(st, arr, n)], st)
        clean = c.absorb(I, "container:" + e)
        for kind, s, v in outs:
            if kind != "ret": continue
            if v.__class__ is not Ptr or v.o != arr:
                c.ob("container:" + e, False, "%s(container) does not return an element" % e[2:5], **target(mod, fn)); continue
            i = I.div_exact(v.off, 4)
            best = s.mon["best"]; nx = s.mon["next"]
            if best is None: best, nx = 0, 1
            seen_all = s.num.entails_eq(lsub(nx, n))
            ok = s.num.entails_eq(lsub(i, best))
            if not seen_all: c.ob("container:" + e, False, "%s(container) returns without looking at every element" % e[2:5], **target(mod, fn))
            else: c.ob("container:" + e, ok, "%s(container) does not return the first %s element" % (e[2:5], "least" if isf else "greatest"), **target(mod, fn))
        if not outs and clean: c.ob("container:" + e, None, "no outcome")
    # abs
    for e, w, sg in (("abs_i8", 8, 1), ("abs_i16", 16, 1), ("abs_i32", 32, 1), ("abs_i64", 64, 1), ("abs_ll", 64, 1), ("abs_u8", 8, 0), ("abs_u32", 32, 0), ("abs_u64", 64, 0)):
        fn = mod.entry(e)
        I = Interp(mod, models.base()); st = State(); x = atom(T("value"))
        lo, hi = (-(1 << (w - 1)) + 1, (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        st.assume_ge(ladd(x, -lo)); st.assume_ge(lsub(hi, x))
        outs = I.run(fn, [x], st)
        clean = c.absorb(I, "abs:" + e)
        for kind, s, v in outs:
            d = I.aslin(v)
            try: d = I.num_norm(s, d, w, bool(sg))
            except Split: c.ob("abs:" + e, None, "range"); continue
            neg = s.num.entails(ladd(lscale(x, -1), -1)); pos = s.num.entails(x)
            zero = s.num.entails(lscale(x, -1))
            ok = (pos and s.num.entails_eq(lsub(d, x))) or ((neg or zero) and s.num.entails_eq(ladd(d, x)))
            # undetermined sign: the value is not a magnitude
            c.ob("abs:" + e, ok, "abs(value) is %r for %s" % (d, "negative values" if neg else "values >= 0" if pos else "values of either sign"), **target(mod, fn))
        if not outs: c.ob("abs:" + e, None, "no outcome")
    for e in ("abs_f64", "abs_f32"):
        fn = mod.entry(e)
        ms = models.base()
        fab = lambda I, st, ins, f, args: [(st, T("fabs", args[0]))]
        for k in ("llvm.fabs.f64", "llvm.fabs.f32", "fabs", "fabsf"): ms[k] = fab
        I = Interp(mod, ms); st = State(); x = T("fvalue")
        outs = I.run(fn, [x], st); c.absorb(I, "abs:" + e)
        for kind, s, v in outs:
            facts = {(t.args[0], t.args[1] is x): r for t, r in s.tf.items() if t.op == "fcmp" and x in t.args[1:]}
            ok = None
            if v is T("fabs", x): ok = True
            else:
                lt = [r for (p, left), r in facts.items() if (p in ("olt", "ult") and left) or (p in ("ogt", "ugt") and not left)]
                ge = [r for (p, left), r in facts.items() if (p in ("oge", "uge") and left) or (p in ("ole", "ule") and not left)]
                le = [r for (p, left), r in facts.items() if (p in ("ole", "ule") and left) or (p in ("oge", "uge") and not left)]
                gt = [r for (p, left), r in facts.items() if (p in ("ogt", "ugt") and left) or (p in ("olt", "ult") and not left)]
                isneg = True if 1 in lt or 0 in ge or 1 in le or 0 in gt else False if 0 in lt or 1 in ge or 0 in le or 1 in gt else None
                if isneg is not None: ok = v == (T("fneg", x) if isneg else x)
                elif v in (x, T("fneg", x)): ok = False
            c.ob("abs:" + e, ok, "abs of a floating-point value gives %r" % (v,), **target(mod, fn))
    c.require("min/max/abs obligations", len(c.obs), 30 if not c.viol else 1)
    c.assumptions = ["the ordering passed is a strict weak ordering (the property's premise)"]
    return c
