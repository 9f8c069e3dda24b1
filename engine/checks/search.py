from sa.dom import *
from sa.interp import *
from sa import models, ir, seq
from sa.check import Check
from checks.order import target

ES = 4
TAG = T("tag")

def which(I, st, p):
    """meaning of an element argument: ('L'|'R', index) or the searched element 'x'"""
    v = I.load(st, p, 4, "i32")
    if v.__class__ is T and v.op == "elem": return (v.args[0].args[1], v.args[1])
    if v is T("x"): return ("x", None)
    if v is UNDEF: raise Violation("uninitialised", "an indeterminate element is compared")
    raise Undecided("comparison of %r" % (v,))
def three(I, st, a, b):
    """split the state on the order of two indices; returns [(state, sign of a-b)]"""
    return seq.three_way(st, a, b)
def both(st):
    q = st.copy(); return [(st, 1), (q, 0)]

def single(I, st, i, neg):
    """truth of the predicate for element i under the scenario"""
    m = st.mon; kind = m["kind"]
    if kind == "none": return [(st, 0 ^ neg)]
    out = []
    for s, r in three(I, st, i, m["W"]):
        if r == 0: out.append((s, 1 ^ neg))
        elif (r < 0) == (kind == "first"): out.append((s, 0 ^ neg))   # before the first / after the last one
        else: out += [(a, v) for a, v in both(s)]
    return out
def pair(I, st, i, j):
    m = st.mon; out = []
    for s, r in three(I, st, lsub(i, j), m["d"]):
        if r: out += both(s); continue
        if m["kind"] == "equal": out.append((s, 1)); continue
        for q, t in three(I, s, j, m["W"]):
            if t == 0: out.append((q, 0))
            else: out += both(q)
    return out

def tagok(I, st, p):
    t = I.load(st, p, 4, "i32")
    if t is not TAG: raise Violation("predicate", "the predicate called is not the one that was given")

def mk_models():
    m = models.base()
    def eq(neg):
        def h(I, st, ins, fn, args):
            a = which(I, st, args[-2]); b = which(I, st, args[-1])
            if st.mon["pred"]: raise Violation("predicate", "elements are compared with == although a predicate was given")
            if a[0] == "L" and b[0] == "R" and st.mon["mode"] == "pair": r = pair(I, st, a[1], b[1])
            elif a[0] == "R" and b[0] == "L" and st.mon["mode"] == "pair": raise Violation("argument-order", "the right sequence's element is passed first")
            elif a[0] == "L" and b[0] == "x": r = single(I, st, a[1], 0)
            elif a[0] == "x" and b[0] == "L": r = single(I, st, b[1], 0)
            else: raise Undecided("comparison of %r and %r" % (a, b))
            return [(s, v ^ neg) for s, v in r]
        return h
    for k, n in (("operator==", 0), ("operator!=", 1)):
        m["*"].append((lambda fn, k=k: fn.decl and fn.norm == k, eq(n)))
    def p1(I, st, ins, fn, args):
        tagok(I, st, args[0]); a = which(I, st, args[1])
        if a[0] != "L": raise Violation("predicate", "the predicate is called with something that is not an element")
        return single(I, st, a[1], st.mon["neg"])
    m["pred1::operator()"] = p1
    def p2(I, st, ins, fn, args):
        tagok(I, st, args[0]); a = which(I, st, args[1]); b = which(I, st, args[2])
        if a[0] == "R" and b[0] == "L": raise Violation("argument-order", "the predicate is called with the right sequence's element first")
        if (a[0], b[0]) != ("L", "R"): raise Violation("argument-order", "the predicate is called with elements of the same sequence")
        if st.mon["mode"] != "pair": raise Undecided("hand-written subsequence search")
        return pair(I, st, a[1], b[1])
    m["pred2::operator()"] = p2
    def search(last):
        def h(I, st, ins, fn, args):
            m = st.mon
            if m["mode"] != "seq": raise Undecided("subsequence search")
            ps = [I.load(st, a, 8, "ptr") if False else a for a in args[:4]]
            for p, o in zip(ps, ("L", "L", "R", "R")):
                if p.__class__ is not Ptr: raise Undecided("search over %r" % (p,))
                if p.o is not m[o]: raise Violation("argument-order", "the ranges of the search are not (left, right)")
            a, b, x, y = [I.div_exact(p.off, ES) for p in ps]
            if len(args) > 4:
                if args[4] is not TAG and m["pred"]: raise Violation("predicate", "the search does not use the given predicate")
            elif m["pred"]: raise Violation("predicate", "the search ignores the given predicate")
            if not (st.num.entails_eq(x) and st.num.entails_eq(lsub(y, m["nR"]))):
                raise Undecided("search for a part of the right sequence")
            if m["kind"] == "empty": return [(st, Ptr(m["L"], lscale(b if last else a, ES)))]
            if m["kind"] == "none": return [(st, Ptr(m["L"], lscale(b, ES)))]
            def inside(s, w):
                """[(state, occurrence w lies inside [a, b))]"""
                out = []
                q = s.copy(); r = s.copy(); t = s.copy()
                if q.assume_ge(lsub(w, a)):
                    r = q.copy()
                    if q.assume_ge(lsub(b, ladd(w, m["nR"]))): out.append((q, True))
                    if r.assume_ge(lsub(ladd(w, m["nR"]), ladd(b, 1))): out.append((r, False))
                if t.assume_ge(lsub(a, ladd(w, 1))): out.append((t, False))
                return out
            res = []
            order = (m["W2"], m["W"]) if last else (m["W"], m["W2"])
            for s, k in inside(st, order[0]):
                if k: res.append((s, Ptr(m["L"], lscale(order[0], ES)))); continue
                for s2, k2 in inside(s, order[1]):
                    res.append((s2, Ptr(m["L"], lscale(order[1] if k2 else b, ES))))
            return res
        return h
    m["std::search"] = search(False); m["std::find_end"] = search(True)
    return m

SINGLE = ("find", "rfind", "find_if", "find_if_not", "rfind_if", "rfind_if_not", "contains")
def entries(mod):
    for f in mod.funcs.values():
        if f.decl or "_" not in f.name: continue
        op, cat = f.name.rsplit("_", 1)
        if cat in ("fwd", "bid", "rnd", "cbid", "crnd") and not f.name.startswith("_Z"): yield f, op, cat

NAMES = dict(same="equals_same_size", equals="equals", starts="starts_with", ends="ends_with", findS="find (sequence)", rfindS="rfind (sequence)", containsS="contains (sequence)")

def setup(op, pred):
    st = State(); st.mon = {}
    L, nL = seq.mkarray(st, "L"); st.mon.update(L=L, nL=nL, pred=pred, neg=0)
    args = [Ptr(L, 0), Ptr(L, lscale(nL, ES))]
    return st, L, nL, args
def scenarios(op):
    """[(state, args, expected, description)]: expected is ('index', lin) or ('bool', 0|1)"""
    pred = op.endswith("P") or "if" in op; base = op[:-1] if op.endswith("P") else op
    out = []
    def tagarg(st, args):
        if pred:
            o = st.new_obj("input", 4, name="predicate", const=True); st.mem[o] = {0: (4, TAG)}; args.append(Ptr(o, 0))
    if base in SINGLE:
        for kind in ("none", "last" if base[0] == "r" else "first"):
            st, L, nL, args = setup(op, pred)
            st.mon.update(mode="single", kind=kind, neg=int("not" in base))
            if kind != "none":
                W = atom(T("witness")); st.mon["W"] = W; st.assume_ge(W); st.assume_ge(lsub(lsub(nL, W), 1))
            if "if" not in base:
                o = st.new_obj("input", 4, name="element", const=True); st.mem[o] = {0: (4, T("x"))}; args.append(Ptr(o, 0))
            tagarg(st, args)
            exp = ("bool", int(kind != "none")) if base == "contains" else ("index", nL if kind == "none" else st.mon["W"])
            out.append((st, args, exp, "no element matches" if kind == "none" else "the %s matching element is at position W" % kind))
        return out
    def two(mode, **kw):
        st, L, nL, args = setup(op, pred)
        R, nR = seq.mkarray(st, "R"); args += [Ptr(R, 0), Ptr(R, lscale(nR, ES))]; tagarg(st, args)
        st.mon.update(mode=mode, R=R, nR=nR, **kw)
        return st, nL, nR, args
    if base in ("findS", "rfindS", "containsS"):
        for kind in ("empty", "none", "found"):
            st, nL, nR, args = two("seq", kind=kind)
            if kind == "empty": st.assume_eq(nR); exp = nL if base == "rfindS" else 0
            else:
                st.assume_ge(ladd(nR, -1)); exp = nL
                if kind == "found":
                    W = atom(T("W1")); W2 = atom(T("W2")); st.mon.update(W=W, W2=W2)
                    st.assume_ge(W); st.assume_ge(lsub(W2, W)); st.assume_ge(lsub(nL, ladd(W2, nR))); exp = W2 if base == "rfindS" else W
            out.append((st, args, ("bool", int(kind != "none")) if base == "containsS" else ("index", exp),
                        {"empty": "the right sequence is empty", "none": "there is no occurrence", "found": "the first occurrence is at W1 and the last at W2"}[kind]))
        return out
    for kind, size in (("equal", "fits"), ("differ", "fits"), ("equal", "wrong")):
        if base == "same" and size == "wrong": continue
        sizes = ["x"] if size == "fits" else (["<", ">"] if base == "equals" else [">"])
        for z in sizes:
            st, nL, nR, args = two("pair", kind=kind)
            st.mon["d"] = lsub(nL, nR) if base == "ends" else 0
            if size == "fits":
                if base in ("equals", "same"): st.assume_eq(lsub(nL, nR))
                else: st.assume_ge(lsub(nL, nR))
            elif z == "<": st.assume_ge(lsub(lsub(nL, nR), 1))
            else: st.assume_ge(lsub(lsub(nR, nL), 1))
            if kind == "differ":
                W = atom(T("witness")); st.mon["W"] = W; st.assume_ge(W); st.assume_ge(lsub(lsub(nR, W), 1))
            out.append((st, args, ("bool", int(kind == "equal" and size == "fits")), "%s, %s" % (
                "all compared elements match" if kind == "equal" else "the elements at position W differ",
                "right is longer" if z == ">" else "left is longer" if z == "<" else "the lengths allow it")))
    return out

def judge(I, c, name, s, v, exp, desc, tgt):
    if exp[0] == "bool":
        ok = None if v.__class__ is not int else (v & 1) == exp[1]
        got = v if v.__class__ is not int else bool(v & 1); want = bool(exp[1])
    else:
        i = I.div_exact(v.off, ES) if v.__class__ is Ptr and v.o is s.mon["L"] else None
        got, want = ("position %r" % (i,) if i is not None else repr(v)), "position %r" % (exp[1],)
        if v is UNDEF or v.__class__ is Ptr and v.o is not s.mon["L"]: ok = False
        elif i is None: ok = None
        else: ok = s.num.entails_eq(lsub(i, exp[1])) or False
    if ok is False and s.wide: ok = None   # a generalised state that need not be reachable
    c.ob(name, ok, "%s gives %s when %s, expected %s" % (name, got, desc, want), path=s.trace_list(), **tgt)

def check():
    c = Check("C27", "witness abstraction: elements are positions of sequences of any length, the predicate is decided by a ghost witness (the first, last or only matching position); every search operation must return the witness's position or truth value for each iterator category and language version")
    cfgs = [dict(std="c++14"), dict(std="c++17"), dict(std="c++20")]
    jobs = []
    for cfg in ir.buildable("search.cpp", cfgs, c):
        mod = ir.compile_module("search.cpp", std=cfg["std"], passes="sroa")
        es = list(entries(mod))
        for k in range(4):
            def job(c, mod=mod, es=es[k::4], std=cfg["std"]):
                for fn, op, cat in es:
                    base = op[:-1] if op.endswith("P") else op
                    name = "%s:%s:%s" % (NAMES.get(base, base) + ("+predicate" if op.endswith("P") else ""), cat, std)
                    tgt = target(mod, fn)
                    for st, args, exp, desc in scenarios(op):
                        I = Interp(mod, mk_models(), dict(exact=("out-of-bounds",), arrgep=1))
                        outs = I.run(fn, args, st); clean = c.absorb(I, name)
                        n = 0
                        for kind, s, v in outs:
                            if kind != "ret": c.ob(name, False, "%s throws" % name, **tgt); continue
                            n += 1; judge(I, c, name, s, v, exp, desc, tgt)
                        if not n and clean: c.ob(name, None, "no outcome: " + desc)
            jobs.append(job)
    c.parallel(jobs)
    c.require("search obligations", len(c.obs), 400 if not c.viol and not c.und else 1)
    c.assumptions = ["std::search and std::find_end meet their contracts (first / last occurrence); simpler algorithms are analysed as code", "predicates and element comparison have no side effects on the sequences"]
    return c
