from sa.dom import *
from sa.interp import *
from sa import models, ir, seq
from sa.check import Check
from checks.order import target
from checks.search import single, three, both, TAG, tagok

ES = 4
def pos(I, st, p):
    """position of an element reference (must be a real element)"""
    if p.__class__ is Ptr and p.o is st.mon["A"]:
        i = I.div_exact(p.off, ES)
        if i is None: raise Undecided("misaligned element pointer")
        I.bounds(st, i, st.mon["n"], st.objs[p.o], "use")
        return i
    raise Undecided("%r is not an element of the container" % (p,))
def visit(I, st, i):
    """element i is processed now: it has to be the next one"""
    nx = st.mon["next"]
    if not st.num.entails_eq(lsub(i, nx)):
        if st.wide: raise Undecided("element %r processed, %r expected" % (i, nx))
        raise Violation("order", "element %r is processed where element %r is next" % (i, nx))
    st.mon["next"] = ladd(nx, 1)
def same(I, st, a, b, rule, msg):
    if not st.num.entails_eq(lsub(a, b)):
        if st.wide: raise Undecided(msg)
        raise Violation(rule, msg)

def mk_models():
    m = models.base()
    def p1(I, st, ins, fn, args):
        tagok(I, st, args[0]); i = pos(I, st, args[1]); mo = st.mon
        visit(I, st, i)
        if mo["mode"] == "single": return single(I, st, i, mo["neg"])
        out = []
        for s, v in both(st):
            if v: s.mon["kept"] = ladd(s.mon["kept"], 1)
            if mo["mode"] == "filter":
                if s.mon["pending"] is not None: raise Undecided("an element that is to be kept was not moved yet")
                s.mon["pending"] = i if v and s.mon["removed"] else None
                if not v: s.mon["removed"] = 1
            out.append((s, v))
        return out
    m["pred1::operator()"] = p1; m["mpred1::operator()"] = p1
    def boolop(I, st, ins, fn, args):
        i = pos(I, st, args[0]); visit(I, st, i); return single(I, st, i, st.mon["neg"])
    m["B::operator bool"] = boolop
    def eq(neg):
        def h(I, st, ins, fn, args):
            a, b = args[-2:]
            if a.__class__ is not Ptr or a.o is not st.mon["A"]: a, b = b, a
            i = pos(I, st, a)
            if I.load(st, b, 4, "i32") is not T("x"): raise Violation("operand", "an element is compared with something that is not the given value")
            visit(I, st, i); out = []
            for s, v in both(st):
                if v: s.mon["kept"] = ladd(s.mon["kept"], 1)
                out.append((s, v ^ neg))
            return out
        return h
    for k, n in (("operator==", 0), ("operator!=", 1)): m["*"].append((lambda fn, k=k: fn.decl and fn.norm == k, eq(n)))
    def act(I, st, ins, fn, args):
        tagok(I, st, args[0]); visit(I, st, pos(I, st, args[1])); return [(st, None)]
    m["act::operator()"] = act
    def fun(I, st, ins, fn, args):
        tagok(I, st, args[0]); i = pos(I, st, args[1]); visit(I, st, i); return [(st, T("f", i))]
    m["fun1::operator()"] = fun
    def plus(I, st, ins, fn, args):
        v = I.load(st, args[0], 4, "i32")
        want = T("acc") if st.mon["started"] else st.mon["init"]
        if v is not want: raise Violation("sum", "an element is added to %r instead of the running sum" % (v,))
        visit(I, st, pos(I, st, args[1])); I.store(st, args[0], 4, T("acc")); st.mon["started"] = 1
        return [(st, args[0])]
    m["V::operator+="] = plus
    def written(I, st, at, v):
        same(I, st, at, ladd(st.mon["base"], st.mon["put"]), "destination", "a value is written at position %r of the destination, expected %r" % (at, ladd(st.mon["base"], st.mon["put"])))
        if not (v.__class__ is T and v.op == "f"): raise Violation("value", "%r is written instead of the function's result" % (v,))
        same(I, st, I.aslin(v.args[0]), st.mon["put"], "value", "the result for element %r is written at place %r" % (v.args[0], st.mon["put"]))
        st.mon["put"] = ladd(st.mon["put"], 1)
    def put(I, st, ins, fn, args):
        at = I.load(st, args[0], 8, "i64"); v = args[1]
        if v.__class__ is Ptr: v = I.load(st, v, 4, "i32")
        written(I, st, at, v); return [(st, None)]
    m["put::operator="] = put
    def inserted(I, st, ins, fn, args):
        at = args[1]; v = args[2]
        if v.__class__ is Ptr: v = I.load(st, v, 4, "i32")
        written(I, st, at, v); return [(st, None)]
    m["dst::inserted"] = inserted
    def assign(I, st, ins, fn, args):
        d = pos(I, st, args[0]); s = pos(I, st, args[1]); mo = st.mon
        if mo["mode"] != "filter": raise Undecided("an element is overwritten")
        if mo["pending"] is None: raise Violation("filter", "an element that is not to be kept, or already stands at its place, is moved") if not st.wide else Undecided("move")
        same(I, st, s, mo["pending"], "filter", "element %r is moved where element %r has just been kept" % (s, mo["pending"]))
        same(I, st, d, ladd(mo["kept"], -1), "filter", "a kept element is moved to position %r instead of %r" % (d, ladd(mo["kept"], -1)))
        mo["pending"] = None
        return [(st, args[0])]
    m["M::operator="] = assign
    def erased(I, st, ins, fn, args):
        mo = st.mon
        a, b = [I.div_exact(p.off, ES) if p.__class__ is Ptr and p.o is mo["A"] else None for p in args[-2:]]
        if a is None or b is None: raise Undecided("erase of unknown positions")
        if mo["mode"] != "filter" or mo["erased"]: raise Undecided("erase")
        same(I, st, mo["next"], mo["n"], "filter", "elements are erased before all have been tested")
        same(I, st, a, mo["kept"], "filter", "elements are erased from position %r on, %r elements are to be kept" % (a, mo["kept"]))
        same(I, st, b, mo["n"], "filter", "elements are erased up to position %r of %r" % (b, mo["n"]))
        mo["erased"] = 1
        return [(st, None)]
    m["mcont::erased"] = erased
    def swap(I, st, ins, fn, args):
        mo = st.mon
        if mo["mode"] != "reverse": raise Undecided("swap")
        a = pos(I, st, args[0]); b = pos(I, st, args[1]); k = mo["next"]
        if not I.split_ge(st, ladd(lsub(b, a), -1)) and I.split_ge(st, lsub(b, a)): return [(st, None)]   # an element swapped with itself stays
        if not (st.num.entails_eq(lsub(a, k)) and st.num.entails_eq(lsub(ladd(b, k), ladd(mo["n"], -1)))):
            a, b = b, a
        same(I, st, a, k, "reverse", "elements %r and %r are swapped, expected %r and its mirror image" % (a, b, k))
        same(I, st, ladd(b, k), ladd(mo["n"], -1), "reverse", "element %r is swapped with %r instead of its mirror image" % (a, b))
        mo["next"] = ladd(k, 1)
        return [(st, None)]
    m["*"].append((lambda fn: fn.decl and fn.norm == "swap", swap))
    def sort(I, st, ins, fn, args):
        mo = st.mon
        a, b = [I.div_exact(p.off, ES) if p.__class__ is Ptr and p.o is mo["A"] else None for p in args[:2]]
        if a is None or b is None: raise Undecided("sort of unknown positions")
        same(I, st, a, 0, "sort", "sorting starts at position %r" % (a,)); same(I, st, b, mo["n"], "sort", "sorting ends at position %r" % (b,))
        rest = [x for x in args[2:]]
        if mo["pred"]:
            if not rest or rest[0] is not TAG: raise Violation("predicate", "the sort does not use the given predicate") if not rest or "mpred2" not in fn.dem else Undecided("predicate passed as %r" % (rest[0],))
        elif rest and "std::less<void>" not in fn.dem: raise Undecided("comparator of the default sort") if "greater" not in fn.dem else Violation("predicate", "the default order of sort is not less-than")
        mo["sorted"] = 1
        return [(st, None)]
    for k in ("std::sort", "std::stable_sort"): m[k] = sort
    def slc(I, st, ins, fn, args):
        mo = st.mon
        if len(args) < 3: r = ("empty",)
        else:
            r = tuple(I.div_exact(p.off, ES) if p.__class__ is Ptr and p.o is mo["A"] else None for p in args[1:3])
            if None in r: raise Undecided("slice of unknown positions")
        mo["result"] = r
        return [(st, None)]
    m["*"].append((lambda fn: fn.decl and fn.norm == "sl::sl", slc))
    return m

def slice_models():
    m = mk_models()
    def distance(I, st, ins, fn, args):
        a, b = args[:2]
        if not (a.__class__ is Ptr and b.__class__ is Ptr and a.o is st.mon["A"] and b.o is a.o): raise Undecided("distance of unknown positions")
        i, j = I.div_exact(a.off, ES), I.div_exact(b.off, ES)
        if "random" not in fn.dem: same(I, st, j, i, "position", "the distance from %r to %r is taken by stepping forward" % (i, j)) if not st.num.entails(lsub(j, i)) else None
        return [(st, lsub(j, i))]
    def advance(I, st, ins, fn, args):
        p = I.load(st, args[0], 8, "ptr"); n = I.aslin(args[1])
        if n.__class__ is int: n = sgn(n, 64)
        if p.__class__ is not Ptr or p.o is not st.mon["A"]: raise Undecided("advance of an unknown position")
        if "forward" in fn.dem or "input_iterator" in fn.dem:
            if not I.split_ge(st, n): raise Violation("position", "a forward iterator is moved backwards")
        i = ladd(I.div_exact(p.off, ES), n)
        I.bounds(st, i, ladd(st.mon["n"], 1), st.objs[p.o], "move to a position")
        I.store(st, args[0], 8, Ptr(p.o, lscale(i, ES)))
        return [(st, None)]
    m["std::__distance"] = distance; m["std::__advance"] = advance
    return m

def start(mutable=False, **kw):
    st = State(); st.mon = dict(next=0, kept=0, put=0, base=0, started=0, removed=0, pending=None, erased=0, sorted=0, result=None, pred=0, neg=0, mode="")
    A, n = seq.mkarray(st, "A"); st.mon.update(A=A, n=n); st.mon.update(kw)
    return st, A, n
def view(st, A, n):
    v = st.new_obj("input", 16, name="container"); st.mem[v] = {0: (8, Ptr(A, 0)), 8: (8, Ptr(A, lscale(n, ES)))}
    return Ptr(v, 0)
def cell(st, v, size=4, name="input", const=True):
    o = st.new_obj("input", size, name=name, const=const); st.mem[o] = {0: (size, v)}
    return Ptr(o, 0)
NAMES = dict(any="any", all="all", anyT="any (default)", allT="all (default)", count="count", count_if="count_if", sum="sum", sum0="sum (default)", for_each="for_each", for_eachI="for_each (iterators)",
             mapI="map (iterators)", map="map (into)", mapN="map (new)", mapT="map (same template)", filterI="filter (iterators)", filter="filter", reverseI="reverse (iterators)", reverse="reverse",
             sort="sort", sortP="sort+predicate", sortI="sort (iterators)", sortIP="sort+predicate (iterators)", slice="slice", slice1="slice (stop only)")

def run(c, mod, fn, op, cat, std):
    """all scenarios of one operation; yields outcomes to judge"""
    name = "%s:%s:%s" % (NAMES[op], cat, std); tgt = target(mod, fn)
    def go(st, args, judge, desc=""):
        I = Interp(mod, mk_models(), dict(exact=("out-of-bounds",), arrgep=1, slots=1, exact_visits=5, exact_max=60))
        outs = I.run(fn, args, st); clean = c.absorb(I, name); n = 0
        for kind, s, v in outs:
            if kind != "ret": c.ob(name, False, "%s throws" % name, **tgt); continue
            n += 1; ok, msg = judge(I, s, v)
            if ok is False and s.wide: ok = None
            c.ob(name, ok, "%s %s%s" % (name, msg, desc and " when " + desc), **tgt)
        if not n and clean: c.ob(name, None, "no outcome " + desc)
    def eq(s, a, b): return s.num.entails_eq(lsub(a, b)) if a is not None and a.__class__ in (int, Lin) else False
    iters = op.endswith("I") or op.endswith("IP")
    base = op[:-1] if op in ("mapI", "filterI", "reverseI", "sortI", "for_eachI", "anyT", "allT", "sum0") else op
    def seqargs(st, A, n): return [Ptr(A, 0), Ptr(A, lscale(n, ES))] if iters else [view(st, A, n)]
    if base in ("any", "all"):
        for kind in ("none", "first"):
            st, A, n = start(mode="single", kind=kind, neg=int(base == "all"))
            if kind == "first":
                W = atom(T("witness")); st.mon["W"] = W; st.assume_ge(W); st.assume_ge(lsub(lsub(n, W), 1))
            args = seqargs(st, A, n) + ([] if op != base else [cell(st, TAG)])
            exp = int((kind == "first") == (base == "any"))
            go(st, args, lambda I, s, v: ((v & 1) == exp if v.__class__ is int else None, "gives %r, expected %s" % (v, bool(exp))),
               ("every element" if kind == "none" else "not every element") + (" fails" if base == "any" else " passes"))
    elif base in ("count", "count_if"):
        st, A, n = start(mode="count")
        args = [view(st, A, n), cell(st, T("x") if base == "count" else TAG)]
        go(st, args, lambda I, s, v: (eq(s, I.aslin(v), s.mon["kept"]) and eq(s, s.mon["next"], n) or False, "returns %r after %r of %r elements with %r matches" % (v, s.mon["next"], n, s.mon["kept"])))
    elif base == "sum":
        st, A, n = start(mode="sum", init=0 if op == "sum0" else T("init"))
        out = st.new_obj("out", 4, name="result"); args = [view(st, A, n)] + ([] if op == "sum0" else [cell(st, T("init"))]) + [Ptr(out, 0)]
        def j(I, s, v):
            r = s.mem[out].get(0, (0, None))[1]
            want = T("acc") if s.mon["started"] else s.mon["init"]
            return (eq(s, s.mon["next"], n) and (r is want or r == want)) or False, "gives %r after %r of %r elements" % (r, s.mon["next"], n)
        go(st, args, j)
    elif base == "for_each":
        st, A, n = start(mode="each"); a = seqargs(st, A, n)
        go(st, a + [cell(st, TAG)], lambda I, s, v: (eq(s, s.mon["next"], n) and (iters or v == a[0]) or False, "ends after %r of %r elements%s" % (s.mon["next"], n, "" if iters or v == a[0] else " and does not return the container")))
    elif base in ("map", "mapN", "mapT"):
        b0 = 0
        st, A, n = start(mode="map"); a = seqargs(st, A, n); d = None
        if op == "map":
            b0 = atom(T("size-before")); st.assume_ge(b0); st.assume_ge(lsub(1 << 40, b0)); st.mon["base"] = b0
            d = cell(st, b0, 8, "destination", False); a.append(d)
        def j(I, s, v):
            done = eq(s, s.mon["next"], n) and eq(s, s.mon["put"], n)
            if not done: return False, "ends after %r of %r elements, %r results written" % (s.mon["next"], n, s.mon["put"])
            if op == "map": return v == d, "does not return the destination"
            return eq(s, I.aslin(v), n), "returns position or size %r, expected %r" % (v, n)
        go(st, a + [cell(st, TAG)], j)
    elif base == "filter":
        st, A, n = start(mode="filter"); a = seqargs(st, A, n)
        def j(I, s, v):
            if not eq(s, s.mon["next"], n): return False, "ends after testing %r of %r elements" % (s.mon["next"], n)
            if s.mon["pending"] is not None: return False, "leaves a kept element behind"
            if iters: 
                i = I.div_exact(v.off, ES) if v.__class__ is Ptr and v.o is A else None
                return eq(s, i, s.mon["kept"]), "returns position %r, %r elements are kept" % (i, s.mon["kept"])
            if not s.mon["erased"] and not eq(s, s.mon["kept"], n): return False, "does not erase the elements that are not kept"
            return v == a[0], "does not return the container"
        go(st, a + [cell(st, TAG)], j)
    elif base == "reverse":
        st, A, n = start(mode="reverse"); a = seqargs(st, A, n)
        def j(I, s, v):
            left = lsub(n, lscale(s.mon["next"], 2))
            if not (s.num.entails(left) and s.num.entails(lsub(1, left))): return False, "ends after %r swaps of %r elements" % (s.mon["next"], n)
            return iters or v == a[0], "does not return the container"
        go(st, a, j)
    elif base in ("sort", "sortP", "sortIP"):
        p = op.endswith("P"); st, A, n = start(mode="sort", pred=int(p)); a = seqargs(st, A, n)
        go(st, a + ([cell(st, TAG)] if p else []), lambda I, s, v: (bool(s.mon["sorted"]) and (iters or v == a[0]), "does not sort the container" if not s.mon["sorted"] else "does not return the container"))

def slices(c, mod, fn, op, cat, std):
    name = "%s:%s:%s" % (NAMES[op], cat, std); tgt = target(mod, fn)
    st, A, n = start(mode="slice")
    lo, hi = atom(T("start")), atom(T("stop"))
    for x in (lo, hi): st.assume_ge(ladd(x, 1 << 63)); st.assume_ge(lsub((1 << 63) - 1, x))
    if op == "slice1": lo = 0
    args = [view(st, A, n)] + ([lo] if op == "slice" else []) + [hi]
    if fn.nargs == len(args) + 1: args = [Ptr(st.new_obj("out", 16), 0)] + args
    I = Interp(mod, slice_models(), dict(exact=("out-of-bounds",), arrgep=1, slots=1))
    outs = I.run(fn, args, st); clean = c.absorb(I, name); k = 0
    for kind, s, v in outs:
        if kind != "ret": c.ob(name, False, "%s throws" % name, **tgt); continue
        r = s.mon["result"]
        if r is None: c.ob(name, None, "no result constructed"); continue
        # every case of the specification that this path leaves open
        def cases(s, conds):
            """[(state, expression)] for (condition >= 0, expression) alternatives tried in order, last one without condition"""
            out = []; cur = s
            for cond, e in conds:
                if cond is None: out.append((cur, e)); break
                q = cur.copy(); w = cur.copy()
                if (cond >= 0 if cond.__class__ is int else q.assume_ge(cond)): out.append((q, e))
                neg = ladd(lscale(cond, -1), -1)
                if not (neg >= 0 if neg.__class__ is int else w.assume_ge(neg)): break
                cur = w
            return out
        for s1, a in cases(s, [(lo, None), (ladd(lo, n), ladd(lo, n)), (None, 0)]):
            # start: >= 0 as it is; else counted from the end; else 0
            for s2, a2 in ([(s1, a)] if a is not None else cases(s1, [(lsub(n, lo), lo), (None, n)])):
                for s3, b in cases(s2, [(lsub(hi, n), n), (hi, hi), (ladd(hi, n), ladd(hi, n)), (None, 0)]):
                    for s4, sel in cases(s3, [(ladd(lsub(b, a2), -1), True), (None, False)]):
                        k += 1; s4.wide = s.wide
                        if sel: ok = r[0] != "empty" and s4.num.entails_eq(lsub(r[0], a2)) and s4.num.entails_eq(lsub(r[1], b))
                        else: ok = r[0] == "empty" or s4.num.entails_eq(lsub(r[1], r[0]))
                        got = "nothing" if r[0] == "empty" else "[%r, %r)" % r
                        c.ob(name, ok or (None if s.wide else False), "%s selects %s where [%r, %r) is asked for%s" % (name, got, a2, b, "" if sel else " (nothing)"), **tgt)
    if not k and clean: c.ob(name, None, "no outcome")

def entries(mod):
    for f in mod.funcs.values():
        if f.decl or "_" not in f.name or f.name.startswith("_Z"): continue
        op, cat = f.name.rsplit("_", 1)
        if op in NAMES: yield f, op, cat

def check(pid, want, rule, least):
    c = Check(pid, rule)
    jobs = []
    for cfg in ir.buildable("transform.cpp", [dict(std="c++14"), dict(std="c++17"), dict(std="c++20")], c):
        mod = ir.compile_module("transform.cpp", std=cfg["std"], passes="sroa"); std = cfg["std"]
        es = [e for e in entries(mod) if e[1].startswith("slice") == (want == "slice")]
        for k in range(3):
            def job(c, mod=mod, es=es[k::3], std=std):
                for fn, op, cat in es: (slices if want == "slice" else run)(c, mod, fn, op, cat, std)
            jobs.append(job)
        def less(c, mod=mod, std=std):
            fn = mod.entry("less_mrnd")
            for r in (-1, 0, 1):
                st = State(); a, b = [Ptr(st.new_obj("input", 4, name=x), 0) for x in ("left", "right")]
                ms = models.base()
                def lt(I, st, ins, f, args):
                    x, y = args[-2:]
                    if (x, y) == (a, b): return [(st, int(r < 0))]
                    if (x, y) == (b, a): return [(st, int(r > 0))]
                    raise Undecided("comparison of other values")
                ms["*"].append((lambda f: f.decl and f.norm == "operator<", lt))
                I = Interp(mod, ms); outs = I.run(fn, [a, b], st); c.absorb(I, "default order")
                for kind, s, v in outs: c.ob("default order:" + std, v == int(r < 0) if v.__class__ is int else None, "pluto::is_less(left, right) gives %r" % (v,), **target(mod, fn))
        if want != "slice": jobs.append(less)
    c.parallel(jobs)
    c.require("obligations", len(c.obs), least if not c.viol and not c.und else 1)
    return c
def c28():
    c = check("C28", "transform", "visit-order ghost state: containers of any length whose elements are positions; predicates, functions, assignments and swaps are opaque and compared with a ghost count of elements visited, kept and written", 200)
    c.assumptions = ["std::sort meets its contract; the other algorithms are analysed as code", "predicates and functions do not change the container"]
    return c
def c29():
    c = check("C29", "slice", "linear relations between the container's length, start and stop: every path of slice is compared with each case of the clamping rule, for forward, bidirectional and random-access iterators; every position formed stays within the container", 30)
    c.assumptions = ["containers of up to 2^40 elements", "the result is built by the container's own iterator-pair constructor"]
    return c
