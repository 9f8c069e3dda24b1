"""C16 / C17 / C18: least-recently-used cache."""
from sa.dom import *
from sa.interp import *
from sa import models as M, ir
from sa.shape import *
from sa.check import Check

CAP = atom(T("in", "capacity")); NEWCAP = atom(T("in", "new capacity"))
LT = ("-O1", "-Xclang", "-disable-llvm-passes")   # lifetime markers
CONFIGS = (dict(std="c++20", extra=LT), dict(std="c++14", extra=LT))

class Locks:
    """lock monitor of the thread-safe cache: st.mon["lock"] in (None, "shared", "unique")"""
    def install(self, ms, S):
        def acq(mode):
            def h(I, st, ins, fn, args):
                if st.mon.get("lock"): raise Violation("lock", "the cache's mutex is locked again while it is held")
                st.mon["lock"] = mode; st.mon["sections"] = st.mon.get("sections", 0) + 1; st.mon["touched"] = st.mon.get("touched", ())
                return [(st, None)]
            return h
        def tryacq(mode):
            def h(I, st, ins, fn, args):
                s = st.copy(); r = acq(mode)(I, st, ins, fn, args)
                return [(st, 1), (s, 0)]
            return h
        def rel(mode):
            def h(I, st, ins, fn, args):
                if st.mon.get("lock") != mode: raise Violation("lock", "unlock of a mutex that is not held in that mode")
                st.mon["lock"] = None
                return [(st, None)]
            return h
        for c in ("std::shared_mutex::", "std::shared_timed_mutex::", "std::__shared_mutex_pthread::", "std::__shared_timed_mutex_base::"):
            ms[c + "lock"] = acq("unique"); ms[c + "lock_shared"] = acq("shared"); ms[c + "unlock"] = rel("unique"); ms[c + "unlock_shared"] = rel("shared")
            ms[c + "try_lock"] = tryacq("unique"); ms[c + "try_lock_shared"] = tryacq("shared")
        def access(I, st, write, what, owner):
            if not st.mon.get("watch") or (owner is not None and owner[0] != st.mon["watch"]): return
            m = st.mon.get("lock")
            if m is None: raise Violation("unlocked", "%s is %s without the cache's lock" % (what, "changed" if write else "read"))
            if write and m != "unique": raise Violation("shared-write", "%s is changed under a shared lock" % what)
            n = st.mon["sections"]; t = st.mon["touched"]
            if n not in t: st.mon["touched"] = t + (n,)
            if len(st.mon["touched"]) > 1: raise Violation("not-atomic", "the operation touches the cache in more than one critical section")
        S.access = access

class Env: pass

def interp(mod, throwing=True, locks=False):
    S = Shape(); ms = M.base(); I = Interp(mod, ms, dict(widen_after=2, nowrap=True, lifetimes=True, exact=("list-map", "contents", "result", "capacity")))
    install(I, ms, S, throwing)
    L = Locks()
    if locks: L.install(ms, S)
    if locks:
        def ctor0(I, st, ins, fn, args): return [(st, None)]
        for c in ("std::shared_mutex::shared_mutex", "std::shared_timed_mutex::shared_timed_mutex", "std::__shared_mutex_pthread::__shared_mutex_pthread", "std::__shared_timed_mutex_base::__shared_timed_mutex_base",
                  "std::shared_mutex::~shared_mutex", "std::shared_timed_mutex::~shared_timed_mutex", "std::__shared_mutex_pthread::~__shared_mutex_pthread", "std::__shared_timed_mutex_base::~__shared_timed_mutex_base"): ms[c] = ctor0
        base_load, base_store = S.on_load, S.on_store
        def cell(I, st, p, write):
            e = st.mon.get("cells")
            if e and st.mon.get("watch") == p.o and p.off in e: S.access(I, st, write, "the cache's capacity", (p.o, p.off))
        def on_load(I, st, p, size, ty):
            cell(I, st, p, False); return base_load(I, st, p, size, ty)
        def on_store(I, st, p, size, v):
            cell(I, st, p, True); return base_store(I, st, p, size, v)
        I.on_load = on_load; I.on_store = on_store
    return I, S

def construct(mod, prefix, throwing=False):
    """runs the constructor: offsets of list, map and capacity inside the cache object"""
    I, S = interp(mod, throwing, prefix == "s"); st = State(); st.ghost = {"pre": {}}
    st.assume_ge(CAP); st.assume_ge(lsub((1 << 40), CAP))
    o = st.new_obj("cache", None, name="cache")
    outs = I.run(prefix + "_ctor", [Ptr(o, 0), CAP], st)
    r = [s for k, s, v in outs if k == "ret"]
    if len(r) != 1: return I, None, None, [k for k, s, v in outs]
    s = r[0]
    ls = [k for k, v in s.models.items() if v[0] == "list"]; mp = [k for k, v in s.models.items() if v[0] == "map"]
    if len(ls) != 1 or len(mp) != 1: return I, None, None, "shape"
    cells = []; odd = []
    for off, (sz, v) in s.mem[o].items():
        if off.__class__ is not int: continue
        if ls[0][1] <= off < ls[0][1] + 24 or mp[0][1] - 8 <= off < mp[0][1] + 40: continue
        if sz == 8 and v == CAP: cells.append(off)
        elif prefix == "s": pass
        else: odd.append(off)
    lay = (ls[0][1], mp[0][1], tuple(cells))
    return I, lay, s, "cells" if len(cells) != 1 or odd else None

def general(st, lay, name, o, cap):
    """an arbitrary cache satisfying the invariant"""
    lo, mo, cells = lay
    n = atom(T("in", "size of " + name)); st.assume_ge(n); st.assume_ge(lsub(cap, n))
    sid = T("s", name); cid = T("own", name)
    st.models[(o, lo)] = ("list", (("seg", sid, n, cid),)); st.models[(o, mo)] = ("map", (), (("eseg", sid, cid),))
    st.mem[o] = dict(st.mem.get(o, {}))
    st.mem[o][lo + 16] = (8, n); st.mem[o][mo + 32] = (8, n); st.mem[o][cells[0]] = (8, cap)
    st.ghost["pre"] = dict(st.ghost.get("pre", {})); st.ghost["pre"][name] = (("seg", sid, n),)
    return n

def start(mod, lay, prefix, throwing):
    I, S = interp(mod, throwing, prefix == "s"); st = State(); st.ghost = {"pre": {}}
    st.assume_ge(CAP); st.assume_ge(lsub((1 << 40), CAP))
    return I, S, st

def spec_items(S, st, items):
    """specification contents as comparable items, empty segments dropped"""
    out = []
    for it in items:
        if it[0] == "seg":
            if not st.num.entails_eq(it[2]): out.append(("seg", it[1], it[2]))
        elif it[0] == "c": out.append(("e", S.canon(st, T("key", it[1])), T("val0", it[1])))
        elif it[0] == "gone": out.append(("gone", it[1]))
    return out
def show(items):
    def t(x):
        s = repr(x); return s
    return "[" + ", ".join("..%r" % (i[2],) if i[0] == "seg" else "gone %r" % (i[1],) if i[0] == "gone" else "%s:%s" % (name(i[1]), name(i[2])) for i in items) + "]"
def name(t): return t.op + ("(%s)" % str(t.args[0].op).split("#")[0] if t.args else "")

def possible(st, *ls):
    """could all of ls be >= 0 here?"""
    s = st.copy()
    return all(s.assume_ge(l) for l in ls)

def judge(S, s, kind, v, op, lay, o, wide_ok=True):
    """checks the state after one operation; yields (rule, ok, msg)"""
    lo, mo, cells = lay
    lk, mk = (o, lo), (o, mo)
    got, n = S.sequence(s, lk, mk)
    cap = s.mem[o].get(cells[0], (0, None))[1]
    if cap is None: raise Undecided("capacity unknown")
    if possible(s, ladd(lsub(n, cap), -1)): raise Violation("capacity", "the cache can hold more entries than its capacity")
    if kind == "throw": 
        # any consistent contents made of earlier entries and the new one
        for it in got:
            if it[0] == "e" and it[2] not in (VARG,) and it[2] != (T("val0", it[1].args[0]) if it[1].op == "key" else None): raise Violation("contents", "after an exception an entry holds a value nobody stored for that key")
        return
    if op == "setcap":
        if cap != NEWCAP: raise Violation("result", "capacity(n) does not set the capacity")
    elif cap != CAP: raise Violation("result", "the capacity changes")
    pre = spec_items(S, s, s.ghost["pre"]["A"]); k = s.ghost.get("k"); N = 0
    N = atom(T("in", "size of A"))
    kc = k[1] if k.__class__ is tuple else None
    def need(x, y, what):
        if x != y: raise Violation("contents", "%s: contents afterwards are %s, expected %s" % (what, show(x), show(y)))
    def result(exp):
        if v.__class__ is BV: raise Undecided("result")
        if (v & 1 if v.__class__ is int else v) != exp: raise Violation("result", "%s returns %r, expected %r" % (op, v, exp))
    nogone = [i for i in pre if i[0] != "gone"]
    if op in ("size", "capacity", "empty", "contains"):
        need(got, pre, op)
        if op == "size" and not (v == N or s.num.entails_eq(lsub(v, N))): raise Violation("result", "size() returns %r" % (v,))
        if op == "capacity" and v != CAP: raise Violation("result", "capacity() returns %r" % (v,))
        if op == "empty":
            if v == 1 and possible(s, ladd(N, -1)) or v == 0 and possible(s, lscale(N, -1)): raise Violation("result", "empty() is wrong for size %r" % (N,))
            if v not in (0, 1): raise Undecided("result")
        if op == "contains":
            if k is None: raise Violation("result", "contains() does not look for the key") if possible(s, ladd(N, -1)) else Undecided("key not looked up")
            result(1 if kc else 0)
        return
    if op == "clear": need(got, [], op); return
    if op == "setcap":
        # the most recently used entries remain: a prefix
        keep = pre[:len(got)]
        if got != keep: raise Violation("contents", "capacity(n) does not keep the most recently used entries (contents %s of %s)" % (show(got), show(pre)))
        lost = lsub(N, n)
        if possible(s, ladd(lost, -1)) and possible(s, ladd(lost, -1), ladd(lsub(NEWCAP, n), -1)): raise Violation("contents", "capacity(n) evicts more than necessary")
        return
    absent = k == "absent"
    if k is None:
        if op in ("insert", "assign") and not possible(s, ladd(CAP, -1)): need(got, [], op); return
        if not possible(s, ladd(N, -1)):
            absent = True
        else: raise Violation("contents", "%s does not look for the key" % op)
    ki = [i for i, it in enumerate(s.ghost["pre"]["A"]) if it == ("c", kc)] if kc else []
    cur = ("e", T("key", kc), T("val0", kc)) if kc else None
    if op == "get":
        out = s.models.get((s.mon["out"], 0))
        if absent:
            result(0); need(got, pre, op)
            if out != ("val", T("old")): raise Violation("result", "get() changes the result argument although the key is absent")
        else:
            result(1); need(got, [cur] + [i for i in pre if i != cur], op)
            if out != ("val", T("val0", kc)): raise Violation("result", "get() does not deliver the value stored for the key")
        return
    if op == "remove":
        if absent: result(0); need(got, pre, op)
        else:
            result(1); need(got, [i for i in pre if i != cur], op)
        return
    if op in ("insert", "assign"):
        if not absent:
            result(0)
            new = ("e", T("key", kc), VARG)
            if op == "assign": need(got, [new] + [i for i in pre if i != cur], op)
            elif got != pre: need(got, [cur] + [i for i in pre if i != cur], op)
            return
        new = ("e", KARG, VARG)
        if not possible(s, ladd(CAP, -1)): need(got, [], op); return
        if possible(s, lscale(CAP, -1)): 
            need(got, [], op)   # contents are the same with and without capacity
        result(1)
        full = possible(s, lsub(N, CAP)); room = possible(s, ladd(lsub(CAP, N), -1))
        if full and room:
            raise Violation("contents", "%s does not depend on whether the cache is full" % op)
        if room: need(got, [new] + pre, op + " with room left")
        else:
            # the least recently used entry goes
            raw = s.ghost["pre"]["A"]; last = spec_items(S, s, raw)
            if not last: raise Undecided("full cache without entries")
            if last[-1][0] == "e": need(got, [new] + last[:-1], op + " into a full cache")
            elif last[-1][0] == "seg":
                if [new] + last[:-1] != got or possible(s, ladd(last[-1][2], -2)): raise Violation("contents", "%s into a full cache does not evict exactly the least recently used entry (contents %s of %s)" % (op, show(got), show(last)))
            else: need(got, [new] + last[:-1], op)
        return
    raise Undecided("operation " + op)

OPS = ("size", "capacity", "empty", "contains", "clear", "setcap", "insert", "assign", "get", "remove")
def run_op(mod, lay, prefix, op, throwing):
    """-> (I, list of (rule, ok, msg, state))"""
    I, S, st = start(mod, lay, prefix, throwing)
    o = st.new_obj("cache", None, name="cache"); general(st, lay, "A", o, CAP)
    if prefix == "s": st.mon = {"lock": None, "sections": 0, "touched": (), "watch": o, "cells": lay[2]}
    k = st.new_obj("input", 8, name="key argument"); st.models[(k, 0)] = ("val", KARG)
    v = st.new_obj("input", 8, name="value argument"); st.models[(v, 0)] = ("val", VARG)
    out = st.new_obj("input", 8, name="result argument"); st.models[(out, 0)] = ("val", T("old")); st.mon["out"] = out
    a = [Ptr(o, 0)]
    if op in ("contains", "remove"): a.append(Ptr(k, 0))
    if op in ("insert", "assign"): a += [Ptr(k, 0), Ptr(v, 0)]
    if op == "get": a += [Ptr(k, 0), Ptr(out, 0)]
    if op == "setcap": st.assume_ge(NEWCAP); st.assume_ge(lsub(1 << 40, NEWCAP)); a.append(NEWCAP)
    fn = mod.entry(prefix + "_" + op)
    outs = I.run(fn, a, st)
    return I, S, outs, o, fn

def conclude(c, I, S, outs, op, lay, o, where, name, aspect, extra=None):
    n = dict(ret=0, throw=0)
    if aspect == "C16" or aspect == "C17":
        mine = [v for v in I.violations]
    for kind, s, v in outs:
        if kind not in ("ret", "throw"): continue
        if aspect == "C16" and kind == "throw" or aspect == "C17" and kind == "ret" and extra is None: continue
        n[kind] += 1
        s.mon["watch"] = None
        try:
            if extra: extra(S, s, kind, v)
            else: judge(S, s, kind, v, op, lay, o)
            c.obs.append(("%s:%s" % (name, kind), True, "state after the operation matches"))
        except Violation as e:
            path = ["%s%s" % (t, " (%s:%s)" % (x[0].split("/")[-1], x[1]) if x and x[0] else "") for t, x in s.trace_list()][-30:]
            if s.wide: c.ob("%s:%s" % (name, e.rule), None, "after a loop was generalised: " + e.msg, **where)
            else: c.ob("%s:%s" % (name, e.rule), False, ("after an exception (%s): " % v.what if kind == "throw" else "") + e.msg, path=path, **where)
        except Undecided as e: c.ob("%s:%s" % (name, "decided"), None, e.msg, **where)
        except (TypeError, KeyError, AttributeError, IndexError, ValueError) as e: c.ob("%s:decided" % name, None, "%s %s" % (e.__class__.__name__, e), **where)
    for v in I.violations: c.violation(**v)
    for u in I.undecided: c.und.append(dict(rule=name, **u))
    c.note_fns(I)
    for k, x in I.stats.items(): c.stats[k] = c.stats.get(k, 0) + x
    if not I.undecided: c.obs.append(("%s:clean" % name, not I.violations, "no invalid access on %d paths" % I.stats["paths"]))
    return n

def target(mod, fn):
    from checks.order import target as t
    return t(mod, fn)

def layout(c, cfg, prefix):
    mod = ir.compile_module("lru.cpp", **cfg)
    g = mod.globals.get("shape_ok"); okc = g and g.get("init") and g["init"][0][2][0] == "i" and int(g["init"][0][2][2]) == 1
    I, lay, s, bad = construct(mod, prefix)
    fn = mod.entry(prefix + "_ctor"); w = target(mod, fn)
    if not okc or lay is None or bad:
        c.ob("%s_ctor:%s" % (prefix, cfg["std"]), None, "the cache is not represented by a list of keys and a map to values and list positions", **w)
        for v in I.violations: c.violation(**v)
        return mod, None
    return mod, lay

def ctor(c, mod, lay, prefix, aspect, cfg):
    I, lay2, s, bad = construct(mod, prefix, aspect == "C17")
    fn = mod.entry(prefix + "_ctor"); w = target(mod, fn)
    if s is None: return
    o = [k for k, v in s.models.items() if v[0] == "list"][0][0]
    try:
        S = Shape(); got, n = S.sequence(s, (o, lay[0]), (o, lay[1]))
        c.ob("%s_ctor:%s" % (prefix, cfg["std"]), got == [], "a new cache is %sempty" % ("" if got == [] else "not "), **w)
    except Undecided as e: c.ob("%s_ctor:%s" % (prefix, cfg["std"]), None, e.msg, **w)
    except Violation as e: c.ob("%s_ctor:%s" % (prefix, cfg["std"]), False, e.msg, **w)
    c.note_fns(I)

ASSUME = ["std::list and std::map follow their contract; keys are ordered consistently by std::less", "destructors do not throw", "capacity of at most 2^40"]

def c16():
    c = Check("C16", "shape analysis: every operation is interpreted from an arbitrary cache that satisfies the invariant (list and map in bijection, any number of entries, any capacity); the contents and order afterwards, the results and the invariant are compared with the specification on every path")
    jobs = []
    for cfg in ir.buildable("lru.cpp", CONFIGS, c):
        mod, lay = layout(c, cfg, "c")
        if lay is None: continue
        ctor(c, mod, lay, "c", "C16", cfg)
        for op in OPS:
            def job(c, op=op, mod=mod, lay=lay, cfg=cfg):
                I, S, outs, o, fn = run_op(mod, lay, "c", op, False)
                n = conclude(c, I, S, outs, op, lay, o, target(mod, fn), "%s:%s" % (op, cfg["std"]), "C16")
                if not n["ret"] and not I.violations and not I.undecided: c.ob("%s:%s" % (op, cfg["std"]), False, "the operation never returns", **target(mod, fn))
            jobs.append(job)
    c.parallel(jobs)
    c.assumptions = ASSUME + ["no operation of a key or value throws (see C17)"]
    return c

def c17():
    c = Check("C17", "shape analysis with a throw at every copy, assignment and allocation; copies, moves and assignments are compared with the source's contents, order and capacity, and must own their nodes")
    jobs = []
    for cfg in ir.buildable("lru.cpp", CONFIGS, c):
        mod, lay = layout(c, cfg, "c")
        if lay is None: continue
        for op in OPS:
            def job(c, op=op, mod=mod, lay=lay, cfg=cfg):
                I, S, outs, o, fn = run_op(mod, lay, "c", op, True)
                I.violations = [v for v in I.violations if v["rule"] not in ("result", "contents", "capacity")]
                conclude(c, I, S, outs, op, lay, o, target(mod, fn), "%s:%s" % (op, cfg["std"]), "C17")
            jobs.append(job)
        for op in ("copy", "move", "copyassign", "moveassign", "selfassign", "dtor"):
            def job(c, op=op, mod=mod, lay=lay, cfg=cfg):
                special(c, op, mod, lay, cfg)
            jobs.append(job)
    c.parallel(jobs)
    c.assumptions = ASSUME
    return c

CAPB = atom(T("in", "capacity of B"))
def special(c, op, mod, lay, cfg):
    I, S, st = start(mod, lay, "c", True)
    st.assume_ge(CAPB); st.assume_ge(lsub((1 << 40), CAPB))
    a = st.new_obj("cache", None, name="this cache"); b = st.new_obj("cache", None, name="other cache")
    if op in ("copyassign", "moveassign", "selfassign", "dtor"): general(st, lay, "A", a, CAP)
    if op not in ("selfassign", "dtor"): general(st, lay, "B", b, CAPB)
    fn = mod.entry("c_" + {"selfassign": "copyassign"}.get(op, op))
    args = [Ptr(a, 0)] + ([Ptr(b, 0)] if op != "dtor" else [])
    if op == "selfassign": args = [Ptr(a, 0), Ptr(a, 0)]
    outs = I.run(fn, args, st)
    lo, mo, cells = lay
    def seq(S, s, o, who):
        try: return S.sequence(s, (o, lo), (o, mo))
        except Violation as e: raise Violation(e.rule, who + ": " + e.msg)
    def extra(S, s, kind, v):
        def capof(o): return s.mem[o].get(cells[0], (0, None))[1]
        def same(got, nm, who):
            exp = spec_items(S, s, s.ghost["pre"][nm])
            if got != exp: raise Violation("contents", "%s: contents are %s, expected %s" % (who, show(got), show(exp)))
        if op == "dtor": return
        if op == "selfassign":
            got, n = seq(S, s, a, "cache assigned to itself")
            if kind == "ret": same(got, "A", "cache assigned to itself")
            return
        moved = op.startswith("move")
        if kind == "throw":
            gb, n = seq(S, s, b, "source after an exception")
            if not moved: same(gb, "B", "source after an exception")
            if op.endswith("assign"): seq(S, s, a, "target after an exception")
            return
        ga, n = seq(S, s, a, "new cache"); same(ga, "B", "new cache")
        if capof(a) != CAPB: raise Violation("contents", "the capacity is not taken over")
        gb, nb = seq(S, s, b, "moved-from cache" if moved else "source")
        if not moved:
            same(gb, "B", "source")
            if capof(b) != CAPB: raise Violation("contents", "the source's capacity changes")
        else:
            cb = capof(b)
            if cb is None or possible(s, ladd(lsub(nb, cb), -1)): raise Violation("capacity", "a moved-from cache exceeds its capacity")
    conclude(c, I, S, outs, op, lay, a, target(mod, fn), "%s:%s" % (op, cfg["std"]), "C17", extra)
    if not any(k == "ret" for k, s, v in outs) and not I.violations and not I.undecided: c.ob("%s:%s" % (op, cfg["std"]), False, "the operation never returns", **target(mod, fn))

def c18():
    c = Check("C18", "lock monitor over the shape analysis of the thread-safe cache: every read of cache state happens under the cache's lock, every change under the exclusive lock, in one critical section per operation, and results and contents equal the plain cache's specification")
    jobs = []
    for cfg in ir.buildable("lru.cpp", CONFIGS, c):
        mod, lay = layout(c, cfg, "s")
        if lay is None: continue
        for op in OPS:
            def job(c, op=op, mod=mod, lay=lay, cfg=cfg):
                I, S, outs, o, fn = run_op(mod, lay, "s", op, True)
                w = target(mod, fn); name = "%s:%s" % (op, cfg["std"])
                conclude(c, I, S, outs, op, lay, o, w, name, "C18")
                for kind, s, v in outs:
                    if kind not in ("ret", "throw"): continue
                    if s.mon["lock"]: c.ob("released:" + name, False, "the lock is still held when the operation ends", **w)
                    else: c.obs.append(("released:" + name, True, ""))
                    if kind == "ret" and v.__class__ is Ptr: c.ob("no-escape:" + name, False, "a reference into the cache leaves the critical section", **w)
            jobs.append(job)
    c.parallel(jobs)
    c.assumptions = ASSUME + ["std::shared_mutex provides mutual exclusion"]
    return c
