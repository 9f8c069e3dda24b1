"""C19: scope guards."""
from sa.dom import *
from sa.interp import *
from sa import models as M, ir, conc
from sa.check import Check

G = ("exit", "success", "fail")
PUSH_F = ("push_front", "emplace_front")
POP_F = ("pop_front",)
TOP_F = ("front",)
PUSH_B = ("push", "push_back", "emplace", "emplace_back")
POP_B = ("pop", "pop_back")
TOP_B = ("top", "back")

class Mon(conc.Monitor):
    P = dict(lock="C19", wait="C19", join="C19", life="C19")
    def __init__(self): conc.Monitor.__init__(self); self.lambda_bodies = {}; self.body_args = {}; self.calls = 0
    def closurecall(self, I, st, v, args): return None
    def empty_call(self, I, st): return False
    def closure_size(self, I, st, p, g): raise Undecided("closure in a scope guard")
    def destroy_member(self, *a): pass
    def destroyed(self, I, st, tok): pass
    def usercall(self, I, st, tok, args, ins):
        m = st.mon; self.calls += 1
        out = []
        if st.tf.get(T("nonempty", tok)) == 0: return [(st, Throw("_ZTISt17bad_function_call", "empty"))]
        if T("nonempty", tok) not in st.tf:
            e = st.copy(); e.tf[T("nonempty", tok)] = 0; out.append((e, Throw("_ZTISt17bad_function_call", "empty")))
            st.tf[T("nonempty", tok)] = 1
        if m["phase"] != "dtor": I.violate(st, "task-run-early", "a task is run before the guard is destroyed"); return [(st, DROP)]
        if m["run"] is False: I.violate(st, "runs-against-condition", "a task is run although the condition of the guard does not hold"); return [(st, DROP)]
        i = [j for j, e in enumerate(m["open"]) if e[0] is tok]
        if not i or m["open"][i[0]][1]: I.violate(st, "task-run-twice", "a task is run more than once"); return [(st, DROP)]
        i = i[0]; e = m["open"][i]
        if e[4] == 2: I.violate(st, "task-order", "the oldest task is run first although there are others"); return [(st, DROP)]
        if not e[4] and any(not x[1] and st.tf.get(T("nonempty", x[0])) != 0 for x in m["open"][:i]): I.violate(st, "task-order", "a task is run although one added later has not run yet"); return [(st, DROP)]
        m["open"] = m["open"][:i] + (() if e[2] else ((tok, 1, 0, e[3], e[4]),)) + m["open"][i + 1:]
        # the task may add another one, and may throw
        k = m["guard"]
        for add in (0, 1):
            for thr in (0, 1):
                s = st.copy()
                if add:
                    m2 = s.mon; c = s.models[k]
                    cont_push(self, I, s, k, s.fresh("task"))
                    s.note("the task adds another task")
                if thr: s.note("the task throws"); out.append((s, Throw(None, "task")))
                else: out.append((s, None))
        return out

# container value: ("tasks", number of older tasks not looked at yet, (objects of the newer ones, oldest first))
# st.mon["open"]: (task, run, removed, object, exempt from the order), newest first
def cont_push(mon, I, st, k, tok):
    c = st.models[k]; m = st.mon
    o = st.new_obj("task", 32, name="task"); st.models[(o, 0)] = ("fn", tok)
    # a task taken out earlier is already being processed: it keeps its place
    m["open"] = ((tok, 0, 0, o, 0),) + tuple(e[:4] + (1,) if e[2] else e for e in m["open"])
    st.models[k] = ("tasks", c[1], c[2] + (o,))
def materialise(mon, I, st, k):
    """the newest element, or None if the container may be empty"""
    c = st.models[k]
    if c[2]: return c[2][-1]
    if not st.num.entails(ladd(c[1], -1)): return None
    o = st.new_obj("task", 32, name="task"); tok = st.fresh("task"); st.models[(o, 0)] = ("fn", tok)
    st.mon["open"] = st.mon["open"] + ((tok, 0, 0, o, 0),)
    st.models[k] = ("tasks", ladd(c[1], -1), (o,))
    return o
def prune(st):
    st.mon["open"] = tuple(e for e in st.mon["open"] if not (e[2] and st.tf.get(T("nonempty", e[0])) == 0))
def size(st, c): return ladd(c[1], len(c[2]))

def check():
    c = Check("C19", "typestate of every task from the moment it is added to the destruction of the guard, over every exceptional edge; the guard's condition is compared with the number of uncaught exceptions when it was created and when it is destroyed")
    for cfg in ir.buildable("scope.cpp", [dict(std="c++20"), dict(std="c++14")], c):
        std = cfg["std"]
        mod = ir.compile_module("scope.cpp", std=std)
        for g in G: guard(c, mod, g, std)
    c.assumptions = ["std::function, the task container and the exception runtime follow their contracts", "before C++17 guards are not created during stack unwinding (the language gives no way to tell)"]
    return c

def guard(c, mod, g, std):
    w = {}
    for f in mod.funcs.values():
        if f.norm == "pluto::on_scope_%s::~on_scope_%s" % (g, g) and not f.decl: w = dict(file=f.file, line=f.line, function=f.dem)
    for what, text in (("copyable", "can be copied"), ("movable", "can be moved"), ("throwing", "has a destructor that may throw")):
        st = State(); I = Interp(mod, M.base())
        r = I.load(st, Ptr(("g", "%s_%s" % (what, g)), 0), 4, "i32")
        c.ob("%s:%s:%s" % (what, g, std), r == 0, "on_scope_%s %s" % (g, text), **w)
    pd = set(); D = ["back"]
    for e in ("empty", "ctor1", "add", "ctor0"):
        if e == "ctor0" and len(pd) == 1: D[0] = list(pd)[0]
        runs(c, mod, g, std, e, w, pd, D)
    c.ob("one-end:%s:%s" % (g, std), len(pd) <= 1, "tasks are added at both ends of the list", **w)

def runs(c, mod, g, std, entry, w, pd, D):
    mon = Mon(); ms = M.base(); conc.install(ms, mon)
    conts = {}
    def is_cont(fn):
        n = fn.norm
        for t in ("stack", "deque", "vector", "list"):
            if n.startswith("std::%s::" % t) or n.startswith("std::__cxx11::%s::" % t):
                return t, n.rsplit("::", 1)[1]
        return None
    def cmodel(fn):
        t = is_cont(fn)
        return t is not None and "std::function" in fn.dem.split("::" + t[1] + "(")[0]
    def h(I, st, ins, fn, args):
        t, n = is_cont(fn); k = (args[0].o, args[0].off)
        cv = st.models.get(k)
        if n in ("stack", "deque", "vector", "list") and len(args) == 1:
            st.models[k] = ("tasks", 0, ())
            if st.mon["phase"] == "life": st.mon["guard"] = k
            return [(st, None)]
        if n in ("stack", "deque", "vector", "list", "operator=", "swap") and len(args) == 2 and args[1].__class__ is Ptr and st.models.get((args[1].o, args[1].off), (0,))[0] == "tasks":
            k2 = (args[1].o, args[1].off); o2 = st.models[k2]
            if n == "swap": st.models[k2] = cv or ("tasks", 0, ())
            elif "&&" in fn.params: st.models[k2] = ("tasks", 0, ())
            elif o2[2]: raise Undecided("copy of the task container")
            else: raise Undecided("copy of the task container")
            st.models[k] = o2
            return [(st, args[0] if n == "operator=" else None)]
        if n in ("~stack", "~deque", "~vector", "~list"):
            s = size(st, cv) if cv else 0
            if st.mon["left"] is None or not st.num.entails_eq(s): st.mon["left"] = s
            return [(st, None)]
        if cv is None or cv[0] != "tasks": raise Undecided("unknown container state in " + fn.dem[:80])
        prune(st)
        if n in ("empty", "size"):
            s = size(st, cv)
            if n == "size": return [(st, s)]
            return [(st, I.cmp(st, "eq", s, 0, 64))]
        newest = st.mon["dir"]
        if n in PUSH_B + PUSH_F and st.mon["entry"] != "ctor0":
            pd.add("front" if n in PUSH_F else "back")
            a = args[1]
            v = mon.fload(I, st, a)
            o = st.new_obj("task", 32, name="task"); st.models[(o, 0)] = ("fn", v)
            st.models[k] = ("tasks", cv[1], cv[2] + (o,)); st.mon["pushed"] = st.mon["pushed"] + (v,)
            return [(st, Ptr(o, 0))]
        if n in (TOP_F if newest == "back" else TOP_B) + (POP_F if newest == "back" else POP_B):
            s = size(st, cv)
            if not st.num.entails(ladd(s, -1)): raise Violation("empty-container", "a task is accessed although there may be none")
            if len(cv[2]) == 0 and st.mon.get("old") is None and not st.num.entails_eq(ladd(s, -1)):
                a = st.copy(); b = st.copy(); alts = []
                if a.assume_eq(ladd(s, -1)): alts.append(a)
                if b.assume_ge(ladd(s, -2)): 
                    o = b.new_obj("task", 32, name="task"); tok = b.fresh("task"); b.models[(o, 0)] = ("fn", tok)
                    b.mon["open"] = b.mon["open"] + ((tok, 0, 0, o, 2),); b.mon["old"] = o; alts.append(b)
                raise Split(alts)
            o = st.mon.get("old")
            if o is not None:
                if n in TOP_F + TOP_B: return [(st, Ptr(o, 0))]
                st.models[k] = ("tasks", ladd(cv[1], -1), cv[2]); st.mon["old"] = None; taken(I, st, o); st.objs[o] = dict(st.objs[o], dead=True)
                return [(st, None)]
            if len(cv[2]) > 1 or len(cv[2]) == 1 and not st.num.entails_eq(cv[1]): raise Undecided("tasks accessed from both ends")
            n = TOP_B[0] if n in TOP_F + TOP_B else POP_B[0]; newest = "back"
        if n in (TOP_B if newest == "back" else TOP_F):
            o = materialise(mon, I, st, k)
            if o is None: raise Violation("empty-container", "the last task is read although there may be none")
            return [(st, Ptr(o, 0))]
        if n in (POP_B if newest == "back" else POP_F):
            o = materialise(mon, I, st, k)
            if o is None: raise Violation("empty-container", "a task is removed although there may be none")
            cv = st.models[k]; st.models[k] = ("tasks", cv[1], cv[2][:-1])
            taken(I, st, o)
            st.objs[o] = dict(st.objs[o], dead=True)
            return [(st, None)]
        raise Undecided("unmodelled container operation " + fn.dem[:100])
    def taken(I, st, o):
        m = st.mon
        m["open"] = tuple((e[0], e[1], 1, e[3], e[4]) if e[3] is o else e for e in m["open"] if not (e[3] is o and e[1]))
    ms["*"].append((cmodel, h))
    def havoc(I, st, ins, fn, args):
        k = st.mon["guard"]
        if k is None: raise Undecided("no task container found in the guard")
        n = atom(st.fresh("tasks")); st.assume_ge(n); st.models[k] = ("tasks", n, ())
        st.note("any number of tasks is added")
        return [(st, None)]
    ms["havoc"] = havoc
    def phase(I, st, ins, fn, args):
        out = []
        for how in ("normal", "exception"):
            s = st.copy(); u0 = s.mon["u0"]
            if std == "c++14" : u1 = 0 if how == "normal" else 1
            elif how == "normal": u1 = u0
            else:
                u1 = ladd(u0, 1)
            s.mon.update(phase="dtor", u1=u1, how=how, run={"exit": True, "success": how == "normal", "fail": how == "exception"}[g])
            s.note("the scope is left " + ("normally" if how == "normal" else "by an exception"))
            out.append((s, None))
        return out
    ms["phase"] = phase
    def unc(I, st, ins, fn, args): return [(st, st.mon["u1"] if st.mon["phase"] == "dtor" else st.mon["u0"])]
    def unc1(I, st, ins, fn, args):
        u = st.mon["u1"] if st.mon["phase"] == "dtor" else st.mon["u0"]
        return [(st, I.cmp(st, "ne", u, 0, 32))]
    ms["std::uncaught_exceptions"] = unc; ms["std::uncaught_exception"] = unc1
    I = Interp(mod, ms, dict(nowrap=True)); st = State()
    u0 = atom(T("uncaught")); st.assume_ge(u0); st.assume_ge(lsub(1000, u0))
    if std == "c++14": u0 = 0
    st.mon = dict(held=(), phase="life", u0=u0, u1=u0, run=None, how="", open=(), guard=None, dir=D[0], entry=entry, old=None, pushed=(), left=None, role=None)
    gobj = st.new_obj("guard", None, name="guard", lazy=False)
    args = [Ptr(gobj, 0)]
    if entry in ("ctor1", "add"):
        o = st.new_obj("arg", 32, name="task"); st.models[(o, 0)] = ("fn", T("arg-task")); args.append(Ptr(o, 0))
    name = "%s_%s" % (entry, g)
    if entry == "add":
        # a guard as its default constructor leaves it, with any number of tasks
        I0 = Interp(mod, ms, dict(nowrap=True))
        outs = I0.run(mod.entry("empty_" + g), args[:1], st)
        c.absorb(I0, name)
        outs = [s for k_, s, v in outs if k_ == "ret"]
        if len(outs) != 1: raise ir.AnalysisBroken("construction of on_scope_%s" % g)
        st = outs[0]; k = st.mon["guard"]
        if k is None: raise ir.AnalysisBroken("no task container found in on_scope_" + g)
        n = atom(T("tasks")); st.assume_ge(n); st.models[k] = ("tasks", n, ()); st.trace = None
    outs = I.run(mod.entry(name), args, st)
    clean = c.absorb(I, name)
    nret = 0
    for kind, s, v in outs:
        m = s.mon
        if kind == "throw":
            if entry == "ctor0": c.ob("%s:%s:escape" % (name, std), False, "an exception escapes from the destructor of on_scope_%s" % g, **w)
            continue
        if kind != "ret": continue
        nret += 1
        k = m["guard"]
        if entry == "empty":
            c.ob("%s:%s:starts-empty" % (name, std), k is not None and m["pushed"] == () , "a guard created without a task already has one", **w)
        elif entry in ("ctor1", "add"):
            cv = s.models.get(k)
            top = s.models.get((cv[2][-1], 0), (0, None))[1] if cv and cv[2] else None
            ok = cv is not None and len(m["pushed"]) == 1 and top is T("arg-task") and len(cv[2]) == 1
            if not ok and s.tf.get(T("nonempty", T("arg-task"))) == 0 and not m["pushed"]: ok = True   # an empty task may be dropped
            c.ob("%s:%s:added-last" % (name, std), ok, "the task is not added exactly once as the newest one", **dict(w, path=[str(x) for x in s.trace_list()][-10:]))
        else:
            if m["run"]:
                lost = [t for t, run, _, _, _ in m["open"] if not run and s.tf.get(T("nonempty", t)) != 0]
                c.ob("%s:%s:all-run" % (name, std), not lost, "a task of the guard is removed without being run", **dict(w, path=[t for t, x in s.trace_list()][-12:]))
                left = m["left"]
                c.ob("%s:%s:none-left" % (name, std), left is not None and s.num.entails_eq(left), "the guard is destroyed (scope left %s) with tasks that were not run" % ("normally" if m["how"] == "normal" else "by an exception"), **dict(w, path=[t for t, x in s.trace_list()][-12:]))
            else: c.ob("%s:%s:none-run" % (name, std), True)
    if clean and not nret: c.und.append(dict(rule=name, msg="no path returns", file=w.get("file"), line=w.get("line")))
