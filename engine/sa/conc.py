"""Thread-modular models: mutexes, condition variables, threads and type-erased
callables of one shared object.  Each public operation and each thread body is
analysed on its own; whenever it acquires the lock, the shared state is
forgotten (any other thread may have run) except for what no other thread can
change.  Violations carry the properties they concern in square brackets."""
from .dom import *
from .interp import *
from . import models as M

def fparams(fn): return fn.params
def isfn(v): return v.__class__ is tuple and v and v[0] == "fn"

class Monitor:
    """hooks a check can override"""
    def __init__(self): self.used = {}
    def acquire(self, I, st, m): pass
    def release(self, I, st, m, how): pass
    def wait(self, I, st, cv, until): return None
    def notify(self, I, st, cv, all_): pass
    def usercall(self, I, st, tok, args): pass
    def destroyed(self, I, st, tok): pass
    def spawn(self, I, st, thr): pass
    def joined(self, I, st, p): pass
    def detached(self, I, st, p): pass
    def access(self, I, st, p, write): pass
    def blocking(self, I, st, what): pass
    # synchronisation objects of the operation itself (on its stack or heap)
    def local_acquire(self, I, st, k): pass
    def local_release(self, I, st, k): pass
    def local_notify(self, I, st, k): pass

def soft(I, st, props, rule, msg):
    I.violate(st, "[%s] %s" % (props, rule), msg)

def shared(st, p): return p.__class__ is Ptr and p.o in st.objs and st.objs[p.o].get("kind") == "shared"

def install(ms, mon):
    # ---------------- mutex: the state of mutex (o, off) is in st.mon["held"]
    def key(st, p):
        if p.__class__ is not Ptr: raise Undecided("mutex through %r" % (p,))
        return (p.o, p.off)
    def lock(I, st, ins, fn, args):
        k = key(st, args[0])
        if not shared(st, args[0]):
            st.mon["lheld"] = st.mon.get("lheld", ()) + (k,); mon.local_acquire(I, st, k); return [(st, None)]
        if k in st.mon["held"]:
            soft(I, st, mon.P["lock"], "double-lock", "the calling thread locks a mutex it already holds")
            return [(st, DROP)]
        mon.blocking(I, st, "lock")
        st.mon["held"] = st.mon["held"] + (k,); st.note("lock", I.loc(st)[:2])
        mon.acquire(I, st, k)
        return [(st, None)]
    def try_lock(I, st, ins, fn, args):
        if not shared(st, args[0]): raise Undecided("try_lock of a local mutex")
        k = key(st, args[0]); a = st; b = st.copy()
        if k in st.mon["held"]: return [(st, 0)]
        a.mon["held"] = a.mon["held"] + (k,); mon.acquire(I, a, k)
        return [(a, 1), (b, 0)]
    def unlock(I, st, ins, fn, args):
        k = key(st, args[0])
        if not shared(st, args[0]):
            st.mon["lheld"] = tuple(x for x in st.mon.get("lheld", ()) if x != k); mon.local_release(I, st, k); return [(st, None)]
        if k not in st.mon["held"]:
            soft(I, st, mon.P["lock"], "unlock-not-held", "a mutex is unlocked by a thread that does not hold it")
            return [(st, DROP)]
        mon.release(I, st, k, "unlock"); st.note("unlock", I.loc(st)[:2])
        st.mon["held"] = tuple(x for x in st.mon["held"] if x != k)
        return [(st, None)]
    ms["std::mutex::lock"] = lock; ms["std::mutex::unlock"] = unlock; ms["std::mutex::try_lock"] = try_lock
    ms["std::mutex::mutex"] = M.ret(); ms["std::mutex::~mutex"] = M.ret()
    ms["std::__throw_system_error"] = M.m_throwfn("_ZTISt12system_error")
    # ---------------- condition variables
    def cvinit(I, st, ins, fn, args): return [(st, None)]
    ms["std::condition_variable::condition_variable"] = cvinit
    def cvdtor(I, st, ins, fn, args):
        mon.destroy_member(I, st, args[0], "condition variable"); return [(st, None)]
    ms["std::condition_variable::~condition_variable"] = cvdtor
    def lockof(I, st, p):
        d = I.load(st, p, 8, "p"); owns = I.load(st, Ptr(p.o, ladd(p.off, 8)), 1, "i8")
        k = key(st, d)
        if not shared(st, d):
            if k not in st.mon.get("lheld", ()): raise Violation("[%s] wait-without-lock" % mon.P["lock"], "a condition variable is waited for without holding its lock")
            return k
        if k not in st.mon["held"] or I.truth(st, I.cast(st, "trunc", owns, 8, 1)) != 1:
            raise Violation("[%s] wait-without-lock" % mon.P["lock"], "a condition variable is waited for without holding its lock")
        return k
    def do_wait(I, st, args, deadline=None):
        k = lockof(I, st, args[1]); cv = args[0]
        if not shared(st, Ptr(k[0], k[1])):
            mon.blocking(I, st, "wait"); mon.local_release(I, st, k); mon.local_acquire(I, st, k); return
        mon.wait(I, st, (cv.o, cv.off), k, deadline)
        mon.release(I, st, k, "wait"); st.note("wait", I.loc(st)[:2])
        others = tuple(x for x in st.mon["held"] if x != k)
        if others: soft(I, st, mon.P["wait"], "wait-holding-lock", "a thread sleeps while holding another lock")
        mon.acquire(I, st, k)
    def wait(I, st, ins, fn, args):
        if len(args) > 2: return [(st, Call(fn, args))] if False else inline(I, st, fn, args)
        do_wait(I, st, args); return [(st, None)]
    def inline(I, st, fn, args):
        if fn.decl: raise Undecided("call of unmodelled " + fn.dem)
        return [(st, Call(fn, args))]
    ms["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = wait
    def wait_until(I, st, ins, fn, args):
        if len(args) > 3: return inline(I, st, fn, args)
        d = I.load(st, args[2], 8, "i64")
        return timed(I, st, args, d, "until")
    def wait_for(I, st, ins, fn, args):
        if len(args) > 3: return inline(I, st, fn, args)
        d = I.aslin(I.load(st, args[2], 8, "i64"))
        t = mon.now(I, st)
        return timed(I, st, args, ladd(t, d), "for")
    def timed(I, st, args, d, kind):
        do_wait(I, st, args, d)
        out = []
        for v in (0, 1):   # no_timeout, timeout
            s = st.copy(); t = mon.now(I, s)
            if v == 1:
                if not s.assume_ge(lsub(t, I.aslin(d))): continue
            s.note("wake-up: " + ("timeout" if v else "notified"), I.loc(s)[:2])
            out.append((s, v))
        return out
    ms["std::condition_variable::wait_until"] = wait_until; ms["std::condition_variable::wait_for"] = wait_for
    def notify(all_):
        def h(I, st, ins, fn, args):
            st.note("notify_" + ("all" if all_ else "one"), I.loc(st)[:2])
            if not shared(st, args[0]): mon.local_notify(I, st, (args[0].o, args[0].off)); return [(st, None)]
            mon.notify(I, st, (args[0].o, args[0].off), all_); return [(st, None)]
        return h
    ms["std::condition_variable::notify_one"] = notify(False); ms["std::condition_variable::notify_all"] = notify(True)
    def now(I, st, ins, fn, args): return [(st, mon.now(I, st))]
    ms["*"].append((lambda f: f.norm.startswith("std::chrono::") and f.norm.endswith("clock::now"), now))
    # ---------------- threads: value T("thr", body) or 0; a symbolic joinable state is a number
    def tget(st, p):
        v = st.models.get((p.o, p.off))
        return v[1] if v is not None and v[0] == "thread" else None
    def tset(st, p, v): st.models[(p.o, p.off)] = ("thread", v)
    mon.tget = tget; mon.tset = tset
    def joinable(I, st, v):
        """1/0, may split"""
        if v is None: raise Undecided("unknown thread object")
        if v.__class__ is T: return 1
        return I.truth(st, v)
    mon.joinable = joinable
    def may_join(st, v): return v.__class__ is T or v is None or not (v == 0 or v.__class__ is Lin and st.num.entails_eq(v))
    mon.may_join = may_join
    def t_ctor(I, st, ins, fn, args):
        p = args[0]
        if len(args) == 1: tset(st, p, 0); return [(st, None)]
        if fn.params.startswith("std::thread&&"):
            mon.access(I, st, args[1], True)
            v = tget(st, args[1]); tset(st, p, v if v is not None else 0); tset(st, args[1], 0); return [(st, None)]
        body = None
        a = args[1]
        e = st.mem.get(a.o, {}).get(a.off) if a.__class__ is Ptr else None
        f = e[1] if e else None
        if f.__class__ is Lin:
            f = I.i2p(f)
        if f.__class__ is Ptr and f.o.__class__ is tuple: body = f.o[1]; ba = []
        else:
            g = lambda_of(I, fn)
            if g is None: raise Undecided("thread body not identified")
            body = g.name
            mon.lambda_bodies[body] = (a, st)
        for x in args[2:]:
            try: mon.body_args.setdefault(body, []).append(I.load(st, x, 8, "p"))
            except (Undecided, Violation): pass
        thr = T("thr", body)
        tset(st, p, thr); mon.spawn(I, st, thr)
        return [(st, None)]
    ms["std::thread::thread"] = t_ctor
    def t_dtor(I, st, ins, fn, args):
        v = tget(st, args[0])
        if may_join(st, v):
            soft(I, st, mon.P["join"], "thread-not-joined", "a std::thread that may still be joinable is destroyed (std::terminate)")
        if shared(st, args[0]): mon.destroy_member(I, st, args[0], "thread object")
        st.models.pop((args[0].o, args[0].off), None)
        return [(st, None)]
    ms["std::thread::~thread"] = t_dtor
    def t_assign(I, st, ins, fn, args):
        mon.access(I, st, args[0], True)
        if may_join(st, tget(st, args[0])):
            soft(I, st, mon.P["join"], "thread-overwritten", "a std::thread that may still be joinable is overwritten (std::terminate)")
        v = tget(st, args[1]); tset(st, args[0], v); tset(st, args[1], 0)
        mon.assigned(I, st, args[0], v)
        return [(st, args[0])]
    ms["std::thread::operator="] = t_assign
    def t_joinable(I, st, ins, fn, args):
        mon.access(I, st, args[0], False)
        return [(st, joinable(I, st, tget(st, args[0])))]
    ms["std::thread::joinable"] = t_joinable
    def t_end(how):
        def h(I, st, ins, fn, args):
            mon.access(I, st, args[0], True)
            v = tget(st, args[0])
            if not joinable(I, st, v):
                soft(I, st, mon.P["join"], how + "-not-joinable", "%s() of a thread that is not joinable throws" % how)
                return [(st, DROP)]
            tset(st, args[0], 0)
            if how == "join": mon.blocking(I, st, "join"); mon.joined(I, st, args[0])
            else: mon.detached(I, st, args[0])
            st.note(how, I.loc(st)[:2])
            return [(st, None)]
        return h
    ms["std::thread::join"] = t_end("join"); ms["std::thread::detach"] = t_end("detach")
    def t_swap(I, st, ins, fn, args):
        a = tget(st, args[0]); b = tget(st, args[1]); mon.access(I, st, args[0], True); mon.access(I, st, args[1], True)
        tset(st, args[0], b); tset(st, args[1], a); return [(st, None)]
    ms["std::thread::swap"] = t_swap
    def t_id(I, st, ins, fn, args):
        v = tget(st, args[0]); mon.access(I, st, args[0], False)
        return [(st, atom(T("thread-id", v if v.__class__ is T else T("none"))))]
    ms["std::thread::get_id"] = t_id
    ms["std::this_thread::get_id"] = lambda I, st, ins, fn, args: [(st, atom(T("thread-id", T("self"))))]
    ms["std::thread::hardware_concurrency"] = lambda I, st, ins, fn, args: [(st, atom(T("hw")))]
    # ---------------- std::function
    def fget(st, p):
        v = st.models.get((p.o, p.off))
        if v is None or v[0] != "fn": return UNDEF
        return v[1]
    def fset(st, p, v): st.models[(p.o, p.off)] = ("fn", v)
    mon.fget = fget; mon.fset = fset
    def fload(I, st, p):
        if p.__class__ is not Ptr: raise Undecided("callable through %r" % (p,))
        i = st.objs.get(p.o)
        if i is not None and i.get("dead"): raise Violation("[%s] use-after-lifetime" % mon.P["life"], "a callable is used after its lifetime ended")
        mon.access(I, st, p, False)
        v = fget(st, p)
        if v is UNDEF: raise Undecided("unknown callable")
        return v
    mon.fload = fload
    def f_ctor(I, st, ins, fn, args):
        p = args[0]; ps = fn.params
        if len(args) == 1 or ps.startswith("std::nullptr_t") or ps.startswith("decltype(nullptr)"): fset(st, p, None); return [(st, None)]
        if ps == "std::function const&": fset(st, p, fload(I, st, args[1])); return [(st, None)]
        if ps == "std::function&&":
            v = fload(I, st, args[1]); fset(st, p, v); mon.access(I, st, args[1], True); fset(st, args[1], None); return [(st, None)]
        g = lambda_of(I, fn)
        if g is None:
            v = args[1]
            if v.__class__ is Ptr and v.o.__class__ is tuple: fset(st, p, T("cfun", v.o[1])); return [(st, None)]
            # a pointer to a function stored in memory
            try:
                f = I.load(st, v, 8, "p")
                if f.__class__ is Ptr and f.o.__class__ is tuple: fset(st, p, T("cfun", f.o[1])); return [(st, None)]
            except (Undecided, Violation): pass
            raise Undecided("callable of unknown type " + ps[:80])
        size = mon.closure_size(I, st, args[1], g)
        o = st.new_obj("closure", size, name="closure"); I.copy_mem(st, Ptr(o, 0), args[1], size)
        if ps.endswith("&&"):
            for k in [k for k in st.models if k[0] == args[1].o and k[1].__class__ is int and args[1].off.__class__ is int and args[1].off <= k[1] < args[1].off + size and isfn(st.models[k])]:
                st.models[k] = ("fn", None)
        fset(st, p, T("clo", T(g.name), o))
        return [(st, None)]
    ms["std::function::function"] = f_ctor
    def f_drop(I, st, p):
        v = fget(st, p)
        if v.__class__ is T and v is not UNDEF: mon.destroyed(I, st, v)
    mon.f_drop = f_drop
    def f_dtor(I, st, ins, fn, args):
        i = st.objs.get(args[0].o)
        if i is not None and i.get("dead"): return [(st, None)]
        mon.access(I, st, args[0], True)
        f_drop(I, st, args[0]); st.models.pop((args[0].o, args[0].off), None); return [(st, None)]
    ms["std::function::~function"] = f_dtor
    def f_assign(I, st, ins, fn, args):
        p = args[0]; mon.access(I, st, p, True); ps = fn.params
        if len(args) < 2 or "nullptr" in ps: f_drop(I, st, p); fset(st, p, None); return [(st, p)]
        if ps == "std::function const&": v = fload(I, st, args[1]); f_drop(I, st, p); fset(st, p, v); return [(st, p)]
        if ps == "std::function&&":
            v = fload(I, st, args[1]); f_drop(I, st, p); fset(st, p, v); fset(st, args[1], None); return [(st, p)]
        f_drop(I, st, p)
        r = f_ctor(I, st, ins, fn, args)
        return [(s, p) for s, _ in r]
    ms["std::function::operator="] = f_assign
    def f_swap(I, st, ins, fn, args):
        a = fload(I, st, args[0]); b = fload(I, st, args[1]); fset(st, args[0], b); fset(st, args[1], a); return [(st, None)]
    ms["std::function::swap"] = f_swap; ms["std::swap"] = lambda I, st, ins, fn, args: f_swap(I, st, ins, fn, args) if all(fget(st, a) is not UNDEF for a in args) else inline(I, st, fn, args)
    def f_bool(I, st, ins, fn, args):
        v = fload(I, st, args[0])
        if v is None: return [(st, 0)]
        if v.op in ("clo", "cfun") or v in st.mon.get("nonempty", ()): return [(st, 1)]
        return [(st, I.term_bool(st, T("nonempty", v)))]
    ms["std::function::operator bool"] = f_bool; ms["std::_Function_base::_M_empty"] = lambda I, st, ins, fn, args: [(s, 1 - v) for s, v in f_bool(I, st, ins, fn, args)]
    def f_eq(I, st, ins, fn, args): return [(s, 1 - v) for s, v in f_bool(I, st, ins, fn, args)]
    ms["*"].append((lambda f: f.norm == "std::operator==" and f.params.startswith("std::function") and "nullptr" in f.params, f_eq))
    ms["*"].append((lambda f: f.norm == "std::operator!=" and f.params.startswith("std::function") and "nullptr" in f.params, f_bool))
    def f_call(I, st, ins, fn, args):
        v = fload(I, st, args[0])
        if v is None:
            return [(st, Throw("_ZTISt17bad_function_call", "empty"))] if not mon.empty_call(I, st) else [(st, DROP)]
        if v.op == "clo":
            g = I.mod.funcs[v.args[0].op]
            r = mon.closurecall(I, st, v, args)
            if r is not None: return r
            return [(st, Call(g, [Ptr(v.args[1], 0)] + list(args[1:])))]
        if v.op == "cfun":
            r = mon.closurecall(I, st, v, args)
            if r is not None: return r
            return [(st, Call(I.mod.funcs[v.args[0]], list(args[1:])))]
        st.note("call user function", I.loc(st)[:2])
        return mon.usercall(I, st, v, args, ins) or [(st, None)]
    ms["std::function::operator()"] = f_call
    ms["std::_Any_data::_M_access"] = M.ret()

def lambda_of(I, fn):
    """operator() of the closure type a templated constructor was instantiated with"""
    d = fn.dem
    best = None
    for f in I.mod.funcs.values():
        if f.decl: continue
        k = f.dem.find("::operator()(")
        if k < 0: continue
        pre = f.dem[:k]
        # drop a return type in front of the qualified name
        if "'lambda" not in pre and "{lambda" not in pre: continue
        for cand in (pre, pre.split(" ", 1)[-1]):
            if cand and cand in d and (best is None or len(cand) > best[1]): best = (f, len(cand))
    return best[0] if best else None
