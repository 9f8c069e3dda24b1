"""C01-C07: thread-modular analysis of the thread pool.

Every public operation and every thread body is analysed once from an
arbitrary shared state; at each lock acquisition the shared state is forgotten.
The sections between acquire and release are compared with the conditions the
sleepers of each role may be blocked on."""
import os, re
from sa.dom import *
from sa.interp import *
from sa import models as M, ir, conc
from sa.check import Check

POOL = T("obj", "pool")
TYPE = "pluto::thread_pool"
KEY, SECOND = 32, 40        # offsets of the key and mapped value in a tree node
API = {"e_run_async": 2, "e_run_async_default": 1, "e_run_async_enum": 2, "e_run_sync": 2, "e_run_sync_enum": 2, "e_run_at": 3, "e_run_at_default": 2, "e_run_at_enum": 3,
       "e_run_after": 3, "e_run_after_enum": 3, "e_workers_size": 0, "e_target_workers_size": 0, "e_active_workers_size": 0, "e_waiting_workers_size": 0,
       "e_tasks_size": 0, "e_active_tasks_size": 0, "e_waiting_tasks_size": 0, "e_scheduled_tasks_size": 0, "e_on_stop": 0, "e_set_target": 1, "e_set_on_stop": 1,
       "e_wait_waiting": 0, "e_wait_complete": 0, "e_dtor": 0}

class Fields:
    def __init__(self, mod):
        t = mod.types.get(TYPE)
        if not t: raise ir.AnalysisBroken("class %s not found" % TYPE)
        self.size = t["size"]; self.by = {}; self.scalars = {}; self.maps = {}; self.cvs = set(); self.names = {}; self.other = []
        longs = []
        for n, off, sz, ty in t["members"]:
            self.names[off] = n
            if ty == "std::mutex": self.by["mutex"] = off
            elif ty == "std::condition_variable": self.cvs.add(off)
            elif ty == "std::thread": self.by["scheduler"] = off
            elif ty.startswith("std::map<std::thread::id"): self.by["workers"] = off; self.maps[off] = "workers"
            elif ty.startswith("std::multimap<signed char"): self.by["waiting"] = off; self.maps[off] = "waiting"; self.wty = ty
            elif ty.startswith("std::multimap<"): self.by["scheduled"] = off; self.maps[off] = "scheduled"; self.sty = ty
            elif sz <= 8 and not ty.startswith("std::"):
                self.scalars[off] = (n, sz, ty)
                if ty.endswith("::action"): self.by["onstop"] = off
                elif ty == "bool" and "top" in n: self.by["stop"] = off
                elif sz == 8: longs.append((off, n))
            else: self.other.append((n, off, ty))
        bools = [o for o, (n, s, ty) in self.scalars.items() if ty == "bool"]
        if "stop" not in self.by and len(bools) == 1: self.by["stop"] = bools[0]
        for off, n in longs:
            if "arget" in n: self.by["target"] = off
            elif "ctive" in n: self.by["active"] = off
        for k in ("mutex", "scheduler", "workers", "waiting", "scheduled", "onstop", "stop", "target", "active"):
            if k not in self.by: raise ir.AnalysisBroken("thread_pool member for %s not found" % k)
        self.back = {v: k for k, v in self.by.items()}
    def name(self, off):
        c = [o for o in self.names if o <= off]
        return self.names[max(c)] if c else "?"

class PoolMon(conc.Monitor):
    P = dict(lock="C02", wait="C02", join="C04", life="C01 C05")
    def __init__(self, chk):
        self.c = chk; self.F = chk.F; self.lambda_bodies = {}; self.body_args = {}
    # ---------------------------------------------------------------- shared state
    def val(self, st, k):
        F = self.F
        if k in ("waiting", "scheduled", "workers"): return st.models[(POOL, F.by[k])][1]
        if k == "scheduler":
            v = st.models[(POOL, F.by[k])][1]; return 1 if v.__class__ is T else v
        off = F.by[k]; e = st.mem[POOL].get(off)
        if e is None: return None
        v = e[1]
        return v if v.__class__ in (int, Lin) else None
    def snap(self, st):
        return {k: self.val(st, k) for k in ("waiting", "scheduled", "workers", "scheduler", "stop", "target", "active", "onstop")}
    def forget(self, I, st):
        F = self.F; m = st.mon
        for off, (n, sz, ty) in F.scalars.items():
            a = atom(st.fresh(n)); hi = 1 if ty == "bool" or ty.endswith("::action") else (1 << min(8 * sz, 40)) - 1
            st.assume_ge(a); st.assume_ge(lsub(hi, a))
            I.put(st, POOL, off, sz, a)
        st.assume_ge(lsub(self.val(st, "active"), m["own_a"]))
        if m["stopped"]: I.put(st, POOL, F.by["stop"], 1, 1)
        prev = st.models.get((POOL, F.by["scheduled"]))
        alone = m["role"] == "scheduler" and self.c.sched_erasers <= {"scheduler"}
        if alone and prev is not None and prev[2] is not None and KEY in st.mem.get(prev[2], ()): m["frontmax"] = I.aslin(st.mem[prev[2]][KEY][1])
        elif not (alone and prev is not None and st.num.entails(ladd(prev[1], -1))): m["frontmax"] = None
        for off, k in F.maps.items():
            n = atom(st.fresh(k)); st.assume_ge(n)
            if k == "scheduled" and alone and prev is not None: st.assume_ge(lsub(n, prev[1])); st.assume_ge(lsub((1 << 40) - 1, n))
            old = st.models.get((POOL, off))
            w = old[3] if old is not None and k == "workers" else None
            if m["own_k"] and k == "workers": st.assume_ge(ladd(n, -1))
            if w is not None and k == "workers": st.assume_ge(ladd(n, -1))
            st.models[(POOL, off)] = ("omap", n, None, w)
        if m["role"] == "scheduler" and not m["detached"]: st.models[(POOL, F.by["scheduler"])] = ("thread", 1)
        elif m.get("keep_sched"): pass
        else:
            j = atom(st.fresh("scheduler")); st.assume_ge(j); st.assume_ge(lsub(1, j))
            st.models[(POOL, F.by["scheduler"])] = ("thread", j)
            # no scheduled task without a scheduler (checked at every release)
        m["epoch"] = "e%d" % 0
        for o in list(st.objs):
            if st.objs[o]["kind"] == "node" and not st.objs[o].get("old") and not (m["entry"] == "e_dtor" and not m["stopped"]): st.objs[o] = dict(st.objs[o], old=1)
    def access(self, I, st, p, write, what=None):
        if p.__class__ is not Ptr: return
        F = self.F; m = st.mon
        if p.o == POOL:
            off = p.off
            if off.__class__ is not int: return
            if F.back.get(off) == "mutex" or off in F.cvs or any(o <= off < o + 48 for o in F.cvs) or F.by["mutex"] <= off < F.by["mutex"] + 40: return
            fld = F.name(off)
        else:
            i = st.objs.get(p.o)
            if i is None or i["kind"] != "node": return
            fld = i["map"] + " element"; off = F.by[i["map"]]
            if i.get("old"): self.c.stale.append((i["map"], m["role"] or m["entry"], m["stopped"], I.loc(st)))
            if i.get("private"): return
        k = F.back.get(max([o for o in F.names if o <= off]), fld)
        self.c.accesses += 1
        held = (POOL, F.by["mutex"]) in m["held"]
        if held:
            if write:
                s = self.val(st, "stop")
                s0 = s == 0 or s.__class__ is Lin and st.num.entails_eq(s)
                self.c.writes.setdefault(k, []).append((m["role"] or m["entry"], s0, I.loc(st)))
            return
        if m["entry"] == "e_ctor" and not m["published"]: return
        if m["entry"] == "e_dtor":
            if self.all_joined(I, st): return
            if m["stopped"] and (not write or k == "workers" or k == "scheduler" and self.workers_joined(I, st)):
                self.c.dtor_reads.setdefault((k, I.loc(st), self.workers_joined(I, st)), []); return
        conc.soft(I, st, "C01", "unlocked-access", "%s of %s without holding the pool's lock" % ("write" if write else "read", fld))
    def workers_joined(self, I, st):
        w = st.models[(POOL, self.F.by["workers"])][3]
        if w is None: return False
        return not self.may_join(st, st.models.get((w, SECOND), ("thread", None))[1])
    def all_joined(self, I, st):
        return self.workers_joined(I, st) and not self.may_join(st, st.models[(POOL, self.F.by["scheduler"])][1])
    def destroy_member(self, I, st, p, what):
        if p.__class__ is Ptr and p.o == POOL and st.mon["entry"] == "e_dtor" and not st.mon.get("destroying"):
            st.mon["destroying"] = 1
            self.c.hit("destruction")
            if not self.workers_joined(I, st):
                conc.soft(I, st, "C04", "worker-not-joined", "the pool's state is destroyed although a worker thread may not have been joined")
            if self.may_join(st, st.models[(POOL, self.F.by["scheduler"])][1]):
                conc.soft(I, st, "C04", "scheduler-not-joined", "the pool's state is destroyed although the scheduler thread may not have been joined")
            if not st.mon["stopped"]:
                conc.soft(I, st, "C04", "not-stopped", "the pool is destroyed without telling its threads to stop")
            if st.mon["held"]:
                conc.soft(I, st, "C02 C04", "destroyed-while-locked", "the pool's members are destroyed while its lock is held")
    # ---------------------------------------------------------------- lock sections
    def acquire(self, I, st, k):
        if k[0] != POOL: return
        self.forget(I, st)
        m = st.mon
        if m["entry"] == "e_ctor" and not m["published"]:
            # nobody else can see the pool: nothing is forgotten (the state before the first spawn is exact)
            m["ctor_locked"] = 1
        m["sec"] = self.snap(st); m["noted"] = (); m["lowered"] = 0; m["xfer"] = ()
    def release(self, I, st, k, how):
        if k[0] != POOL: return
        m = st.mon; F = self.F; c = self.c
        post = self.snap(st); pre = m["sec"]
        c.sections += 1
        ent = st.num.entails
        if m["entry"] != "e_ctor":
            for role, cond in c.roles_conditions(st, pre, post, m["lowered"]):
                if role == "scheduler" and m["role"] == "scheduler": continue
                for name, before, after, unit in cond:
                    if after is None: continue
                    if ent(after): continue
                    if before is not None and ent(lsub(after, before)): continue
                    need = "all"
                    if role == "scheduler" or (role == "worker" and unit and before is not None and ent(ladd(lsub(after, before), 1))): need = "one"
                    if role == "worker" and unit and need == "all" and before is not None and False: pass
                    m["pend"] = tuple(m["pend"]) + ((role, name, need, I.loc(st)[0], I.loc(st)[1]),)
                    c.demands += 1
            m["pend"] = self.clear(st, m["pend"], m["noted"])
        # counters
        if m["role"] or m["entry"] not in ("e_ctor", "e_dtor"):
            if m["own_a"] != len(m["taken"]):
                conc.soft(I, st, "C06", "active-count", "the lock is released while this thread has %d unfinished task(s) taken from the queue but counts %s as active" % (len(m["taken"]), m["own_a"]))
        # transfers
        if m["xferred"] and m["role"] == "scheduler":
            conc.soft(I, st, "C05", "queued-and-scheduled", "a task is in the queue but still in the schedule when the lock is released (it would be queued again)")
            m["xferred"] = ()
        for tok in m["xfer"]:
            conc.soft(I, st, "C05", "scheduled-task-lost", "a task is removed from the schedule without being queued exactly once")
        # a scheduled task needs a scheduler thread
        if m["entry"] != "e_ctor" and post["scheduler"] is not None:
            if not m["nosched_assumed"]:
                t = st.copy()
                if t.assume_ge(ladd(post["scheduled"], -1)) and t.assume_eq(post["scheduler"]) and t.assume_eq(post["stop"] if post["stop"] is not None else 0):
                    # only a problem if this section made it so
                    if not (post["scheduled"] == pre["scheduled"] and post["scheduler"] == pre["scheduler"]):
                        conc.soft(I, st, "C05", "no-scheduler", "a task is scheduled but no scheduler thread is running")
        # state of the section's end, used at the end of an operation
        m["last"] = post
        if how == "unlock" and m["entry"] == "e_dtor" and post["stop"] == 1: m["stopped"] = 1
        if m["lockarg"] is not None and m["entry"] == "e_set_target":
            m["targets"] = m["targets"] + ((post["stop"], post["target"], post["workers"], pre["target"]),)
    def clear(self, st, pend, noted):
        out = []
        for d in pend:
            role, name, need = d[0], d[1], d[2]
            cvs = self.c.cv_of(role)
            if cvs and all(any(n[0] == cv and (n[1] or need == "one") for n in noted) for cv in cvs): continue
            out.append(d)
        return tuple(out)
    def notify(self, I, st, cv, all_):
        m = st.mon
        self.c.notifies += 1
        n = ((cv[1], 1 if all_ else 0),)
        if m["held"]: m["noted"] = tuple(sorted(set(m["noted"] + n)))
        m["pend"] = self.clear(st, m["pend"], n)
    # ---------------------------------------------------------------- a completion flag with a mutex of its own
    def local_acquire(self, I, st, k):
        """the submitted closure may have run: what it shares with the caller's stack is unknown"""
        m = st.mon
        if m["role"] is not None: return
        for sub in m["submitted"]:
            t = sub[1]
            if t.__class__ is not T or t.op != "clo": continue
            for v in list(st.mem.get(t.args[1], {}).values()):
                r = v[1]
                if r.__class__ is not Ptr or r.o not in st.objs or r.o.__class__ is tuple: continue
                for off, e in list(st.mem[r.o].items()):
                    if off.__class__ is int and e[1].__class__ in (int, Lin) and (r.o, off) not in st.models and e[0] == 1:
                        a = atom(st.fresh("flag")); st.assume_ge(a); st.assume_ge(lsub(1, a))
                        st.mem[r.o][off] = (1, a) + tuple(e[2:]); m["flags"] = tuple(f for f in m.get("flags", ()) if f != (r.o, off)) + ((r.o, off),)
    def local_release(self, I, st, k):
        m = st.mon
        if m["role"] is None and m.get("flags"):
            m["flagged"] = int(any(o in st.mem and f in st.mem[o] and st.num.entails(ladd(I.aslin(st.mem[o][f][1]), -1)) for o, f in m["flags"]))
        if m["role"] == "closure" and "flag" in m["events"] and "complete" not in m["events"] and k[0] in m["owners"]: m["events"] = m["events"] + ("complete",)
    def local_notify(self, I, st, k):
        m = st.mon
        if m["role"] == "closure" and k[0] in m["owners"]: m["events"] = m["events"] + ("ref", "notify")
    def blocking(self, I, st, what):
        """the thread may now be delayed for long: everything owed to sleepers must be settled"""
        if what == "lock": return
        self.settle(I, st, what)
        if st.mon["held"] and what in ("join", "future"):
            conc.soft(I, st, "C02 C04", "blocking-while-locked", "the thread blocks in %s while holding the pool's lock" % what)
    def settle(self, I, st, where):
        for role, name, need, f, l in st.mon["pend"]:
            props = {"worker": "C03", "scheduler": "C03", "waiter-waiting": "C03", "waiter-complete": "C03"}[role]
            if name == "stop": props += " C04"
            I.violate(st, "[%s] lost-wake-up" % props, "%s can be sleeping although this section made %s; no sufficient notification (notify_%s) follows before %s" % (
                {"worker": "a worker", "scheduler": "the scheduler", "waiter-waiting": "wait_until_no_tasks_waiting", "waiter-complete": "wait_until_all_tasks_complete"}[role], name, need, where), file=f, line=l)
        st.mon["pend"] = ()
    def wait(self, I, st, cv, k, deadline):
        m = st.mon; c = self.c
        role = m["role"] or {"e_wait_waiting": "waiter-waiting", "e_wait_complete": "waiter-complete"}.get(m["entry"])
        c.hit("wait:" + str(role))
        c.waits.setdefault(role, set()).add(cv[1])
        if role is None:
            self.settle(I, st, "sleeping"); return
        post = self.snap(st); ent = st.num.entails
        conds = dict(c.roles_conditions(st, post, post, 0))[role]
        for name, before, after, unit in conds:
            if after is None: continue
            if not ent(after):
                conc.soft(I, st, "C03" + (" C04" if name == "stop" else " C05" if role in ("worker", "scheduler") else " C06"), "sleeps-while-runnable", "%s may go to sleep although %s" % (
                    {"worker": "a worker", "scheduler": "the scheduler"}.get(role, "a waiting call"), c.text[name]))
        if role == "scheduler":
            if deadline is None:
                if not st.num.entails_eq(post["scheduled"]): conc.soft(I, st, "C03 C05", "no-deadline", "the scheduler may sleep without a deadline although a task is scheduled")
            else:
                st2, key = self.front(I, st, "scheduled")
                if key is not None and not ent(lsub(key, I.aslin(deadline))):
                    conc.soft(I, st, "C03 C05", "deadline", "the scheduler sleeps past the earliest scheduled time point")
        m["pend_after_wait"] = 0
        # demands of this section are settled by release(); what is still open afterwards is lost
        m["settle_at_wait"] = 1
    # ---------------------------------------------------------------- ordered maps
    def front(self, I, st, name):
        """(state, key) of the first element; key None if the map may be empty"""
        F = self.F; mk = (POOL, F.by[name]); v = st.models[mk]
        if not st.num.entails(ladd(v[1], -1)): return st, None
        if v[2] is None: self.mknode(I, st, name, "front")
        n = st.models[mk][2]
        return st, I.aslin(st.mem[n][KEY][1])
    def mknode(self, I, st, name, pos):
        F = self.F; mk = (POOL, F.by[name]); v = st.models[mk]
        o = st.new_obj("node", None, name=name + " element", map=name, pos=pos, **{})
        if name == "workers":
            I.put(st, o, KEY, 8, atom(st.fresh("id")))
            j = atom(st.fresh("joinable")); st.assume_ge(j); st.assume_ge(lsub(1, j))
            st.models[(o, SECOND)] = ("thread", j)
            return o
        tok = T("task", st.fresh("queued"))
        st.objs[o] = dict(st.objs[o], tok=tok)
        if name == "waiting":
            a = atom(st.fresh("prio")); st.assume_ge(ladd(a, 128)); st.assume_ge(lsub(127, a))
            I.put(st, o, KEY, 1, a); st.models[(o, SECOND)] = ("fn", tok)
        else:
            a = atom(st.fresh("time")); I.put(st, o, KEY, 8, a)
            if pos == "front" and st.mon.get("frontmax") is not None: st.assume_ge(lsub(st.mon["frontmax"], a))
            p = atom(st.fresh("prio")); st.assume_ge(ladd(p, 128)); st.assume_ge(lsub(127, p))
            I.put(st, o, SECOND, 1, p); st.models[(o, SECOND + 8)] = ("fn", tok)
            st.objs[o] = dict(st.objs[o], prio=p, time=a)
        if pos == "front": st.models[mk] = ("omap", v[1], o, v[3])
        return o
    # ---------------------------------------------------------------- events
    def now(self, I, st):
        t = atom(st.fresh("now")); st.assume_ge(lsub(t, st.mon["now"])); st.mon["now"] = t
        return t
    def spawn(self, I, st, thr):
        self.c.bodies.setdefault(thr.args[0], None)
        st.mon["published"] = 1
        if (POOL, self.F.by["mutex"]) not in st.mon["held"] and st.mon["entry"] != "e_ctor":
            st.mon["unlocked_spawn"] = 1
        elif st.mon["entry"] == "e_ctor" and not st.mon["held"]: st.mon["unlocked_spawn"] = 1
    def assigned(self, I, st, p, v):
        if p.o == POOL and v.__class__ is T:
            self.c.bodies[v.args[0]] = "scheduler"
            if st.mon.get("unlocked_spawn"): conc.soft(I, st, "C04 C05", "spawn-unlocked", "the scheduler thread is started before it is recorded under the lock")
    def joined(self, I, st, p):
        if p.__class__ is Ptr and p.o != POOL:
            i = st.objs.get(p.o)
    def detached(self, I, st, p):
        m = st.mon; s = self.val(st, "stop")
        if not (s == 0 or s.__class__ is Lin and st.num.entails_eq(s)):
            conc.soft(I, st, "C04", "detached-while-stopping", "a thread is detached although the pool may be stopping (the destructor could not join it)")
        m["detached"] = 1
    def usercall(self, I, st, tok, args, ins):
        m = st.mon; c = self.c
        c.hit("call:" + str(m["role"] or m["entry"]))
        if m["held"]: conc.soft(I, st, "C02", "user-code-under-lock", "a task is run while the pool's lock is held")
        if m["role"] == "worker":
            if tok in m["called"]: conc.soft(I, st, "C05", "run-twice", "a task may be run twice")
            elif tok not in m["taken"]:
                conc.soft(I, st, "C05", "run-not-removed", "a task is run that has not been removed from the queue")
            self.settle(I, st, "running a task")
            m["taken"] = tuple(x for x in m["taken"] if x is not tok); m["called"] = m["called"] + (tok,)
        elif m["role"] == "closure":
            m["events"] = m["events"] + ("task",)
            if tok is not m["expect"]: conc.soft(I, st, "C07", "wrong-task", "the synchronous call runs something other than the given task")
        else:
            conc.soft(I, st, "C02 C05 C07", "run-in-caller", "a task is run outside the pool's workers")
        return [(st, None)]
    def closurecall(self, I, st, v, args): return None
    def empty_call(self, I, st):
        conc.soft(I, st, "C05 C07", "empty-task", "an empty callable is run instead of the task")
        return True
    def destroyed(self, I, st, tok):
        m = st.mon
        if tok in m["called"] and m["held"]:
            conc.soft(I, st, "C02", "task-destroyed-under-lock", "the pool's copy of a task that has been run is destroyed while the pool's lock is held")
    def closure_size(self, I, st, p, g):
        s = st.objs[p.o].get("size")
        if s is None: raise Undecided("closure size")
        return s

class Pool:
    text = {"work": "a task is waiting", "stop": "the pool is stopping", "fewer": "fewer workers are wanted", "earlier": "an earlier task was scheduled",
            "queue empty": "no task is waiting", "all complete": "no task is waiting or active"}
    def __init__(self, pid):
        self.pid = pid
        self.mod = ir.compile_module("pool.cpp", std="c++17")
        self.F = Fields(self.mod); self.bodies = {}; self.waits = {}; self.runs = []; self.hits = {}
        self.reset()
    def reset(self):
        er = getattr(self, "erasers", None)
        self.sched_erasers = {e for e, _ in er.get("scheduled", ())} if er is not None else {"scheduler"}
        self.stale = []; self.writes = {}; self.dtor_reads = {}; self.erasers = {}; self.accesses = 0; self.sections = 0; self.demands = 0; self.notifies = 0; self.runs = []; self.closures = []; self.hits = {}
    def hit(self, k): self.hits[k] = self.hits.get(k, 0) + 1
    def cv_of(self, role): return self.waits.get(role, set())
    def roles_conditions(self, st, pre, post, lowered):
        """per role: (what would wake it, block literal before, after, consumed one by one); the role may sleep while all literals are >= 0"""
        g = lambda d, k: d[k]
        neg = lambda v: None if v is None else lscale(v, -1)
        sub = lambda a, b: None if a is None or b is None else lsub(a, b)
        out = [("worker", [("work", neg(pre["waiting"]), neg(post["waiting"]), True), ("stop", neg(pre["stop"]), neg(post["stop"]), False),
                           ("fewer", sub(pre["target"], pre["workers"]), sub(post["target"], post["workers"]), False)])]
        sched = [("stop", neg(pre["stop"]), neg(post["stop"]), False)]
        if lowered: sched.append(("earlier", 0, -1, False))
        # a scheduler can only be asleep if one was running
        t = st.copy()
        if pre["scheduler"] is None or t.assume_ge(ladd(pre["scheduler"], -1)): out.append(("scheduler", sched))
        out.append(("waiter-waiting", [("queue empty", ladd(pre["waiting"], -1), ladd(post["waiting"], -1), False)]))
        if pre["active"] is not None and post["active"] is not None:
            out.append(("waiter-complete", [("all complete", ladd(ladd(pre["waiting"], pre["active"]), -1), ladd(ladd(post["waiting"], post["active"]), -1), False)]))
        return out
    # ---------------------------------------------------------------- models
    def order(self, ty):
        """does the tree put larger keys first? (from its comparator)"""
        m = re.search(r"(std::greater<|std::less<|pluto::\w+)", ty.split(",", 2)[-1] if "task_info" not in ty else ty)
        if "std::greater<" in ty: return "desc"
        if "std::less<" in ty: return "asc"
        return None
    def cmp_order(self, ty):
        """std::greater/std::less by contract; any other comparator is interpreted on a < b and a > b"""
        o = self.order(ty)
        if o: return o
        ps = split_params(ty[ty.index("<") + 1:ty.rindex(">")])
        if len(ps) < 3: return "asc"
        cands = [f for f in self.mod.funcs.values() if not f.decl and f.norm.endswith("::operator()") and f.dem.replace("bool ", "", 1).startswith(ps[2].strip() + "::operator()") and f.nargs == 3]
        sz = 1 if "signed char" in ps[0] else 8
        for f in cands:
            res = {}
            for rel in ("lt", "gt", "eq"):
                I = Interp(self.mod, M.base(), dict(nowrap=True)); st = State()
                c = st.new_obj("cmp", 8); x = st.new_obj("arg", sz); y = st.new_obj("arg", sz)
                A, B = atom(T("a")), atom(T("b"))
                for v in (A, B): st.assume_ge(ladd(v, 128)); st.assume_ge(lsub(127, v))
                st.assume_eq(lsub(A, B)) if rel == "eq" else st.assume_ge(ladd(lsub(B, A) if rel == "lt" else lsub(A, B), -1))
                I.put(st, x, 0, sz, A); I.put(st, y, 0, sz, B)
                pv = [Ptr(o, 0) if f.args[i]["ty"] == "p" else v for i, (o, v) in ((1, (x, A)), (2, (y, B)))]
                try: outs = I.run(f, [Ptr(c, 0)] + pv, st)
                except Exception: outs = []
                res[rel] = {v for k, s, v in outs} if not I.undecided else None
            if res == {"lt": {0}, "gt": {1}, "eq": {0}}: return "desc"
            if res == {"lt": {1}, "gt": {0}, "eq": {0}}: return "asc"
            if all(res.values()): return "mixed"
        return None
    def models(self):
        ms = M.base(); mon = PoolMon(self); F = self.F; c = self
        conc.install(ms, mon); self.mon = mon
        soft = conc.soft
        def which(st, p):
            if p.__class__ is Ptr and p.o == POOL and p.off in F.maps: return F.maps[p.off]
            return None
        def mapcall(name, h):
            def g(I, st, ins, fn, args):
                k = which(st, args[0])
                if k is None: return fallback(I, st, fn, args)
                return h(I, st, ins, fn, args, k)
            for t in ("std::map::", "std::multimap::", "std::_Rb_tree::"): ms[t + name] = g
        def fallback(I, st, fn, args):
            if fn.decl: raise Undecided("call of unmodelled " + fn.dem)
            return [(st, Call(fn, args))]
        def get(st, k): return st.models[(POOL, F.by[k])]
        def put(st, k, v): st.models[(POOL, F.by[k])] = v
        def endp(k): return Ptr(POOL, F.by[k] + 8)
        def m_size(I, st, ins, fn, args, k):
            mon.access(I, st, args[0], False); return [(st, get(st, k)[1])]
        mapcall("size", m_size)
        def m_empty(I, st, ins, fn, args, k):
            mon.access(I, st, args[0], False)
            return [(st, I.cmp(st, "eq", get(st, k)[1], 0, 64))]
        mapcall("empty", m_empty)
        mapcall("end", lambda I, st, ins, fn, args, k: (mon.access(I, st, args[0], False), [(st, endp(k))])[1])
        def m_begin(I, st, ins, fn, args, k):
            mon.access(I, st, args[0], False)
            v = get(st, k)
            if I.truth(st, I.cmp(st, "eq", v[1], 0, 64)): return [(st, endp(k))]
            if k != "workers":
                mon.front(I, st, k); return [(st, Ptr(get(st, k)[2], 0))]
            if v[3] is None: o = mon.mknode(I, st, k, "any"); return [(st, Ptr(o, 0))]
            a = st; b = st.copy()
            o = mon.mknode(I, b, k, "any"); b.objs[o] = dict(b.objs[o], side="before")
            return [(a, Ptr(v[3], 0)), (b, Ptr(o, 0))]
        mapcall("begin", m_begin); mapcall("cbegin", m_begin)
        def incr(I, st, ins, fn, args):
            p = args[0]; i = st.objs.get(p.o) if p.__class__ is Ptr else None
            if i is None or i["kind"] != "node": raise Undecided("tree iterator increment")
            k = i["map"]; mon.access(I, st, p, False)
            if k != "workers" or get(st, k)[3] is None:
                if k != "workers":
                    o = mon.mknode(I, st, k, "later"); b = st.copy()
                    return [(st, Ptr(o, 0)), (b, endp(k))]
                o = mon.mknode(I, st, k, "any"); return [(st, Ptr(o, 0)), (st.copy(), endp(k))]
            side = i.get("side"); out = []
            a = st.copy(); o = mon.mknode(I, a, k, "any")
            a.objs[o] = dict(a.objs[o], side="before" if side == "before" else "after"); out.append((a, Ptr(o, 0)))
            if side == "before": out.append((st, Ptr(get(st, k)[3], 0)))
            else: out.append((st, endp(k)))
            return out
        def decr(I, st, ins, fn, args):
            p = args[0]
            if p.__class__ is Ptr and p.o == POOL and p.off - 8 in F.maps:
                k = F.maps[p.off - 8]; v = get(st, k)
                mon.access(I, st, p, False)
                if not I.truth(st, I.cmp(st, "ugt", v[1], 0, 64)): raise Violation("[C05] end-iterator", "iterator moved before the first element")
                if v[2] is not None and st.num.entails_eq(ladd(v[1], -1)): return [(st, Ptr(v[2], 0))]
                return [(st, Ptr(mon.mknode(I, st, k, "last"), 0))]
            raise Undecided("tree iterator decrement")
        ms["*"].append((lambda f: f.name.startswith("_ZSt18_Rb_tree_increment"), incr)); ms["*"].append((lambda f: f.name.startswith("_ZSt18_Rb_tree_decrement"), decr))
        def m_find(I, st, ins, fn, args, k):
            mon.access(I, st, args[0], False)
            if k != "workers": raise Undecided("find in " + k)
            key = I.load(st, args[1], 8, "i64")
            if key == atom(T("thread-id", T("self"))) and st.mon["role"] == "worker":
                if not st.mon["own_k"]: return [(st, endp(k))]
                o = T("obj", "node-self")
                if o not in st.objs:
                    st.objs[o] = dict(kind="node", size=None, name="own entry", map="workers", pos="self", old=0); st.mem[o] = {}
                    I.put(st, o, KEY, 8, key)
                    st.models[(o, SECOND)] = ("thread", 1)
                st.objs[o] = dict(st.objs[o], old=0)
                return [(st, Ptr(o, 0))]
            a = st.copy(); o = mon.mknode(I, a, k, "any")
            return [(st, endp(k)), (a, Ptr(o, 0))]
        mapcall("find", m_find)
        def m_at(I, st, ins, fn, args, k):
            out = []
            for s, p in m_find(I, st, ins, fn, args, k):
                if p == endp(k): out.append((s, Throw("_ZTISt12out_of_range", "at")))
                else: out.append((s, Ptr(p.o, SECOND)))
            return out
        mapcall("at", m_at)
        def bound(name):
            def h(I, st, ins, fn, args, k):
                mon.access(I, st, args[0], False)
                o = st.new_obj("hint", None, name=name, map=k, hint=name); return [(st, Ptr(o, 0))]
            return h
        for n in ("lower_bound", "upper_bound"): mapcall(n, bound(n))
        def add(I, st, k, keyv, second, hint=None):
            """second(st, node): fills the mapped value. Returns states with the node"""
            mon.access(I, st, Ptr(POOL, F.by[k]), True)
            v = get(st, k); out = []
            if k == "workers":
                o = st.new_obj("node", None, name="worker", map=k, pos="any"); I.put(st, o, KEY, 8, keyv); second(st, o)
                thr = st.models.get((o, SECOND), (0, None))[1]
                if thr.__class__ is T:
                    c.bodies[thr.args[0]] = "worker"
                    if keyv != atom(T("thread-id", thr)): soft(I, st, "C04 C06", "wrong-worker-id", "a worker is recorded under an id that is not its own")
                    if st.mon.get("unlocked_spawn"): soft(I, st, "C04", "spawn-unlocked", "a worker is started before it is recorded under the lock")
                put(st, k, ("omap", ladd(v[1], 1), v[2], v[3]))
                return [(st, o)]
            def new(s, pos):
                o = s.new_obj("node", None, name=k + " element", map=k, pos=pos)
                I.put(s, o, KEY, 1 if k == "waiting" else 8, keyv); second(s, o)
                fo = SECOND if k == "waiting" else SECOND + 8
                t = s.models.get((o, fo), ("fn", None))[1]
                s.objs[o] = dict(s.objs[o], tok=t, fresh=1)
                if k == "scheduled": s.objs[o] = dict(s.objs[o], time=I.aslin(keyv), prio=s.mem[o].get(SECOND, (0, 0))[1])
                return o
            kv = I.aslin(keyv)
            if kv.__class__ is int and k == "waiting": kv = sgn(uns(kv, 8), 8)
            d = c.dir[k]
            if d not in ("asc", "desc"): raise Undecided("comparator of the %s list" % k)
            if hint in ("lower_bound", "begin"):
                soft(I, st, "C05", "insert-position", "a task is inserted in front of the waiting tasks of the same priority" if k == "waiting" else "a task is inserted in front of those of the same time")
            for case in ("empty", "front", "later"):
                s = st.copy()
                if case == "empty":
                    if not s.assume_eq(v[1]): continue
                    o = new(s, "front"); put(s, k, ("omap", ladd(v[1], 1), o, v[3])); s.mon["lowered"] = s.mon["lowered"] or int(k == "scheduled")
                else:
                    if not s.assume_ge(ladd(v[1], -1)): continue
                    _, fk = mon.front(I, s, k)
                    diff = lsub(fk, kv) if d == "asc" else lsub(kv, fk)   # > 0: new element goes to the front
                    if case == "front":
                        if not s.assume_ge(ladd(diff, -1)): continue
                        o = new(s, "front"); put(s, k, ("omap", ladd(v[1], 1), o, v[3])); s.mon["lowered"] = s.mon["lowered"] or int(k == "scheduled")
                    else:
                        if not s.assume_ge(lscale(diff, -1)): continue
                        o = new(s, "later"); f = get(s, k)[2]; put(s, k, ("omap", ladd(v[1], 1), f, v[3]))
                out.append((s, o))
            return out
        def submitted(I, s, k, o):
            """bookkeeping of a queued task"""
            m = s.mon; t = s.objs[o].get("tok"); loc = I.loc(s)
            prio = s.mem[o].get(KEY if k == "waiting" else SECOND, (0, None))[1]
            if m["role"] == "scheduler":
                src = [n for n in s.objs if s.objs[n]["kind"] == "node" and s.objs[n].get("map") == "scheduled" and s.objs[n].get("tok") is t]
                if not src and t not in m["xferred"]:
                    soft(I, s, "C05", "unknown-task-queued", "the scheduler queues something other than a scheduled task"); return
                if src:
                    n = s.objs[src[0]]
                    if not s.num.entails(lsub(m["now"], n["time"])): soft(I, s, "C05", "task-too-early", "a scheduled task is queued although its time point may not have been reached")
                    if n["pos"] not in ("front", "wasfront"): soft(I, s, "C05", "time-order", "a scheduled task is queued that is not the earliest one")
                    pv = n["prio"]
                    if not s.num.entails_eq(lsub(I.aslin(prio), I.aslin(pv))): soft(I, s, "C05", "scheduled-priority", "a scheduled task is queued with a priority other than its own")
                if t in m["xferred"] or src and s.objs[src[0]].get("queued"): soft(I, s, "C05", "queued-twice", "a scheduled task is queued twice")
                if src:
                    s.objs[src[0]] = dict(s.objs[src[0]], queued=1)
                    if not s.objs[src[0]].get("dead"): m["xferred"] = m["xferred"] + (t,)
                m["xfer"] = tuple(x for x in m["xfer"] if x is not t)
                c.hit("transfer")
                return
            if m["role"] == "worker": soft(I, s, "C05", "worker-queues", "a worker puts a task back into the queue"); return
            m["submitted"] = m["submitted"] + ((k, t, prio, s.objs[o].get("time")),)
        def emplace(hinted):
            def h(I, st, ins, fn, args, k):
                hint = None; a = list(args[1:])
                if hinted:
                    p = a.pop(0); i = st.objs.get(p.o) if p.__class__ is Ptr else None
                    hint = "end" if p == endp(k) else i.get("hint") if i and i["kind"] == "hint" else "begin" if i and i["kind"] == "node" and i.get("pos") == "front" else None
                    if hint is None: raise Undecided("insertion hint")
                al = fn.params
                parts = split_params(al)
                if hinted: parts = parts[1:]
                out = []
                if len(a) == 2:
                    ks = 1 if k == "waiting" else 8
                    kv = I.load(st, a[0], ks, "i%d" % (8 * ks))
                    srcs = (a[1], 0, parts[1] if len(parts) > 1 else "")
                elif len(a) == 1:
                    ks = 1 if k == "waiting" else 8
                    kv = I.load(st, a[0], ks, "i%d" % (8 * ks))
                    srcs = (Ptr(a[0].o, ladd(a[0].off, 8)), 0, parts[0])
                else: raise Undecided("insertion with %d arguments" % len(a))
                src, _, pty = srcs
                moved = pty.endswith("&&")
                mon.access(I, st, src, moved)
                thr = st.copy()
                def second(s, o):
                    if k == "workers":
                        s.models[(o, SECOND)] = ("thread", mon.tget(s, src)); mon.tset(s, src, 0)
                    elif k == "waiting":
                        s.models[(o, SECOND)] = ("fn", mon.fload(I, s, src))
                        if moved: mon.fset(s, src, None)
                    else:
                        I.copy_mem(s, Ptr(o, SECOND), src, 40)
                        if moved:
                            for q in [q for q in s.models if q[0] == src.o and conc.isfn(s.models[q]) and src.off <= q[1] < src.off + 40]: s.models[q] = ("fn", None)
                for s, o in add(I, st, k, kv, second, hint):
                    if k != "workers": submitted(I, s, k, o)
                    if fn.ret.__class__ is not str: out.append((s, Agg((Ptr(o, 0), 1))))
                    else: out.append((s, Ptr(o, 0)))
                if k != "workers" and not st.mon["role"] : out.append((thr, Throw("_ZTISt9bad_alloc", "queueing a task")))
                return out
            return h
        mapcall("emplace", emplace(False)); mapcall("insert", emplace(False)); mapcall("emplace_hint", emplace(True))
        def m_index(I, st, ins, fn, args, k):
            if k != "workers": raise Undecided("operator[]")
            key = I.load(st, args[1], 8, "i64")
            out = add(I, st, k, key, lambda s, o: s.models.__setitem__((o, SECOND), ("thread", 0)))
            for s, o in out: s.objs[o] = dict(s.objs[o], byindex=1)
            return [(s, Ptr(o, SECOND)) for s, o in out]
        mapcall("operator[]", m_index)
        def m_erase(I, st, ins, fn, args, k):
            p = args[1]
            if "const&" in fn.params and k == "workers":
                key = I.load(st, p, 8, "i64")
                if key == atom(T("thread-id", T("self"))) and st.mon["role"] == "worker":
                    (st, q), = m_find(I, st, ins, fn, args, k); r = do_erase(I, st, q, k, fn); return [(s, 1) for s, _ in r]
                raise Undecided("erase by key")
            if len(args) > 2: raise Undecided("range erase")
            return do_erase(I, st, p, k, fn)
        def do_erase(I, st, p, k, fn):
            i = st.objs.get(p.o) if p.__class__ is Ptr else None
            if i is None or i["kind"] != "node": raise Undecided("erase of an unknown position")
            if i.get("dead"): raise Violation("[C01 C05] erased-twice", "an element is erased twice")
            mon.access(I, st, Ptr(POOL, F.by[k]), True); mon.access(I, st, p, True)
            sv = mon.val(st, "stop"); s0 = sv == 0 or sv.__class__ is Lin and st.num.entails_eq(sv)
            c.erasers.setdefault(k, set()).add((st.mon["role"] or st.mon["entry"], s0))
            v = get(st, k); m = st.mon
            n1 = ladd(v[1], -1)
            if not st.num.entails(n1): st.assume_ge(n1)
            put(st, k, ("omap", n1, None if v[2] == p.o else v[2], v[3]))
            if k == "scheduled": m["frontmax"] = None
            if k == "workers":
                t = st.models.get((p.o, SECOND), ("thread", None))[1]
                if mon.may_join(st, t): soft(I, st, "C04", "erased-joinable", "a worker's thread object is destroyed while it may still be joinable (std::terminate)")
                if i["pos"] == "self": m["own_k"] = 0
                else: soft(I, st, "C04", "foreign-worker-erased", "a thread other than the finished one is removed from the worker table") if m["role"] == "worker" else None
            elif k == "waiting":
                tok = i["tok"]
                if m["role"] == "worker":
                    if m["taken"]: soft(I, st, "C05", "task-dropped", "a task was removed from the queue but another one is taken before it was run")
                    m["taken"] = m["taken"] + (tok,); m["called"] = ()
                    c.hit("take")
                    if i["pos"] != "front": soft(I, st, "C05", "queue-order", "a worker takes a task that is not the first of the queue (highest priority, then oldest)")
                    s = mon.val(st, "stop"); os = mon.val(st, "onstop")
                    t = st.copy()
                    if s is not None and os is not None and t.assume_ge(ladd(s, -1)) and t.assume_eq(lsub(os, c.JOIN_ALL)):
                        soft(I, st, "C04", "task-started-while-stopping", "a queued task is started after stopping began although the stop action is not to complete tasks")
                else: soft(I, st, "C05", "task-dropped", "a waiting task is removed outside the workers")
            else:
                tok = i["tok"]
                if tok in m["xferred"]: m["xferred"] = tuple(x for x in m["xferred"] if x is not tok)
                else: m["xfer"] = m["xfer"] + (tok,)
            fo = SECOND if k == "waiting" else SECOND + 8
            if k != "workers" and (p.o, fo) in st.models: mon.f_drop(I, st, Ptr(p.o, fo))
            st.objs[p.o] = dict(st.objs[p.o], dead=True, name="erased " + k + " element")
            if fn.ret == "p":
                if k == "workers": return [(st, endp(k))]
                out = []
                a = st.copy(); b = st.copy()
                if a.assume_eq(n1): out.append((a, endp(k)))
                if b.assume_ge(ladd(n1, -1)):
                    if i["pos"] == "front": mon.front(I, b, k); out.append((b, Ptr(get(b, k)[2], 0)))
                    else: out.append((b, Ptr(mon.mknode(I, b, k, "later"), 0)))
                return out
            return [(st, None)]
        mapcall("erase", m_erase)
        def m_clear(I, st, ins, fn, args, k):
            mon.access(I, st, args[0], True)
            if k == "waiting":
                soft(I, st, "C05", "queue-cleared", "waiting tasks are dropped")
            elif k == "scheduled": soft(I, st, "C05", "queue-cleared", "scheduled tasks are dropped")
            else:
                if not mon.workers_joined(I, st): soft(I, st, "C04", "workers-cleared", "thread objects are destroyed although they may be joinable")
            v = get(st, k); put(st, k, ("omap", 0, None, v[3])); return [(st, None)]
        mapcall("clear", m_clear)
        def m_ctor(I, st, ins, fn, args, k):
            put(st, k, ("omap", 0, None, None)); return [(st, None)]
        mapcall("map", m_ctor); mapcall("multimap", m_ctor)
        def m_dtor(I, st, ins, fn, args, k):
            mon.destroy_member(I, st, args[0], k); return [(st, None)]
        mapcall("~map", m_dtor); mapcall("~multimap", m_dtor)
        # promise / future: one completion object
        def p_ctor(I, st, ins, fn, args):
            st.models[(args[0].o, args[0].off)] = ("promise", 0); st.mon["promises"] = st.mon.get("promises", ()) + ((args[0].o, args[0].off),); return [(st, None)]
        ms["std::promise::promise"] = p_ctor
        def p_dtor(I, st, ins, fn, args):
            k = (args[0].o, args[0].off)
            if st.mon["entry"].startswith("e_run_sync") and st.models.get(k, (0,))[0] == "promise" and not st.mon["waited"] and st.mon["submitted"]:
                soft(I, st, "C07", "completion-destroyed", "the completion object is destroyed before the task is known to have finished")
            st.models.pop(k, None); return [(st, None)]
        ms["std::promise::~promise"] = p_dtor
        def p_get(I, st, ins, fn, args):
            out = args[0]; pr = args[1] if len(args) > 1 else args[0]
            if len(args) > 1: st.models[(out.o, out.off)] = ("future", Ptr(pr.o, pr.off))
            return [(st, None)]
        ms["std::promise::get_future"] = p_get
        def fut_wait(I, st, ins, fn, args):
            v = st.models.get((args[0].o, args[0].off))
            mon.blocking(I, st, "future")
            if v and v[0] == "future": st.mon["waited"] = 1
            return [(st, None)]
        ms["std::__basic_future::wait"] = fut_wait; ms["std::future::get"] = fut_wait
        def fut_wait_for(I, st, ins, fn, args):
            v = st.models.get((args[0].o, args[0].off)); mon.blocking(I, st, "future")
            b = st.copy()
            if v and v[0] == "future": st.mon["waited"] = 1
            return [(st, 0), (b, 1)]
        ms["std::__basic_future::wait_for"] = fut_wait_for; ms["std::__basic_future::wait_until"] = fut_wait_for
        def fut_move(I, st, ins, fn, args):
            v = st.models.get((args[1].o, args[1].off))
            if v: st.models[(args[0].o, args[0].off)] = v
            return [(st, None)]
        ms["std::future::future"] = lambda I, st, ins, fn, args: fut_move(I, st, ins, fn, args) if len(args) > 1 else [(st, None)]
        ms["std::future::~future"] = M.ret()
        def p_set(I, st, ins, fn, args):
            m = st.mon
            if m["role"] == "closure":
                m["events"] = m["events"] + ("complete",)
                if args[0] != m["promise"]: soft(I, st, "C07", "wrong-completion", "a different completion object is signalled")
            else: soft(I, st, "C07", "early-completion", "completion is signalled outside the task")
            return [(st, None)]
        ms["std::promise::set_value"] = p_set
        return ms, mon
    # ---------------------------------------------------------------- one entry
    def state(self, I, entry, role=None):
        st = State(); F = self.F
        st.objs[POOL] = dict(kind="shared", size=F.size, name="thread pool"); st.mem[POOL] = {}
        st.mon = dict(held=(), entry=entry, role=role, own_a=0, own_k=1 if role == "worker" else 0, taken=(), called=(), pend=(), noted=(), sec={}, lowered=0, xfer=(), xferred=(),
                      submitted=(), stopped=0, published=0, detached=0, epoch="", now=atom(T("start-time")), waited=0, events=(), expect=None, promise=None, last={}, nosched_assumed=0,
                      lockarg=None, targets=(), settle_at_wait=0, nonempty=(), frontmax=None)
        for off in F.maps: st.models[(POOL, off)] = ("omap", 0, None, None)
        st.models[(POOL, F.by["scheduler"])] = ("thread", 0)
        self.mon.forget(I, st)
        if entry == "e_dtor":
            w = self.mon.mknode(I, st, "workers", "any"); v = st.models[(POOL, F.by["workers"])]
            st.assume_ge(ladd(v[1], -1)); st.models[(POOL, F.by["workers"])] = ("omap", v[1], None, w)
        st.mon["sec"] = self.mon.snap(st); st.mon["last"] = st.mon["sec"]
        return st
    def hooks(self, I):
        mon = self.mon; F = self.F
        def on_load(I, st, p, size, ty):
            if p.o == POOL or st.objs[p.o]["kind"] == "node":
                mon.access(I, st, p, False)
                if p.o == POOL and p.off in F.cvs: return None
            elif p.o is st.mon.get("promise_owner") or p.o in st.mon.get("owners", ()): st.mon["events"] = st.mon["events"] + ("ref",)
            return None
        def on_store(I, st, p, size, v):
            if p.o == POOL or st.objs[p.o]["kind"] == "node":
                if p.o == POOL and p.off == F.by["active"]:
                    old = st.mem[POOL].get(p.off); new = I.aslin(v) if v is not UNDEF else None
                    if old is not None and new is not None:
                        d = lsub(new, I.aslin(old[1]))
                        if d.__class__ is int:
                            d = sgn(uns(d, 64), 64); st.mon["own_a"] = st.mon["own_a"] + d
                            if d < 0 and st.mon["own_a"] < 0: conc.soft(I, st, "C06", "active-underflow", "the active count is decremented without a matching increment")
                        elif st.mon["entry"] != "e_ctor": conc.soft(I, st, "C06", "active-count", "the active count is overwritten")
                mon.access(I, st, p, True)
            elif p.o in st.mon.get("owners", ()):
                m = st.mon; m["events"] = m["events"] + ("ref", "flag")
                if not m.get("lheld"): m["events"] = m["events"] + ("complete",)
            return False
        I.on_load = on_load; I.on_store = on_store
    def run(self, entry, role=None, fn=None, args=None, prep=None):
        ms, mon = self.models()
        I = Interp(self.mod, ms, dict(nowrap=True, widen_after=200)); self.hooks(I)
        # settle at waits
        st = self.state(I, entry, role)
        fn = fn or self.mod.entry(entry)
        extra = prep(I, st) if prep else []
        orig_release = mon.release
        def rel(I_, s, k, how):
            orig_release(I_, s, k, how)
            if how == "wait": mon.settle(I_, s, "sleeping")
        mon.release = rel
        outs = I.run(fn, [Ptr(POOL, 0)] + (args if args is not None else extra), st)
        self.runs.append((entry, role, I, outs))
        if role is None and not any(k in ("ret", "throw") for k, _, _ in outs) and not I.violations and not I.undecided:
            I.undecided.append(dict(msg="the operation never returns on any path of the model", file=fn.file, line=fn.line, function=fn.dem, stack=[]))
        for kind, s, v in outs:
            if kind in ("ret", "throw"):
                mon_loc = dict(file=fn.file or None, line=fn.line, function=fn.dem)
                mon.end = True
                self.finish_entry(I, s, entry, role, kind, v, fn)
        return I, outs
    def finish_entry(self, I, s, entry, role, kind, v, fn):
        m = s.mon; mon = self.mon
        F0 = self.where(fn, entry)
        def vio(props, rule, msg): I.violate(s, "[%s] %s" % (props, rule), msg, **F0)
        if m["held"]: vio("C02", "lock-leaked", "%s returns while still holding the pool's lock%s" % (F0["function"], " (by an exception)" if kind == "throw" else ""))
        mon.settle(I, s, "the end of the operation")
        if entry == "e_ctor" and role is None:
            if kind == "ret": self.check_ctor(s, vio)
            return
        if role == "closure": return
        if kind == "throw" and role is None: return
        last = m["last"]; num = s.num
        def feasible(*cs):
            t = s.copy()
            return all(t.assume_ge(x) for x in cs)
        eq0 = lambda x: (x, lscale(x, -1))
        if role in ("worker", "scheduler") and kind == "throw":
            return
        if role == "worker":
            st_, on, n, k, t = last["stop"], last["onstop"], last["waiting"], last["workers"], last["target"]
            if m["taken"]: vio("C05", "task-dropped", "a worker ends without running the task it took from the queue")
            if feasible(ladd(st_, -1), *eq0(lsub(on, self.COMPLETE)), ladd(n, -1)): vio("C04 C05", "tasks-not-completed", "a worker stops although tasks are still queued and the stop action is to complete them")
            kk = k if m["own_k"] else ladd(k, 1)
            if feasible(*eq0(st_), lsub(t, kk)): vio("C04 C05", "wanted-worker-ends", "a worker ends although the pool is running and does not have more workers than wanted")
            if feasible(*eq0(st_)):
                if not m["detached"] and not self.joined_self(s): vio("C04", "worker-not-detached", "a worker that is no longer wanted ends without detaching its thread object")
                if m["own_k"]: vio("C04 C06", "worker-not-removed", "a worker that is no longer wanted ends but stays in the worker table")
        elif role == "scheduler":
            if feasible(*eq0(last["stop"]), ladd(last["scheduled"], -1)): vio("C05", "scheduler-ends", "the scheduler ends although the pool is running and tasks are scheduled")
            if feasible(*eq0(last["stop"])) and not m["detached"]: vio("C04 C05", "scheduler-not-detached", "the scheduler ends without detaching its thread object, so later scheduled tasks would never be run")
        elif entry in self.SPEC: self.SPEC[entry](self, I, s, v, vio)
        elif entry.startswith("e_run"): self.check_run(I, s, entry, vio)
        elif entry == "e_set_target":
            for st_, t, k, t0 in m["targets"]:
                n = m["lockarg"]
                q = s.copy()
                if q.assume_eq(st_):
                    if not q.num.entails_eq(lsub(t, n)): vio("C06 C04", "target-not-set", "target_workers_size(n) does not set the target of a running pool to n")
                    elif not q.num.entails(lsub(k, t)): vio("C04 C06", "workers-not-started", "target_workers_size(n) returns with fewer than n workers started")
            if not m["targets"]: vio("C06", "target-not-set", "target_workers_size(n) never updates the target under the lock")
        elif entry == "e_set_on_stop":
            if not num.entails_eq(lsub(last["onstop"], m["lockarg"])): vio("C04", "stop-action", "on_stop(action) does not record the action")
        elif entry == "e_wait_waiting":
            if not num.entails_eq(last["waiting"]): vio("C06", "returns-early", "wait_until_no_tasks_waiting may return while tasks are waiting")
        elif entry == "e_wait_complete":
            if not (num.entails_eq(last["waiting"]) and num.entails_eq(last["active"])): vio("C06", "returns-early", "wait_until_all_tasks_complete may return while tasks are waiting or active")
    def joined_self(self, s): return False
    def where(self, fn, entry):
        if fn.file and "/include/pluto/" in fn.file: return dict(file=fn.file, line=fn.line, function=fn.dem)
        n = {"e_set_target": "target_workers_size", "e_set_on_stop": "on_stop", "e_wait_waiting": "wait_until_no_tasks_waiting", "e_wait_complete": "wait_until_all_tasks_complete", "e_dtor": "~thread_pool", "e_ctor": "thread_pool"}.get(entry, entry[2:])
        n = n.replace("_default", "").replace("_enum", "")
        fs = [f for f in self.mod.funcs.values() if f.norm == TYPE + "::" + n and not f.decl]
        if not fs: return dict(file=None, line=None, function=n)
        f = max(fs, key=lambda f: f.nargs)
        return dict(file=f.file, line=f.line, function=f.dem)
    def getter(want):
        def h(self, I, s, v, vio):
            last = s.mon["last"]; w = want(last)
            if v is UNDEF or v is None or not s.num.entails_eq(lsub(I.aslin(v), w)):
                vio("C06", "reported-count", "the reported value is not the pool's state at one instant (got %r, expected %r)" % (v, w))
        return h
    SPEC = {"e_workers_size": getter(lambda l: l["workers"]), "e_target_workers_size": getter(lambda l: l["target"]), "e_active_workers_size": getter(lambda l: l["active"]),
            "e_waiting_workers_size": getter(lambda l: lsub(l["workers"], l["active"])), "e_tasks_size": getter(lambda l: ladd(l["waiting"], l["active"])),
            "e_active_tasks_size": getter(lambda l: l["active"]), "e_waiting_tasks_size": getter(lambda l: l["waiting"]), "e_scheduled_tasks_size": getter(lambda l: l["scheduled"]),
            "e_on_stop": getter(lambda l: l["onstop"])}
    def check_ctor(self, s, vio):
        p = self.mon.snap(s); n = s.mon["lockarg"]
        if p["stop"] != 0: vio("C04", "initial-state", "a new pool is not in the running state")
        if p["active"] != 0: vio("C06", "initial-state", "a new pool does not start with zero active tasks")
        if p["target"] is None or not s.num.entails_eq(lsub(p["target"], n)): vio("C06", "initial-state", "the worker target of a new pool is not the requested one")
        if not s.num.entails_eq(lsub(p["workers"], n)): vio("C04 C06", "initial-workers", "a new pool does not start exactly the requested number of workers")
        if p["onstop"] != self.JOIN_ALL: vio("C04", "initial-state", "the default stop action is not to drop queued tasks")
    def check_run(self, I, s, entry, vio):
        m = s.mon; sync = "_sync" in entry; at = "_at" in entry; after = "_after" in entry
        want = "scheduled" if at or after else "waiting"
        P = "C05" + (" C07" if sync else "")
        sub = m["submitted"]
        if len(sub) != 1:
            vio(P, "submitted-once", "the task is submitted %d times" % len(sub)); return
        k, t, prio, time = sub[0]
        self.hit("submit:" + entry)
        if k != want: vio(P, "submitted-elsewhere", "the task is put into the %s list" % k); return
        wp = m["wantprio"]
        if prio is None or not s.num.entails_eq(lsub(I.aslin(prio) if prio.__class__ is not int else sgn(uns(prio, 8), 8), wp)): vio(P, "priority", "the task is submitted with a priority other than the given one (%r instead of %r)" % (prio, wp))
        if want == "scheduled":
            ok = False
            if time is not None:
                ok = s.num.entails_eq(lsub(time, m["wanttime"])) if at else s.num.entails(lsub(time, ladd(m["wanttime"], atom(T("start-time"))))) and s.num.entails(lsub(ladd(m["wanttime"], m["now"]), time))
            if not ok: vio("C05", "time-point", "the task is scheduled for a time point other than the requested one")
        if not sync:
            if t is not T("arg-task"): vio(P, "wrong-task", "something other than the given task is submitted")
        else:
            if not m["waited"] and not m.get("flagged"): vio("C07", "does-not-wait", "run_sync returns without waiting for the task to complete")
            if t is None or t.op != "clo":
                vio("C07", "wrong-task", "run_sync submits the task without a way to learn of its completion"); return
    # ---------------------------------------------------------------- all
    def analyse(self):
        F = self.F; mod = self.mod
        self.JOIN_ALL, self.COMPLETE = self.enum("v_join_all"), self.enum("v_complete_tasks")
        self.NORMAL, self.HIGH = self.enum("v_normal"), self.enum("v_high")
        self.dir = {"waiting": self.cmp_order(F.wty), "scheduled": self.cmp_order(F.sty)}
        self.dirbad = [k for k, d in (("waiting", "desc"), ("scheduled", "asc")) if self.dir[k] not in (None, d)]
        for rnd in (0, 1):
            self.reset()
            self.ctor()
            for e in API: self.entry(e)
            for b, r in sorted(self.bodies.items()):
                if r: self.body(b, r)
        self.closure_pass()
    def enum(self, name):
        g = self.mod.globals.get(name)
        if not g: raise ir.AnalysisBroken("driver constant " + name)
        for off, sz, c in g.get("init", ()):
            if c[0] == "i": return sgn(uns(int(c[2]), 32), 32)
        return 0
    def ctor(self):
        def prep(I, st):
            n = atom(T("requested")); st.assume_ge(n); st.assume_ge(lsub((1 << 32) - 1, n)); st.mon["lockarg"] = n
            for off in self.F.maps: st.models[(POOL, off)] = ("omap", 0, None, None)
            st.models[(POOL, self.F.by["scheduler"])] = ("thread", 0); st.mem[POOL] = {}
            return [n]
        # inside the constructor nobody else changes the state while the lock is held
        self.mon_forget = None
        ms, mon = self.models()
        I = Interp(self.mod, ms, dict(nowrap=True, widen_after=200)); self.hooks(I)
        mon.forget = lambda I, st: None
        st = self.state(I, "e_ctor")
        args = prep(I, st)
        fn = self.mod.entry("e_ctor")
        outs = I.run(fn, [Ptr(POOL, 0)] + args, st)
        self.runs.append(("e_ctor", None, I, outs))
        for kind, s, v in outs: self.finish_entry(I, s, "e_ctor", None, kind, v, fn)
        if not any(r == "worker" for r in self.bodies.values()) and not I.violations and not I.undecided:
            I.violations.append(dict(rule="[C04 C06] no-workers", msg="the constructor never records a worker thread", path=[], **self.where(fn, "e_ctor")))
    def entry(self, e):
        def prep(I, st):
            out = []
            m = st.mon
            if e.startswith("e_run"):
                if "_at" in e:
                    o = st.new_obj("arg", 8, name="time"); a = atom(T("arg-time")); I.put(st, o, 0, 8, a); out.append(Ptr(o, 0)); m["wanttime"] = a
                if "_after" in e:
                    o = st.new_obj("arg", 8, name="duration"); a = atom(T("arg-duration")); I.put(st, o, 0, 8, a); out.append(Ptr(o, 0)); m["wanttime"] = a
                o = st.new_obj("arg", 32, name="task"); st.models[(o, 0)] = ("fn", T("arg-task")); out.append(Ptr(o, 0))
                m["nonempty"] = (T("arg-task"),)
                if "default" in e: m["wantprio"] = self.HIGH if "_sync" in e else self.NORMAL
                else:
                    a = atom(T("arg-prio")); st.assume_ge(ladd(a, 128)); st.assume_ge(lsub(127, a)); out.append(a); m["wantprio"] = a
            elif e == "e_set_target":
                a = atom(T("arg-target")); st.assume_ge(a); st.assume_ge(lsub((1 << 32) - 1, a)); out.append(a); m["lockarg"] = a
            elif e == "e_set_on_stop":
                a = atom(T("arg-action")); st.assume_ge(a); st.assume_ge(lsub(1, a)); out.append(a); m["lockarg"] = a
            return out
        I, outs = self.run(e, prep=prep)
        if e.startswith("e_run_sync"):
            for kind, s, v in outs:
                if kind == "ret" and len(s.mon["submitted"]) == 1 and s.mon["submitted"][0][1].__class__ is T and s.mon["submitted"][0][1].op == "clo":
                    self.closures.append((I, s, s.mon["submitted"][0][1]))
    def body(self, name, role):
        fn = self.mod.funcs.get(name)
        if fn is None or fn.decl: raise ir.AnalysisBroken("thread body %s not found" % name)
        self.run("body", role=role, fn=fn, args=[])
    def closure_pass(self):
        """the callable run_sync hands to the pool"""
        seen = set()
        for I0, s0, tok in self.closures:
            g = self.mod.funcs[tok.args[0].op]
            ms, mon = self.models()
            I = Interp(self.mod, ms, dict(nowrap=True, widen_after=200)); self.hooks(I)
            s = s0.copy(); o = tok.args[1]
            # what signals completion: a promise, or a flag with a mutex and a condition variable
            refs = [v[1] for v in s.mem[o].values() if v[1].__class__ is Ptr and v[1].o is not None and v[1].o.__class__ is not tuple]
            proms = [r for r in refs if (r.o, r.off) in s0.mon.get("promises", ())]
            owner = proms[0] if proms else None; heap = owner is not None and owner.o in s0.objs and s0.objs[owner.o]["kind"] == "heap"
            stack = [r.o for r in refs if r.o not in s0.objs or s0.objs[r.o]["kind"] not in ("heap", "arg", "outside", "shared")]
            s.mon = dict(s.mon, role="closure", entry="closure", held=(), lheld=(), events=(), expect=T("arg-task"), promise=owner, promise_owner=owner.o if owner and not heap else None,
                         owners=tuple(stack) if owner is None else (), taken=(), called=(), submitted=())
            for q in refs:
                if q.o in stack:
                    s.objs[q.o] = dict(kind="outside", size=None, lazy=True, name="completion object"); s.mem[q.o] = {}
                    for k in [k for k in s.models if k[0] == q.o and not isfn(s.models[k])]: s.models.pop(k)
            if owner is not None: s.models[(owner.o, owner.off)] = ("promise", 0); s.objs[owner.o] = dict(s.objs[owner.o], dead=False)
            outs = I.run(g, [Ptr(o, 0)], s)
            self.runs.append(("closure", "closure", I, outs))
            for kind, q, v in outs:
                ev = q.mon["events"]
                self.hit("closure")
                w = dict(file=g.file, line=g.line, function=g.dem)
                if kind != "ret": continue
                if ev.count("task") != 1: I.violate(q, "[C07 C05] task-run-once", "the task given to run_sync is run %d times" % ev.count("task"), **w)
                if "complete" not in ev: I.violate(q, "[C07] never-completes", "completion is never signalled, so run_sync does not return", **w)
                elif "task" in ev and ev.index("complete") < ev.index("task"): I.violate(q, "[C07] completes-early", "completion is signalled before the task has run, so run_sync may return early", **w)
                if "complete" in ev and "ref" in ev[ev.index("complete"):]: I.violate(q, "[C07] used-after-completion", "the caller's stack is accessed after completion has been signalled", **w)

def split_params(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        elif ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

RULES = {
 "C01": "lockset over every access to a data member of thread_pool on every path of every public operation, thread body, constructor and destructor (accesses outside the lock are only accepted before the first thread is started, after all were joined, or for members no running thread writes once stopping)",
 "C02": "lock typestate on every path (acquire, release, wait, exceptional exits) plus effect rule: no call into or destruction of a user task while the lock is held",
 "C03": "for every section between acquire and release and every role that can sleep, a linear comparison of the role's block condition before and after decides whether a notification is owed; it must be issued before the thread blocks, runs a task or ends; and no role may go to sleep while its block condition is not implied",
 "C04": "thread life-cycle typestate (spawned, recorded, detached, joined) and loop-exit conditions of the thread bodies; at the destruction of the first member every thread must be joined",
 "C05": "ordered-map model with first-element tracking: each task token is followed from submission through the schedule and the queue to its single call",
 "C06": "ghost count of taken-but-unfinished tasks compared with the stored count at every release; every query compared with the state of the one section it reads; wait operations' exit conditions",
 "C07": "ownership and ordering of the completion object in run_sync and in the closure it submits",
}
_cache = {}
def check_for(pid):
    c = Check(pid, RULES[pid])
    P = Pool(pid); P.analyse()
    n = 0
    allv = []
    for entry, role, I, outs in P.runs:
        c.note_fns(I)
        for k, v in I.stats.items(): c.stats[k] = c.stats.get(k, 0) + v
        for u in I.undecided: c.und.append(dict(rule="%s/%s" % (entry, role), **u))
        for v in I.violations: allv.append(v)
        mine = [v for v in I.violations if props_of(v["rule"]) & {pid}]
        c.obs.append(("%s:%s" % (entry, role or "caller"), not mine and not I.undecided, "%d paths" % len(outs)))
    if pid == "C05":
        w = P.where(P.mod.entry("e_run_async"), "e_run_async")
        for k in P.dirbad:
            c.ob("order:" + k, False, "the %s list is kept in the wrong order (%s first)" % (k, "lowest priority" if k == "waiting" else "latest time"), **w)
    # destructor reads without the lock
    if pid == "C01":
        for (k, loc, wj), tr in P.dtor_reads.items():
            # once every worker was joined no task runs any more: only the scheduler thread is left
            bad = [w for w in P.writes.get(k, []) if not w[1] and w[0] != "e_dtor" and (not wj or w[0] == "scheduler")]
            c.ob("dtor-read:%s:%s" % (k, loc[1]), not bad, "the destructor reads %s without the lock while %s may still write it (line %s)" % (k, bad[0][0] if bad else "", bad[0][2][1] if bad else ""),
                 file=loc[0], line=loc[1], function=loc[2])
    if pid in ("C01", "C05"):
        for mp, who, stopped, loc in P.stale:
            er = P.erasers.get(mp, set())
            # a thread that is alone in its role may keep its own position; nobody removes workers once the pool is stopping
            bad = {e for e, s0 in er if not (stopped and s0) and not (e == who == "scheduler")}
            if bad: c.ob("stale:%s" % mp, False, "an element of %s is used after the lock was released and taken again although %s may have erased it" % (mp, ", ".join(sorted(bad))), file=loc[0], line=loc[1], function=loc[2])
    for v in allv:
        ps = props_of(v["rule"])
        if pid in ps or not ps or os.environ.get("SA_ALLPROPS"): c.violation(**v)
    c.extra.update(accesses=P.accesses, critical_sections=P.sections, notifications_owed=P.demands, notifications_seen=P.notifies, anchors=P.hits,
                   entries=[e for e, _, _, _ in P.runs])
    for i in range(P.sections): pass
    if not c.viol and not c.und:
        c.require("critical sections", P.sections, 20)
        c.require("workers' wait", P.hits.get("wait:worker", 0), 1); c.require("task calls", P.hits.get("call:worker", 0), 1)
        c.require("scheduler's wait", P.hits.get("wait:scheduler", 0), 1); c.require("member destruction", P.hits.get("destruction", 0), 1)
    c.assumptions = ["user tasks do not throw (an exception leaving a thread ends the program)", "std containers, threads, mutexes and condition variables follow their contracts",
                     "std::thread creation succeeds", "a pool is not destroyed while other threads call it (other than its own tasks)"]
    return c
def props_of(rule):
    m = re.match(r"\[([^\]]*)\]", rule)
    return set(m.group(1).split()) if m else set()
def c01(): return check_for("C01")
def c02(): return check_for("C02")
def c03(): return check_for("C03")
def c04(): return check_for("C04")
def c05(): return check_for("C05")
def c06(): return check_for("C06")
def c07(): return check_for("C07")
