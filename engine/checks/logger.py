"""C08-C14: thread-modular analysis of the logger.

Every public operation, the body of the logging thread, the constructor and the
destructor are interpreted once from an arbitrary shared state; acquiring the
logging lock forgets what other threads may have changed.  A file's buffer is a
list of n entries addressed by their distance from the end (the oldest entry is
at distance 1), because entries are added at the front and written from the
back; the ghost number w counts entries handed to the writer and not erased."""
import os, re
from sa.dom import *
from sa.interp import *
from sa import models as M, ir, conc, strs, seq
from sa.check import Check

LOG = T("obj", "logger")
TYPE = "pluto::logger"; FILE = "pluto::logger::log_file"; ENTRY = "pluto::log_entry"
STEP = 4096
FSERR = "_ZTINSt10filesystem7__cxx1116filesystem_errorE"
NODE = {"client": T("obj", "file", "F"), "thread": T("obj", "file", "G"), "dtor": T("obj", "file", "G")}
LIT = {n: T("obj", "entries", n.args[1]) for n in NODE.values()}
OWNER = {v: k for k, v in LIT.items()}
KEYOFF, VALOFF = 32, 64
HOOKNODE = 16       # an entry starts behind its two links
def soft(I, st, props, rule, msg):
    # after a loop was generalised paths may be infeasible: nothing found there is a finding
    if st.wide: raise Undecided("after a loop was generalised: " + msg)
    conc.soft(I, st, props, rule, msg)
def exact(I, st, props, rule, msg):
    # after a loop was generalised values are over-approximated, so a value that looks wrong is not a finding
    if st.wide: 
        if os.environ.get("LGDBG"):
            print("WIDE", msg, I.loc(st)); print("   ", st.num); print("   ", {k: v for k, v in st.mon.items() if k in ("w", "snap", "rot", "scan")})
            for f in st.frames: print("    frame", f.fn.dem[:40], {k: v for k, v in f.regs.items() if v.__class__ is Lin or v.__class__ is Ptr and v.o in OWNER})
        raise Undecided("after a loop was generalised: " + msg)
    soft(I, st, props, rule, msg)

class Layout(Exception): pass

def members(mod, ty):
    t = mod.types.get(ty)
    if not t.__class__ is dict: raise Layout("class %s not found" % ty)
    return t["members"]

class Fields:
    def __init__(self, mod):
        self.names = {}; self.sizes = {}; self.types = {}; self.by = {}; mut = []
        for n, off, sz, ty in members(mod, TYPE):
            self.names[off] = n; self.sizes[off] = sz; self.types[off] = ty
            if ty in ("std::mutex",): mut.append(off)
            elif ty == "std::condition_variable": self.by.setdefault("cv", off)
            elif ty == "std::thread": self.by["thread"] = off
            elif ty.startswith("std::map<std::"): self.by["map"] = off
            elif "function<" in ty and "log_entry" in ty: self.by["log_writer"] = off
            elif "function<" in ty: self.by["header_writer"] = off
        self.size = mod.types[TYPE]["size"]; self.mutexes = mut
        for n, off, sz, ty in members(mod, FILE):
            if ty.startswith("std::") and "list<" in ty: self.buffer = VALOFF + off
            elif "path" in ty: self.path = VALOFF + off
            elif ty == "bool": self.dirs = VALOFF + off
        self.entry = {}; es = {}
        for n, off, sz, ty in members(mod, ENTRY): self.entry[n] = (off, sz)
        if "map" not in self.by or "thread" not in self.by or "cv" not in self.by or not mut or not hasattr(self, "buffer") or not hasattr(self, "path"): raise Layout("the logger's data members are not the ones this analysis understands")
        if not {"time", "thread_id", "level", "source", "message"} <= set(self.entry): raise Layout("log_entry has other members")
        self.end = Ptr(LOG, self.by["map"] + 8)
        self.scalars = [o for o in self.names if self.sizes[o] <= 8 and o not in self.by.values() and o not in mut]
    def name(self, off):
        c = [o for o in self.names if o <= off]
        return self.names[max(c)] if c else "?"
    def of(self, off):
        c = [o for o in self.names if o <= off]
        return max(c) if c else None

GETTERS = ("is_logging", "level", "create_dirs", "write_header", "buffer_max_size", "buffer_flush_size", "file_rotation_size", "file_rotation_limit", "num_discarded_logs")
CLIENT = ["e_should_log", "e_write", "e_writef", "e_stream", "e_stream_end", "e_format", "m_write", "m_writef", "m_stream", "m_format", "h_write", "h_writef", "h_stream", "h_format"]
SET = {"s_level": "level", "s_create_dirs": "create_dirs", "s_write_header": "write_header", "s_buffer_max_size": "buffer_max_size", "s_buffer_flush_size": "buffer_flush_size",
       "s_file_rotation_size": "file_rotation_size", "s_file_rotation_limit": "file_rotation_limit"}
TAG = {"level": "C11", "create_dirs": "C13", "write_header": "C13", "buffer_max_size": "C12", "buffer_flush_size": "C09", "file_rotation_size": "C13", "file_rotation_limit": "C13", "num_discarded_logs": "C12", "is_logging": "C11"}
LOGS = {"e_write", "e_writef", "e_stream", "e_stream_end", "e_format", "m_write", "m_writef", "m_stream", "m_format", "h_write", "h_writef", "h_stream", "h_format"}

def feasible(st, *ls):
    s = st.copy()
    return all(s.assume_ge(l) for l in ls)

class Mon(conc.Monitor):
    P = dict(lock="C08", wait="C09", join="C08 C10", life="C08")
    def __init__(self, L):
        self.L = L; self.F = L.F; self.lambda_bodies = {}; self.body_args = {}
    # ------------------------------------------------ shared values
    def get(self, st, k):
        off = self.L.off.get(k)
        if off is None: return None
        v = st.models.get((LOG, off))
        if v is not None and v[0] == "at": return v[1]
        e = st.mem[LOG].get(off)
        return e[1] if e is not None and e[1].__class__ in (int, Lin) else None
    def setv(self, I, st, off, v):
        if (LOG, off) in st.models: st.models[(LOG, off)] = ("at", v)
        else: I.put(st, LOG, off, self.F.sizes[off], v)
    def size(self, st, node): return st.models[(node, self.F.buffer)][1]
    def setsize(self, st, node, n): st.models[(node, self.F.buffer)] = ("lst", n)
    def lk(self, st): return (LOG, self.L.lockoff) in st.mon["held"]
    # ------------------------------------------------ accesses
    def excl(self, st):
        m = st.mon
        return m["role"] == "ctor" and not m["spawned"] or m["role"] == "dtor" and m["joined"]
    def access(self, I, st, p, write):
        if p.__class__ is not Ptr: return
        if p.o == LOG and p.off.__class__ is int:
            off = self.F.of(p.off)
            if off in self.F.mutexes or off == self.F.by["cv"]: return
            self.acc(I, st, self.F.names[off], write)
        elif p.o in NODE.values() and p.off.__class__ is int:
            self.acc(I, st, "log file field %d" % (p.off - VALOFF) if p.off >= VALOFF else "file table", write)
    def acc(self, I, st, field, write):
        self.L.naccess += 1
        if self.excl(st): return
        held = frozenset(o for b, o in st.mon["held"] if b == LOG)
        if st.mon["role"] == "ctor" and st.objs[LOG].get("thr_own") == field: return
        loc = I.loc(st)
        self.L.accs.setdefault((field, st.mon["role"], write, held), (loc, st.trace_list()[-25:], [f.fn.dem for f in st.frames][-6:]))
    # ------------------------------------------------ lock events
    def fresh(self, st, name, hi=(1 << 40) - 1, lo=0):
        a = atom(st.fresh(name)); st.assume_ge(ladd(a, -lo)); st.assume_ge(lsub(hi, a)); return a
    def acquire(self, I, st, k):
        if k != (LOG, self.L.lockoff): return
        m = st.mon; role = m["role"]; self.L.sections += 1
        if self.excl(st): return
        node = NODE.get(role)
        if role != "dtor": self.havoc(I, st)
        if role == "client":
            if m["present"] is False: m["present"] = None
            self.setsize(st, node, self.fresh(st, "n"))
        elif role == "thread":
            old = self.size(st, node); n = self.fresh(st, "n"); st.assume_ge(lsub(n, old)); self.setsize(st, node, n)
            m["scan"] = "none"; m["rot"] = None; m["err"] = False
        if m["dirty"]: m["dirty"] = False; m["owed"] = True
        m["base"] = (self.size(st, node) if node is not None else 0, self.get(st, "buffer_flush_size"), self.get(st, "is_logging"))
    def havoc(self, I, st):
        m = st.mon
        keep = {self.L.off[k] for k in ("level", "create_dirs", "write_header", "buffer_max_size", "file_rotation_size", "file_rotation_limit", "num_discarded_logs")}
        if m["role"] != "thread": keep.add(self.L.off["is_logging"])
        for off in self.F.scalars:
            if off in keep: continue
            bits = self.F.sizes[off] * 8; b = self.F.types[off].endswith("bool>") or self.F.types[off] == "bool"
            self.setv(I, st, off, self.fresh(st, self.F.names[off], 1 if b else (1 << min(bits, 40)) - 1))
    def release(self, I, st, k, how):
        if k != (LOG, self.L.lockoff): return
        m = st.mon; role = m["role"]
        if role == "thread":
            m["snap"] = self.size(st, NODE[role])
            return
        if self.excl(st): return
        if m["base"] is None: return
        self.owes(I, st)
    def owes(self, I, st):
        m = st.mon; n0, f0, l0 = m["base"]; node = NODE.get(m["role"])
        n1 = self.size(st, node) if node is not None else 0
        f1 = self.get(st, "buffer_flush_size"); l1 = self.get(st, "is_logging")
        if m.get("notified"): pass
        else:
            why = None
            if None in (f0, f1, l0, l1): raise Undecided("flush threshold is not tracked")
            if (l0 != l1) and feasible(st, ladd(l0, -1), lscale(l1, -1)): why = "logging was stopped"
            elif n0 != n1 or f0 != f1:
                for idle in (lscale(n0, -1), ladd(lsub(f0, n0), -1)):
                    if feasible(st, idle, ladd(n1, -1), lsub(n1, f1)): why = "a buffer has become ready to be written"
            if why: m["owed"] = True; m["why"] = why; self.L.demands += 1
        m["notified"] = False; m["base"] = None
    def notify(self, I, st, cv, all_):
        m = st.mon; self.L.notifies += 1
        if cv != (LOG, self.F.by["cv"]): return
        if self.lk(st): m["notified"] = True
        m["owed"] = False
    def settle(self, I, st, when):
        m = st.mon
        if m["dirty"]: soft(I, st, "C09", "changed-without-lock", "the condition the logging thread sleeps on is changed without its lock, so its wake-up may be lost (%s)" % when)
        elif m["owed"]: soft(I, st, "C09", "no-wake-up", "%s but the logging thread is not woken (%s)" % (m.get("why") or "its condition changed", when))
        m["owed"] = False; m["dirty"] = False
    def wait(self, I, st, cv, k, deadline):
        m = st.mon; self.L.hit("wait")
        if m["role"] != "thread" or k != (LOG, self.L.lockoff) or cv != (LOG, self.F.by["cv"]): return
        if deadline is not None: return
        il = self.get(st, "is_logging")
        if il is None or not st.num.entails(ladd(il, -1)): exact(I, st, "C09", "sleeps-after-stop", "the logging thread goes to sleep without having seen, under the lock, that logging goes on")
        elif m["scan"] != "done":
            soft(I, st, "C09", "sleeps-without-check", "the logging thread goes to sleep although it has not found every buffer idle since it last took the lock (%s)" % m["scan"])
    # ------------------------------------------------ threads
    def spawn(self, I, st, thr):
        st.mon["spawned"] = True; self.L.bodies[thr.args[0]] = list(self.body_args.get(thr.args[0], []))
        self.L.spawn_init(I, st)
    def assigned(self, I, st, p, v): pass
    def joined(self, I, st, p):
        m = st.mon
        if p.o == LOG: m["joined"] = True
        self.settle(I, st, "before joining it")
        il = self.get(st, "is_logging")
        if m["role"] == "dtor":
            if il is None or not st.num.entails(lscale(il, -1)): exact(I, st, "C10", "join-without-stop", "the logging thread is joined without having been told to stop")
            self.L.enter_node(I, st, "dtor")
    def destroy_member(self, I, st, p, what):
        if p.o == LOG and st.mon["role"] == "dtor" and not st.mon["joined"]:
            soft(I, st, "C08 C10", "thread-not-joined", "the logger's %s is destroyed while the logging thread may be running" % what)
    def blocking(self, I, st, what): pass
    def closure_size(self, I, st, p, g): return 8
    def empty_call(self, I, st): raise Undecided("empty writer")
    def closurecall(self, I, st, v, args): return None
    def now(self, I, st):
        a = atom(st.fresh("now")); st.mon["now"] = a; return a
    # ------------------------------------------------ the writers
    def usercall(self, I, st, tok, args, ins=None):
        L = self.L; m = st.mon; role = m["role"]
        if tok.op != "user": return None
        args = args[1:]
        self.fileop(I, st, "a user-supplied writer is called")
        o = args[0].o if args[0].__class__ is Ptr else None
        s = st.models.get((o, 0))
        if s is None or s[0] != "ofs": raise Undecided("writer called with another stream")
        if s[1] != "open": soft(I, st, "C10", "stream-not-open", "a writer is given a stream whose file is not open"); return [(st, DROP)]
        pre, hdr, size = s[4], s[5], s[3]
        H, R = self.get(st, "write_header"), self.get(st, "file_rotation_size")
        if tok.args[0] == "header":
            L.hit("header")
            if hdr: soft(I, st, "C13", "header-twice", "the header is written twice before a message")
            elif not st.num.entails_eq(size): self.decide(I, st, "C13", "header-not-empty", "the header is written to a file that may not be empty", ladd(size, -1))
            elif not st.num.entails(ladd(H, -1)): exact(I, st, "C13", "header-disabled", "a header is written although headers may be disabled")
            n = self.fresh(st, "size"); st.assume_ge(lsub(n, size))
            st.models[(o, 0)] = s[:3] + (n, pre, True); return [(st, None)]
        L.hit("write")
        e = args[1]
        if e.__class__ is not Ptr or e.o not in OWNER: raise Undecided("writer called with another entry")
        node = OWNER[e.o]; p = I.div_exact(ladd(e.off, -HOOKNODE), STEP)
        if p is None: raise Undecided("writer called with part of an entry")
        w = m["w"]
        if not st.num.entails_eq(lsub(p, ladd(w, 1))):
            self.exact(I, st, "C10", "write-order", "the entry handed to the writer is not the oldest one not yet written (it is number %r from the oldest, %r were written)" % (p, w)); return [(st, DROP)]
        if s[2] not in L.paths(st, node): soft(I, st, "C10", "wrong-file", "a message is written to another file than the one it was logged to"); return [(st, DROP)]
        # rotation and header
        if not hdr and feasible(st, ladd(R, -1), lsub(pre, R)): self.exact(I, st, "C13", "not-rotated", "a message is written although rotation is enabled and the file has reached its size limit")
        if not hdr and feasible(st, ladd(H, -1), lscale(pre, -1)): self.exact(I, st, "C13", "header-missing", "a message is written to an empty file without the header although headers are enabled")
        n = self.fresh(st, "size"); st.assume_ge(lsub(n, size))
        st.models[(o, 0)] = s[:3] + (n, n, False)
        m["w"] = ladd(w, 1); st.note("message written", I.loc(st)[:2])
        return [(st, None)]
    def exact(self, I, st, props, rule, msg): exact(I, st, props, rule, msg)
    def decide(self, I, st, props, rule, msg, bad):
        if feasible(st, bad): self.exact(I, st, props, rule, msg)
    def fileop(self, I, st, what):
        if st.mon["role"] == "thread" and self.lk(st): soft(I, st, "C10", "lock-held", "%s while the logging thread holds the logging lock" % what)
    def other(self, I, st, ins, fn, n, this, args, ps): return self.L.strop(I, st, ins, fn, n, this, args, ps)

class Strs(strs.Mon):
    def __init__(self, L): self.L = L
    def other(self, I, st, ins, fn, n, this, args, ps): return self.L.strop(I, st, ins, fn, n, this, args, ps)

def prefix(I, st, v, n):
    """first n units of pieces v"""
    out = []; done = 0
    for p in v:
        L = 1 if p[0] == "u" else p[3]
        rest = lsub(n, done)
        if st.num.entails_eq(rest): break
        if I.split_ge(st, lsub(rest, L)): out.append(p); done = ladd(done, L); continue
        if p[0] == "u": break
        out.append(("sl", p[1], p[2], rest)); done = n; break
    return tuple(q for q in out if not (q[0] == "sl" and q[3].__class__ is not int and st.num.entails_eq(q[3])))

def norm(st, v):
    return tuple(p for p in v if not (p[0] == "sl" and (p[3] == 0 or p[3].__class__ is Lin and st.num.entails_eq(p[3]))))
def same(st, a, b):
    """are two texts equal? True / False / None"""
    a, b = norm(st, a), norm(st, b)
    if a == b: return True
    if len(a) == len(b) and all(p[0] == q[0] and (p[1] == q[1]) for p, q in zip(a, b)):
        if all(p[0] == "u" or st.num.entails_eq(lsub(p[2], q[2])) and st.num.entails_eq(lsub(p[3], q[3])) for p, q in zip(a, b)): return True
    return False

def conc_params(fn):
    d = 0; cur = ""; out = []
    for ch in fn.params:
        if ch in "(<": d += 1
        if ch in ")>": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Logger:
    def __init__(self, std, defs=()):
        self.mod = ir.compile_module("logger.cpp", std=std, defs=defs)
        self.F = Fields(self.mod); self.off = {}; self.bodies = {}; self.accs = {}; self.hits = {}
        self.naccess = self.sections = self.demands = self.notifies = 0; self.runs = []; self.lockoff = None
        self.mon = None; self.viol = []
        self.ms = self.models()
        self.anchors()
    def hit(self, k): self.hits[k] = self.hits.get(k, 0) + 1
    # ------------------------------------------------ state
    def interp(self):
        I = Interp(self.mod, self.ms, dict(nowrap=True, widen_after=3, exact=("out-of-bounds",), lifetimes=True, slots=True, exact_visits=3, exact_max=24))
        I.on_load = self.on_load; I.on_store = self.on_store; I.on_head = self.on_head; I.on_rmw = self.on_rmw
        return I
    def atomic_now(self, st):
        f = st.frames[-1]
        return f.fn.blocks[f.bb][f.pc].x.get("atomic")
    def on_rmw(self, I, st, p, sub, v):
        if p.__class__ is not Ptr or st.models.get((p.o, p.off), ("",))[0] != "at": return None
        if sub == "add": return self.rmw(I, st, p, sgn(v, 64) if v.__class__ is int else v)
        if sub == "sub": return self.rmw(I, st, p, lscale(v, -1))
        old = st.models[(p.o, p.off)][1]
        if sub == "xchg":
            st.models[(p.o, p.off)] = ("at", v)
            if p.o == LOG: self.stored(I, st, p.off, v)
            return old
        raise Undecided("atomic operation " + sub)
    def on_head(self, I, st):
        # destroyed temporaries are as good as never constructed
        for k in [k for k, v in st.models.items() if v[0] == "gone" and st.objs.get(k[0], {}).get("kind") == "stack"]: del st.models[k]
    def state(self, role):
        st = State(); F = self.F; mon = self.mon
        st.objs[LOG] = dict(kind="shared", size=F.size, name="logger", lazy=True); st.mem[LOG] = {}
        st.mon = dict(held=(), role=role, spawned=False, joined=False, dirty=False, owed=False, why=None, base=None, notified=False, w=0, snap=0, scan="none", present=None,
                      appended=0, discarded=0, va=(), fmt=None, marks=0, now=None, err=False, rot=None, lvl=None, want=None, scheme=None, entry="")
        I = None
        for off in F.scalars:
            ty = F.types[off]; b = ty.endswith("bool>") or ty == "bool"; lvl = "log_level" in ty
            a = atom(T("in", F.names[off])); lo, hi = (0, 1) if b else (-128, 127) if lvl else (0, (1 << min(40, 8 * F.sizes[off])) - 1)
            st.assume_ge(ladd(a, -lo)); st.assume_ge(lsub(hi, a))
            if ty.startswith("std::atomic"): st.models[(LOG, off)] = ("at", a)
            else: st.mem[LOG] = dict(st.mem[LOG]); st.mem[LOG][off] = (F.sizes[off], a)
        for k, n in (("log_writer", "log"), ("header_writer", "header")):
            if k in F.by: st.models[(LOG, F.by[k])] = ("fn", T("user", n))
        st.mon["nonempty"] = (T("user", "log"), T("user", "header"))
        st.models[(LOG, F.by["thread"])] = ("thread", T("thr", "body"))
        node = NODE.get(role)
        if node is not None:
            st.objs[node] = dict(kind="fnode", size=None, name="log file"); st.mem[node] = {}
            lit = LIT[node]
            st.objs[lit] = dict(kind="array", es=STEP, len=1 << 50, elem=None, name="buffer", size=None); st.mem[lit] = {}
            self.reset_node(None, st, node)
        return st
    def text(self, st, name):
        o, n = seq.mkarray(st, name, es=1, nul=1, zfree=True, handler=lambda I, st, o, idx, ty, info: T("elem", o, idx))
        return (("sl", o, 0, n),)
    def reset_node(self, I, st, node):
        st.models[(node, self.F.buffer)] = ("lst", self.mon.fresh(st, "n"))
        key = self.text(st, "file") if node == NODE["client"] else self.text(st, "key")
        st.models[(node, KEYOFF)] = ("str", key)
        st.models[(node, self.F.path)] = ("path", T("maybe"))
        if hasattr(self.F, "dirs"): st.mem[node] = {self.F.dirs: (1, self.mon.fresh(st, "dirs", 1))}
    def enter_node(self, I, st, role):
        self.reset_node(I, st, NODE[role]); st.mon["w"] = 0; st.mon["err"] = False; st.mon["rot"] = None
    def paths(self, st, node):
        t = T("text", st.models[(node, KEYOFF)][1]); return (T("abs", t), t)
    def on_load(self, I, st, p, size, ty):
        o = p.o
        if o in OWNER: return self.entry_load(I, st, p, size, ty)
        if o == LOG or o in NODE.values():
            if not (p.off.__class__ is int): return None
            if o == LOG:
                off = self.F.of(p.off)
                if (LOG, off) in st.models and st.models[(LOG, off)][0] == "at":
                    if not self.atomic_now(st): self.mon.acc(I, st, self.F.names[off] + " (as a plain object)", False)
                    return st.models[(LOG, off)][1]
            self.mon.access(I, st, p, False)
            return None
        info = st.objs.get(o)
        if info is not None and st.models.get((o, 0), ("",))[0] == "ofs":
            if ty == "p" and p.off == 0:
                v = T("obj", "vtable"); st.objs.setdefault(v, dict(kind="vtable", size=None)); st.mem.setdefault(v, {}); return Ptr(v, 0)
        if info is not None and info["kind"] == "vtable": return 248
        return None
    def on_store(self, I, st, p, size, v):
        if p.o in OWNER: raise Undecided("write into a buffered entry")
        if p.o == LOG or p.o in NODE.values():
            if p.off.__class__ is int:
                off = self.F.of(p.off) if p.o == LOG else None
                if p.o == LOG and (LOG, off) in st.models and st.models[(LOG, off)][0] == "at":
                    if not self.atomic_now(st): self.mon.acc(I, st, self.F.names[off] + " (as a plain object)", True)
                    st.models[(LOG, off)] = ("at", v); self.stored(I, st, off, v); return True
                self.mon.access(I, st, p, True)
                if p.o == LOG and off in self.F.scalars: self.stored(I, st, off, v)
        return False
    def entry_load(self, I, st, p, size, ty):
        """links and fields of the entries of a buffer, addressed by distance from the end"""
        m = st.mon; node = OWNER[p.o]; n = self.mon.size(st, node)
        c = p.off if p.off.__class__ is int else p.off.c
        k = c % STEP; pos = I.div_exact(ladd(p.off, -k), STEP)
        if pos is None: raise Undecided("entry address")
        locked = self.mon.lk(st) or self.mon.excl(st)
        lim = n if locked else m["snap"]
        if not locked and m["role"] == "client": self.mon.acc(I, st, "message buffer", False); lim = n
        if k == 8:      # previous: one entry newer
            if not st.num.entails(lsub(ladd(lim, -1), pos)):
                if feasible(st, lsub(pos, lim)):
                    self.mon.exact(I, st, "C08 C10", "leaves-snapshot", "the logging thread moves past the newest entry it may look at" + ("" if locked else " without the lock")); raise Split([])
            return Ptr(p.o, lscale(ladd(pos, 1), STEP))
        if k == 0:
            if not st.num.entails(ladd(pos, -1)):
                # from the end position the next one is the newest
                if st.num.entails_eq(pos):
                    if not locked: self.mon.acc(I, st, "message buffer", False)
                    return Ptr(p.o, lscale(n, STEP))
                I.split_ge(st, ladd(pos, -1))
            return Ptr(p.o, lscale(ladd(pos, -1), STEP))
        if not (st.num.entails(ladd(pos, -1)) and st.num.entails(lsub(lim, pos))):
            if feasible(st, lscale(pos, -1)) or feasible(st, ladd(lsub(pos, lim), -1)):
                self.mon.exact(I, st, "C08 C10", "not-an-entry", "an entry outside the part of the buffer that may be read is read"); raise Split([])
        return T("entry", pos, k - HOOKNODE) if ty != "p" else None
    # ------------------------------------------------ rules on shared scalars
    def stored(self, I, st, off, v):
        m = st.mon; k = self.back.get(off) if hasattr(self, "back") else None
        if k in ("buffer_flush_size", "is_logging") and not self.mon.excl(st) and not self.mon.lk(st) and m["role"] != "ctor": m["dirty"] = True
        if k == "num_discarded_logs" and m["entry"] not in ("s_reset", "e_ctor"): soft(I, st, "C12", "discard-count-overwritten", "the discard counter is overwritten instead of being incremented atomically, so a concurrent change may be lost")
    def spawn_init(self, I, st): pass
    # ------------------------------------------------ anchors
    def anchors(self):
        """which member each getter reads"""
        self.probe = None
        for g in GETTERS:
            fn = self.mod.funcs.get("g_" + g)
            if fn is None or fn.decl: raise Layout("getter %s not found" % g)
            self.probe = set(); st = self.state("ctor"); st.mon["entry"] = "g_" + g; I = self.interp()
            outs = I.run(fn, [Ptr(LOG, 0)], st)
            offs = {o for o in self.probe if o in self.F.scalars}
            for k, s, v in outs:
                # the member whose initial value is returned
                for o in list(self.F.scalars):
                    if v.__class__ is Lin and v == atom(T("in", self.F.names[o])): offs = {o}
            if len(offs) != 1: raise Layout("getter %s does not return one data member" % g)
            self.off[g] = offs.pop()
        self.back = {v: k for k, v in self.off.items()}
        self.getter_conflict = [k for k in self.off if self.back[self.off[k]] != k]
        self.probe = None
        self.lockoff = -1; locked = set()
        fn = self.mod.entry("s_log_writer"); st = self.state("ctor"); st.mon["entry"] = "probe"
        self.lockprobe = set(); w = st.new_obj("arg", 32); st.models[(w, 0)] = ("fn", T("user", "log"))
        self.interp().run(fn, [Ptr(LOG, 0), Ptr(w, 0)], st)
        cfg = self.lockprobe; self.lockprobe = None
        rest = [o for o in self.F.mutexes if o not in cfg]
        if len(rest) != 1:
            rest = [o for o in self.F.mutexes if "onfig" not in self.F.names[o]] or self.F.mutexes
        self.lockoff = rest[0]
        self.accs = {}; self.naccess = self.sections = 0; self.viol = []
    # ------------------------------------------------ models
    def models(self):
        ms = M.base(); L = self; F = self.F
        mon = self.mon = Mon(self); conc.install(ms, mon)
        sm = self.sm = Strs(self); strs.install(ms, sm)
        lock0 = ms["std::mutex::lock"]
        def lock(I, st, ins, fn, args):
            if L.__dict__.get("lockprobe") is not None and args[0].o == LOG: L.lockprobe.add(args[0].off)
            return lock0(I, st, ins, fn, args)
        ms["std::mutex::lock"] = lock
        # ---- atomics
        def aget(I, st, p):
            if p.__class__ is not Ptr: raise Undecided("atomic through %r" % (p,))
            if L.__dict__.get("probe") is not None and p.o == LOG: L.probe.add(p.off)
            v = st.models.get((p.o, p.off))
            if v is None: raise Undecided("unknown atomic object")
            return v[1]
        def aput(I, st, p, v, rmw=None):
            st.models[(p.o, p.off)] = ("at", v)
            if p.o == LOG and rmw is None: L.stored(I, st, p.off, v)
        def rmw(I, st, p, delta):
            old = aget(I, st, p)
            if p.o == LOG and L.back.get(p.off) == "num_discarded_logs":
                mm = st.mon; n = mon.size(st, NODE["client"]); mx = mon.get(st, "buffer_max_size")
                if delta != 1: exact(I, st, "C12", "discard-count", "the discard counter changes by %r instead of one" % (delta,))
                elif mm["role"] == "client":
                    if feasible(st, lscale(mx, -1)): exact(I, st, "C12", "discard-unlimited", "a message is counted as discarded although the buffer may be unlimited")
                    elif feasible(st, ladd(lsub(mx, n), -1)): exact(I, st, "C12", "discard-not-full", "a message is discarded although its buffer holds fewer entries than the limit")
                    L.enabled(I, st, "counted as discarded")
                    mm["discarded"] += 1
            elif p.o == LOG and L.back.get(p.off) in ("buffer_flush_size", "is_logging"): L.stored(I, st, p.off, None)
            st.models[(p.o, p.off)] = ("at", ladd(old, delta) if old.__class__ in (int, Lin) and delta is not None else atom(st.fresh("at")))
            return old
        self.rmw = rmw
        def at(I, st, ins, fn, args):
            n = fn.norm.rsplit("::", 1)[1]; p = args[0]
            if n in ("atomic", "__atomic_base"):
                if p.o == LOG: mon.access(I, st, p, True)
                st.models[(p.o, p.off)] = ("at", args[1] if len(args) > 1 else 0); return [(st, None)]
            if n == "load" or n.startswith("operator ") : return [(st, aget(I, st, p))]
            if n == "store": aput(I, st, p, args[1]); return [(st, None)]
            if n == "operator=": aput(I, st, p, args[1]); return [(st, args[1])]
            if n == "exchange": v = aget(I, st, p); aput(I, st, p, args[1]); return [(st, v)]
            if n in ("operator++", "operator--"):
                d = 1 if n[-1] == "+" else -1; o = rmw(I, st, p, d)
                return [(st, o if "int" in fn.params else ladd(o, d))]
            if n in ("fetch_add", "fetch_sub", "operator+=", "operator-="):
                d = args[1] if n in ("fetch_add", "operator+=") else lscale(args[1], -1); o = rmw(I, st, p, d)
                return [(st, o if n.startswith("fetch") else ladd(o, d))]
            raise Undecided("atomic operation " + n)
        ms["*"].insert(0, (lambda f: (f.norm.startswith("std::atomic::") or f.norm.startswith("std::__atomic_base::")) and f.norm.count("::") == 2, at))
        # ---- buffers
        def lst(I, st, ins, fn, args):
            n = fn.norm.rsplit("::", 1)[1]; p = args[0]
            if n == "list":
                if len(args) > 1 and fn.params.startswith("std::list"): st.models[(p.o, p.off)] = st.models[(args[1].o, args[1].off)]
                elif len(args) == 1: st.models[(p.o, p.off)] = ("lst", 0)
                else: raise Undecided("list constructor")
                return [(st, None)]
            if n == "~list": st.models.pop((p.o, p.off), None); return [(st, None)]
            v = st.models.get((p.o, p.off))
            if p.o not in LIT or p.off != F.buffer: return inline(I, st, fn, args)
            node = p.o; lit = LIT[node]; sz = v[1]
            def it(pos): return Ptr(lit, lscale(pos, STEP))
            if n in ("end", "cend"): return [(st, it(0))]
            w = n in ("erase", "clear", "pop_back", "pop_front")
            if w or n in ("begin", "cbegin", "size", "empty", "front", "back"): mon.acc(I, st, "message buffer", w)
            if n in ("begin", "cbegin"): return [(st, it(sz))]
            if n == "size": return [(st, sz)]
            if n == "empty": return [(st, I.cmp(st, "eq", sz, 0, 64))]
            if n == "front": return [(st, Ptr(lit, ladd(lscale(sz, STEP), HOOKNODE)))]
            if n == "back": return [(st, Ptr(lit, STEP + HOOKNODE))]
            if w:
                if n == "clear": a, b = sz, 0; r = None
                elif n == "pop_back": a, b = 1, 0; r = None
                elif n == "pop_front": a, b = sz, ladd(sz, -1); r = None
                else:
                    pos = [I.div_exact(x.off, STEP) if x.__class__ is Ptr and x.o == lit else None for x in args[1:]]
                    if None in pos: raise Undecided("erase with another iterator")
                    a, b = (pos[0], pos[1]) if len(pos) == 2 else (pos[0], ladd(pos[0], -1)); r = it(b)
                return L.erase(I, st, node, a, b, r)
            return inline(I, st, fn, args)
        def inline(I, st, fn, args):
            if fn.decl: raise Undecided("call of unmodelled " + fn.dem)
            return [(st, Call(fn, args))]
        ms["*"].insert(0, (lambda f: f.norm.startswith("std::list::") and f.norm.count("::") == 2 and "log_entry" in f.dem, lst))
        ms["std::_List_base::_M_inc_size"] = M.ret(); ms["std::_List_base::_M_dec_size"] = M.ret()
        ms["std::__detail::_List_node_base::_M_hook"] = self.hook
        # ---- the file table
        def table(I, st, ins, fn, args):
            n = fn.norm.rsplit("::", 1)[1]; p = args[0]; m = st.mon; role = m["role"]
            if n in ("map", "~map"):
                if p.o == LOG:
                    mon.access(I, st, p, True)
                    if n == "~map" and role == "dtor": L.table_destroyed(I, st)
                    return [(st, None)]
                return inline(I, st, fn, args)
            if p.o != LOG or p.off != F.by["map"]: return inline(I, st, fn, args)
            if n in ("end", "cend"): return [(st, F.end)]
            w = n in ("emplace", "try_emplace", "insert", "operator[]", "erase", "clear", "insert_or_assign", "emplace_hint")
            mon.acc(I, st, "file table", w)
            if n in ("find", "count", "contains", "at", "emplace", "try_emplace", "operator[]"):
                if role != "client": raise Undecided("keyed access of the logging thread")
                node = NODE["client"]
                key = sm.get(I, st, args[1])
                if not same(st, key, st.models[(node, KEYOFF)][1]): exact(I, st, "C10", "wrong-file", "a message is filed under another name than the one given"); return [(st, DROP)]
                if m["present"] is None:
                    a = st; b = st.copy(); a.mon["present"] = True; b.mon["present"] = False; raise Split([a, b])
                new = False
                if not m["present"] and n in ("emplace", "try_emplace", "operator[]"):
                    new = True; m["present"] = True; nn = 0
                    st.models[(node, F.path)] = ("path", T("empty"))
                    if n == "emplace" and len(args) == 3:
                        t = args[2]; e = st.models.get((t.o, ladd(t.off, F.buffer - VALOFF)))
                        if e is None or e[0] != "lst": raise Undecided("new file entry")
                        nn = e[1]; st.models[(node, F.path)] = st.models.get((t.o, ladd(t.off, F.path - VALOFF)), ("path", T("maybe")))
                    elif n == "emplace": raise Undecided("new file entry")
                    mon.setsize(st, node, nn)
                    # a file that did not exist had no messages
                    if m["base"] is not None: m["base"] = (0,) + tuple(m["base"][1:])
                if n == "find": return [(st, Ptr(node, 0) if m["present"] else F.end)]
                if n in ("count", "contains"): return [(st, int(m["present"]))]
                if n == "at":
                    if not m["present"]: return [(st, Throw("_ZTISt12out_of_range", "map::at"))]
                    return [(st, Ptr(node, VALOFF))]
                if n == "operator[]": return [(st, Ptr(node, VALOFF))]
                return [(st, Agg((Ptr(node, 0), int(new))))]
            if n in ("begin", "cbegin"):
                if role not in ("thread", "dtor"): raise Undecided("traversal of the file table")
                L.leave(I, st)
                a = st; b = st.copy()
                L.enter_node(I, a, role); a.mon["scan"] = "run"
                b.mon["scan"] = "done"
                return [(a, Ptr(NODE[role], 0)), (b, F.end)]
            if n in ("size", "empty"):
                raise Undecided("size of the file table")
            raise Undecided("unmodelled operation of the file table: " + n)
        ms["*"].insert(0, (lambda f: f.norm.startswith("std::map::") and "log_file" in f.dem, table))
        def incr(I, st, ins, fn, args):
            p = args[0]; role = st.mon["role"]
            if role not in ("thread", "dtor") or p.__class__ is not Ptr or p.o != NODE[role]: raise Undecided("tree iterator increment")
            mon.acc(I, st, "file table", False)
            L.leave(I, st, True)
            a = st; b = st.copy(); L.enter_node(I, a, role)
            if b.mon["scan"] == "run": b.mon["scan"] = "done"
            return [(a, Ptr(NODE[role], 0)), (b, F.end)]
        ms["std::_Rb_tree_increment"] = incr
        # ---- text
        def tostr(I, st, ins, fn, args):
            o = st.new_obj("array", None, es=1, len=0, elem=lambda I, st, o, idx, ty, info: T("elem", o, idx), nul=1, name="number", dec=args[1], zfree=True)
            n = mon.fresh(st, "digits", 40, 1); st.objs[o] = dict(st.objs[o], len=n)
            st.models[(args[0].o, args[0].off)] = ("str", (("sl", o, 0, n),)); return [(st, None)]
        ms["std::to_string"] = tostr
        def splus(I, st, ins, fn, args):
            ps = conc_params(fn); out = ()
            for t, a in zip(ps, args[1:]):
                if t.startswith("std::basic_string"): out = strs.cat(out, sm.get(I, st, a))
                elif t == "char const*": out = strs.cat(out, sm.arr(I, st, a, 1, sm.zlen(I, st, a, 1)))
                elif t == "char": out = strs.cat(out, (("u", a),))
                else: raise Undecided("operator+ of " + t)
            st.models[(args[0].o, args[0].off)] = ("str", out); return [(st, None)]
        ms["*"].insert(0, (lambda f: f.norm == "std::operator+" and "basic_string" in f.params and len(f.args) == 3, splus))
        def vformat(I, st, ins, fn, args):
            st.models[(args[0].o, args[0].off)] = ("str", L.text(st, "formatted")); st.mon["fmt"] = "ok"; return [(st, None)]
        ms["std::vformat"] = vformat; ms["std::format"] = vformat
        ms["*"].append((lambda f: f.norm.startswith("std::__format::_Arg_store::") or f.norm.startswith("std::basic_format_args::") or f.norm.startswith("std::make_format_args"), M.ret()))
        # ---- output streams
        def oss_ctor(I, st, ins, fn, args): st.models[(args[0].o, args[0].off)] = ("oss", 0); return [(st, None)]
        ms["std::basic_ostringstream::basic_ostringstream"] = oss_ctor; ms["std::basic_ostringstream::~basic_ostringstream"] = M.ret()
        def oss_str(I, st, ins, fn, args): st.models[(args[0].o, args[0].off)] = ("str", L.text(st, "streamed")); return [(st, None)]
        ms["std::basic_ostringstream::str"] = oss_str
        def insert(I, st, ins, fn, args):
            p = args[0]
            s = st.models.get((p.o, 0)) if p.__class__ is Ptr else None
            if s is not None and s[0] == "ofs":
                if s[1] != "open": soft(I, st, "C10", "stream-not-open", "text is written to a stream whose file is not open"); return [(st, DROP)]
                n = mon.fresh(st, "size"); st.assume_ge(lsub(n, s[3])); st.assume_ge(ladd(lsub(n, s[3]), -1) if "char)" in fn.dem or fn.params.endswith(" char") else lsub(n, s[3]))
                st.models[(p.o, 0)] = s[:3] + (n, s[4] if s[5] else n, s[5])
            return [(st, p)]
        ms["*"].append((lambda f: f.norm in ("std::operator<<", "std::ostream::operator<<", "std::basic_ostream::operator<<", "std::ostream::put", "std::basic_ostream::put", "std::ostream::write", "std::basic_ostream::write", "std::endl"), insert))
        ms["*"].append((lambda f: f.norm in ("std::ostream::flush", "std::basic_ostream::flush", "std::flush"), lambda I, st, ins, fn, args: [(st, args[0])]))
        def ofs_ctor(I, st, ins, fn, args):
            if len(args) > 1: raise Undecided("file stream constructor")
            st.models[(args[0].o, 0)] = ("ofs", "closed", None, 0, 0, False); return [(st, None)]
        ms["std::basic_ofstream::basic_ofstream"] = ofs_ctor; ms["std::basic_ofstream::~basic_ofstream"] = M.ret()
        def ofs_open(I, st, ins, fn, args):
            mon.fileop(I, st, "a file is opened"); p = args[0]
            q = L.pathval(I, st, args[1], fn)
            mode = args[2] if len(args) > 2 else 0
            if mode.__class__ is not int: raise Undecided("open mode")
            if not mode & 1: soft(I, st, "C10 C13", "truncates", "the log file is opened without append mode, so what it holds is lost"); return [(st, DROP)]
            L.reopened(I, st, q)
            out = []
            b = st.copy(); b.models[(p.o, 0)] = ("ofs", "failed", q, 0, 0, False); b.mon["err"] = True; b.note("opening the file fails", I.loc(b)[:2]); out.append((b, None))
            zero = q in L.allpaths(st) and st.mon.get("rot") is not None and st.mon["rot"].get("zero")
            n = 0 if zero else mon.fresh(st, "size")
            st.models[(p.o, 0)] = ("ofs", "open", q, n, n, False); st.mon["rot"] = None
            return [(st, None)] + out
        ms["std::basic_ofstream::open"] = ofs_open
        def ofsget(st, p):
            s = st.models.get((p.o, 0)) if p.__class__ is Ptr else None
            if s is None or s[0] != "ofs": raise Undecided("unknown stream")
            return s
        ms["std::basic_ofstream::is_open"] = lambda I, st, ins, fn, args: [(st, int(ofsget(st, args[0])[1] == "open"))]
        def ofs_close(I, st, ins, fn, args):
            s = ofsget(st, args[0]); st.models[(args[0].o, 0)] = ("ofs", "closed", s[2], s[3], s[4], s[5]); return [(st, None)]
        ms["std::basic_ofstream::close"] = ofs_close
        def good(pos):
            def h(I, st, ins, fn, args): return [(st, int((ofsget(st, args[0])[1] != "failed") == pos))]
            return h
        for n in ("good", "operator bool"): ms["std::basic_ios::" + n] = good(True)
        for n in ("fail", "bad", "operator!"): ms["std::basic_ios::" + n] = good(False)
        def tellp(I, st, ins, fn, args):
            s = ofsget(st, args[0])
            if s[1] != "open": return [(st, Agg((-1, 0)))]
            return [(st, Agg((s[3], 0)))]
        ms["std::ostream::tellp"] = tellp; ms["std::basic_ostream::tellp"] = tellp
        # ---- paths and the file system
        def path(I, st, ins, fn, args):
            n = fn.norm.rsplit("::", 1)[1]; p = args[0]
            if n == "path":
                if len(args) == 1 or not fn.params: st.models[(p.o, p.off)] = ("path", T("empty")); return [(st, None)]
                if fn.params.startswith("std::filesystem::path"): st.models[(p.o, p.off)] = ("path", L.pget(I, st, args[1])); return [(st, None)]
                if fn.params.startswith("std::basic_string"): v = sm.get(I, st, args[1])
                elif fn.params.startswith("char const*"): v = sm.arr(I, st, args[1], 1, sm.zlen(I, st, args[1], 1))
                else: raise Undecided("path from " + fn.params[:60])
                st.models[(p.o, p.off)] = ("path", T("text", v)); return [(st, None)]
            if n == "~path":
                if p.o not in NODE.values(): st.models.pop((p.o, p.off), None)
                return [(st, None)]
            if n == "operator=":
                if fn.params.startswith("std::basic_string"): v = T("text", sm.get(I, st, args[1]))
                else: v = L.pget(I, st, args[1])
                if p.o in NODE.values():
                    mon.access(I, st, p, True)
                    if v not in L.paths(st, p.o) and v != T("empty"): soft(I, st, "C10", "wrong-file", "a log file's path is set to something that is not the path of its name")
                st.models[(p.o, p.off)] = ("path", v); return [(st, p)]
            if n == "empty": return [(st, int(L.pget(I, st, p) == T("empty")))]
            if n in ("clear",):
                if p.o in NODE.values(): mon.access(I, st, p, True)
                st.models[(p.o, p.off)] = ("path", T("empty")); return [(st, None)]
            if n in ("stem", "extension", "parent_path", "filename"):
                st.models[(args[0].o, args[0].off)] = ("path", T(n, L.pget(I, st, args[1]))); return [(st, None)]
            if n in ("string", "generic_string"):
                st.models[(args[0].o, args[0].off)] = ("str", L.ptext(I, st, L.pget(I, st, args[1]))); return [(st, None)]
            if n in ("operator/=", "append") and "path" in fn.params:
                st.models[(p.o, p.off)] = ("path", T("join", L.pget(I, st, p), L.pget(I, st, args[1]))); return [(st, p)]
            raise Undecided("unmodelled path operation " + n)
        ms["*"].insert(0, (lambda f: f.norm.startswith("std::filesystem::path::") and f.norm.count("::") == 3, path))
        def pjoin(I, st, ins, fn, args):
            st.models[(args[0].o, args[0].off)] = ("path", T("join", L.pget(I, st, args[1]), L.pget(I, st, args[2]))); return [(st, None)]
        ms["std::filesystem::operator/"] = pjoin
        def fsop(n, h):
            def g(I, st, ins, fn, args):
                mon.fileop(I, st, "the file system is accessed"); out = []
                if "error_code" not in fn.params:
                    t = st.copy(); t.mon["err"] = True; t.note(n + " fails", I.loc(t)[:2]); out.append((t, Throw(FSERR, "file system")))
                return h(I, st, fn, args) + out
            ms["std::filesystem::" + n] = g
        def f_abs(I, st, fn, args):
            st.models[(args[0].o, args[0].off)] = ("path", T("abs", L.pget(I, st, args[1]))); return [(st, None)]
        fsop("absolute", f_abs)
        fsop("create_directories", lambda I, st, fn, args: [(st, 1), (st.copy(), 0)]); fsop("create_directory", lambda I, st, fn, args: [(st, 1), (st.copy(), 0)])
        fsop("exists", lambda I, st, fn, args: L.f_exists(I, st, L.pget(I, st, args[0])))
        fsop("remove", lambda I, st, fn, args: L.f_remove(I, st, L.pget(I, st, args[0])))
        fsop("rename", lambda I, st, fn, args: L.f_rename(I, st, L.pget(I, st, args[0]), L.pget(I, st, args[1])))
        ms["std::filesystem::filesystem_error::filesystem_error"] = M.ret(); ms["std::filesystem::filesystem_error::~filesystem_error"] = M.ret()
        ms["std::make_error_code"] = lambda I, st, ins, fn, args: [(st, Agg((5, NULL)))]
        # ---- caller
        def tid(I, st, ins, fn, args): return [(st, atom(T("tid")))]
        ms["pluto::thread_id"] = tid
        def mark(I, st, ins, fn, args):
            L.enabled(I, st, "evaluated", "a message argument is"); st.mon["marks"] += 1
            a = atom(T("mark")); st.assume_ge(ladd(a, 1 << 31)); st.assume_ge(lsub((1 << 31) - 1, a)); return [(st, a)]
        ms["mark"] = mark
        # ---- printf
        def vkey(p):
            if p.__class__ is not Ptr: raise Undecided("va_list")
            return (p.o, p.off)
        def va(st): return dict(st.mon["va"])
        def vput(st, d): st.mon["va"] = tuple(sorted(d.items(), key=repr))
        def va_start(I, st, ins, fn, args):
            d = va(st); k = vkey(args[0])
            if k in d: soft(I, st, "C14", "va-start-twice", "an argument list is started twice without being released")
            d[k] = "fresh"; vput(st, d); return [(st, None)]
        def va_copy(I, st, ins, fn, args):
            d = va(st); k = vkey(args[0]); s = d.get(vkey(args[1]))
            if s is None: soft(I, st, "C14", "va-copy-closed", "an argument list is copied that is not started")
            elif s == "used": soft(I, st, "C14", "va-copy-used", "an argument list is copied after it was used")
            if k in d: soft(I, st, "C14", "va-start-twice", "an argument list is overwritten without being released")
            d[k] = "fresh"; vput(st, d); return [(st, None)]
        def va_end(I, st, ins, fn, args):
            d = va(st); k = vkey(args[0])
            if k not in d: soft(I, st, "C14", "va-end-twice", "an argument list is released that is not started")
            d.pop(k, None); vput(st, d); return [(st, None)]
        ms["llvm.va_start"] = va_start; ms["llvm.va_copy"] = va_copy; ms["llvm.va_end"] = va_end
        def vsn(I, st, ins, fn, args):
            buf, size, fmt, ap = args
            if ap.__class__ is not Ptr: raise Undecided("va_list")
            d = va(st); k = vkey(ap); L.hit("vsnprintf")
            if k not in d: soft(I, st, "C14", "va-not-started", "formatting uses an argument list that is not started"); return [(st, DROP)]
            if d[k] == "used": soft(I, st, "C14", "va-used-twice", "formatting uses an argument list a second time without restarting it"); return [(st, DROP)]
            if size != 0 and buf.__class__ is Ptr and buf.o is not None:
                q = L.text(st, "formatted")[0][3]; st.assume_ge(lsub((1 << 31) - 3, q)); I.split_ge(st, lsub(ladd(size, -1), q))    # forks before anything is recorded
            d[k] = "used"; vput(st, d)
            sch = st.models.get(("*", "scheme"))
            if fmt.__class__ is not Ptr or st.mon["scheme"] is not None and fmt != st.mon["scheme"]: soft(I, st, "C14", "wrong-format", "formatting uses something else than the given format"); return [(st, DROP)]
            f = L.text(st, "formatted"); n = f[0][3]; st.assume_ge(lsub((1 << 31) - 3, n))
            junk = L.text(st, "junk")[0][1]
            bad = st.copy(); bad.mon["fmt"] = "fail"; out = [(bad, (1 << 32) - 1)]; bad.note("formatting fails", I.loc(bad)[:2])
            if st.mon["fmt"] is None: st.mon["fmt"] = "ok"
            if buf.__class__ is Ptr and buf.o is None:
                if size != 0: soft(I, st, "C14", "null-buffer", "formatting writes through a null pointer"); return [(st, DROP)]
                return [(st, n)] + out
            if buf.__class__ is not Ptr: raise Undecided("format buffer")
            inf = st.objs.get(buf.o)
            if inf is None or "skey" not in inf:
                if inf is not None and inf.get("size") is not None and buf.off.__class__ is int and size.__class__ is int and size > inf["size"] - buf.off:
                    exact(I, st, "C14", "overflow", "formatting may write %d bytes into a buffer of %d" % (size, inf["size"] - buf.off)); return [(st, DROP)]
                if inf is None or inf.get("size") is None or inf.get("dead") or inf.get("kind") not in ("stack", "heap", "array") or buf.off != 0: raise Undecided("format buffer")
                # a plain character array: it becomes a text whose terminator is known
                if size.__class__ is Lin:
                    if not (st.num.entails(size) and st.num.entails(lsub(inf["size"], size))): exact(I, st, "C14", "overflow", "formatting may write %r bytes into a buffer of %d" % (size, inf["size"])); return [(st, DROP)]
                    raise Undecided("format buffer of varying size")
                if size == 0: return [(st, n)] + out
                def become(s, arr, ln):
                    s.objs[buf.o] = dict(inf, kind="array", es=1, len=ln, nul=1, zfree=True, name="text", elem=lambda I, st, o, idx, ty, info: T("elem", arr, idx),
                                         piece=lambda I, st, i, m: (("sl", arr, i, m),)); s.mem[buf.o] = {}
                for s, r in out: become(s, junk, size - 1); s.objs[junk] = dict(s.objs[junk], len=size - 1)
                fits = I.split_ge(st, lsub(size - 1, n))
                become(st, f[0][1], n if fits else size - 1)
                return [(st, n)] + out
            key = inf["skey"]; cur = st.models.get(key)
            if cur is None or cur[0] != "str": raise Undecided("format buffer")
            cap = ladd(strs.plen(cur[1]), 1)
            if not st.num.entails(lsub(lsub(cap, buf.off), size)) or not st.num.entails(buf.off):
                exact(I, st, "C14", "overflow", "formatting may write %r bytes at offset %r of a text of %r characters" % (size, buf.off, strs.plen(cur[1]))); return [(st, DROP)]
            if size == 0: return [(st, n)] + out
            if buf.off != 0: raise Undecided("format buffer offset")
            ln = strs.plen(cur[1])
            for s, r in list(out): s.models[key] = ("str", (("sl", junk, 0, ln),))
            for s in [st] + [s for s, r in out]: s.objs[junk] = dict(s.objs[junk], len=ln)
            if I.split_ge(st, lsub(ladd(size, -1), n)):   # fits
                rest = lsub(ladd(ln, -1), n)
                if I.split_ge(st, rest):
                    st.models[key] = ("str", (("sl", f[0][1], 0, n), ("u", 0)) + ((("sl", junk, 0, rest),) if not st.num.entails_eq(rest) else ()))
                else: st.models[key] = ("str", (("sl", f[0][1], 0, n),))
            else:
                k2 = ladd(size, -1); rest = lsub(ladd(ln, -1), k2)
                st.models[key] = ("str", (("sl", f[0][1], 0, k2),) + ((("u", 0),) if I.split_ge(st, rest) else ()) + ((("sl", junk, 0, rest),) if feasible(st, ladd(rest, -1)) else ()))
            return [(st, n)] + out
        ms["vsnprintf"] = vsn
        return ms
    def strop(self, I, st, ins, fn, n, this, args, ps):
        if n == "resize":
            k = (this.o, this.off); v = self.sm.get(I, st, this); ln = strs.plen(v); want = args[1]
            if want.__class__ is Lin: want = I.num_norm(st, want, 64, False)
            if I.split_ge(st, lsub(ln, want)):
                st.models[k] = ("str", prefix(I, st, v, want)); return [(st, None)]
            bad = st.copy(); bad.note("memory runs out", I.loc(bad)[:2]); bad.mon["fmt"] = "fail"
            o = st.new_obj("array", None, es=1, len=want, elem=lambda I, st, o, idx, ty, info: 0, nul=1, name="text", skey=k)
            if v: raise Undecided("growing a text")
            st.models[k] = ("str", (("sl", o, 0, want),))
            return [(st, None), (bad, Throw("_ZTISt9bad_alloc", "resize"))]
        if n == "insert" and len(ps) >= 2 and args[1] == 0:
            v = self.sm.get(I, st, this)
            if ps[1] == "char const*": a = self.sm.arr(I, st, args[2], 1, self.sm.zlen(I, st, args[2], 1))
            elif ps[1].startswith("std::basic_string"): a = self.sm.get(I, st, args[2])
            else: return None
            st.models[(this.o, this.off)] = ("str", strs.cat(a, v)); return [(st, this)]
        return None
    # ------------------------------------------------ events
    def enabled(self, I, st, what, who="a message is"):
        """is the message of this call known to be enabled?"""
        m = st.mon
        if m["role"] != "client" or m.get("lvl") is None: return
        b = self.mon.get(st, "is_logging"); l = self.mon.get(st, "level"); d = lsub(m["lvl"], l)
        if feasible(st, lscale(b, -1)): self.mon.exact(I, st, "C11", "not-running", "%s %s although the logger may not be running" % (who, what))
        elif feasible(st, ladd(lscale(d, -1), -1)): self.mon.exact(I, st, "C11", "below-level", "%s %s although its level may be below the logger's level" % (who, what))
    def hook(self, I, st, ins, fn, args):
        """a new entry is linked into a buffer: _M_hook(this, position)"""
        e, p = args; m = st.mon
        if p.__class__ is not Ptr or p.o not in OWNER: raise Undecided("list link")
        node = OWNER[p.o]; n = self.mon.size(st, node); pos = I.div_exact(p.off, STEP)
        self.hit("append")
        self.mon.acc(I, st, "message buffer", True)
        if pos is None: raise Undecided("list link")
        if not st.num.entails_eq(lsub(pos, n)): exact(I, st, "C10 C08", "append-position", "a message is not added at the newest end of its buffer"); return [(st, DROP)]
        mx = self.mon.get(st, "buffer_max_size")
        if m["role"] == "client":
            self.enabled(I, st, "accepted")
            if feasible(st, ladd(mx, -1), lsub(n, mx)): exact(I, st, "C12", "over-limit", "a message is added to a buffer that may already hold the maximum number")
            if m["appended"]: soft(I, st, "C10 C11", "accepted-twice", "one message is added to the buffer twice")
            m["appended"] += 1
            self.entry_fields(I, st, e)
        else: raise Undecided("a message is added by the logging thread")
        self.mon.setsize(st, node, ladd(n, 1)); st.note("message added", I.loc(st)[:2])
        return [(st, None)]
    def entry_fields(self, I, st, e):
        m = st.mon; want = m.get("want")
        if want is None: return
        f = self.F.entry
        def fld(k, extra=0, size=None): return I.load(st, Ptr(e.o, ladd(e.off, HOOKNODE + f[k][0] + extra)), size or f[k][1], "i%d" % (8 * (size or f[k][1])))
        def bad(what): self.mon.exact(I, st, "C10", "wrong-" + what.split()[-1], "the %s stored with a message is not the one of the call" % what)
        t = fld("time")
        if m["now"] is None or t != m["now"]: bad("time")
        if fld("thread_id") != atom(T("tid")): bad("thread id")
        lv = fld("level")
        if m["lvl"] is not None and not (lv == m["lvl"] or lv.__class__ in (int, Lin) and m["lvl"].__class__ in (int, Lin) and (st.num.entails_eq(lsub(lv, m["lvl"])))): bad("level")
        if want.get("source") is not None:
            a = I.load(st, Ptr(e.o, ladd(e.off, HOOKNODE + f["source"][0])), 8, "p"); l = fld("source", 8, 4); b = I.load(st, Ptr(e.o, ladd(e.off, HOOKNODE + f["source"][0] + 16)), 8, "p")
            if (a, l, b) != tuple(want["source"]): bad("source")
        msg = st.models.get((e.o, ladd(e.off, HOOKNODE + f["message"][0])))
        if msg is None or msg[0] != "str": raise Undecided("message of an entry")
        w = want.get("message")
        if w == "formatted":
            tag = "C14"
            if m["fmt"] is None: soft(I, st, "C14", "not-formatted", "the message is logged without being formatted"); return
            w = self.text(st, "formatted") if m["fmt"] == "ok" else want["scheme"]
            if not same(st, msg[1], w):
                exact(I, st, "C14", "wrong-text", "the text logged is not " + ("exactly the formatted text" if m["fmt"] == "ok" else "the format after formatting failed"))
        elif w is not None:
            if not same(st, msg[1], w): bad("message text")
    def erase(self, I, st, node, a, b, r):
        m = st.mon; w = m["w"]; n = self.mon.size(st, node)
        if m["role"] not in ("thread", "dtor"): raise Undecided("entries are erased by a caller")
        self.hit("erase")
        if st.num.entails_eq(lsub(a, b)) and st.num.entails_eq(w): return [(st, r)]
        if not (st.num.entails_eq(b) and st.num.entails_eq(lsub(a, w))):
            if feasible(st, ladd(lsub(a, w), -1)): self.mon.exact(I, st, "C10", "erased-unwritten", "entries are erased that have not been written (%r of which %r were written)" % (lsub(a, b), w))
            elif feasible(st, ladd(lsub(w, a), -1)): self.mon.exact(I, st, "C10", "written-not-erased", "entries that were written stay in the buffer and will be written again")
            else: self.mon.exact(I, st, "C10", "erase-range", "the entries erased are not the ones that were written")
            return [(st, DROP)]
        self.mon.setsize(st, node, lsub(n, w)); m["w"] = 0
        return [(st, r)]
    def idle(self, st, node):
        n = self.mon.size(st, node); f = self.mon.get(st, "buffer_flush_size")
        return not feasible(st, ladd(n, -1), lsub(n, f))
    def leave(self, I, st, incr=False):
        """the traversal leaves the current file"""
        m = st.mon; role = m["role"]; node = NODE[role]
        m["rot"] = None
        if role == "thread":
            m["err"] = False
            if not st.num.entails_eq(m["w"]): self.mon.exact(I, st, "C10", "written-not-erased", "messages that were written stay in the buffer and will be written again")
            if incr and m["scan"] == "run" and not self.idle(st, node): m["scan"] = "a buffer that is ready was left unwritten"
            m["w"] = 0
        elif incr and m["joined"]:
            n = self.mon.size(st, node)
            if not m["err"] and feasible(st, ladd(lsub(n, m["w"]), -1)): self.mon.exact(I, st, "C10", "not-written", "messages still buffered at destruction are not written")
    def table_destroyed(self, I, st):
        m = st.mon; self.hit("destroy table")
        if not m["joined"]: soft(I, st, "C08 C10", "thread-not-joined", "the file table is destroyed while the logging thread may be running")
        elif m["scan"] != "done": soft(I, st, "C10", "not-written", "the file table is destroyed although what is still buffered was not written")
    # ------------------------------------------------ files
    def allpaths(self, st):
        out = []
        for n in NODE.values():
            if (n, KEYOFF) in st.models: out += self.paths(st, n)
        return out
    def pget(self, I, st, p):
        if p.__class__ is not Ptr: raise Undecided("path")
        v = st.models.get((p.o, p.off))
        if v is None or v[0] != "path": raise Undecided("unknown path object")
        if p.o in NODE.values(): self.mon.access(I, st, p, False)
        if v[1] == T("maybe"):
            alts = []
            for t in (T("empty"), self.paths(st, p.o)[0]):
                s = st.copy(); s.models[(p.o, p.off)] = ("path", t); alts.append(s)
            raise Split(alts)
        return v[1]
    def pathval(self, I, st, p, fn):
        if "filesystem::path" in fn.params.replace("__cxx11::", ""): return self.pget(I, st, p)
        if fn.params.startswith("std::basic_string"): return T("text", self.sm.get(I, st, p))
        raise Undecided("path argument")
    def ptext(self, I, st, t):
        if t.op == "text": return t.args[0]
        return self.text(st, t)
    def index(self, I, st, t):
        """number of the backup a path names: (path of the log file, index), or None"""
        if t in self.allpaths(st): return t, 0
        if t.op != "join" or t.args[0].op != "parent_path" or t.args[1].op != "text": return None
        A = t.args[0].args[0]; pc = list(t.args[1].args[0])
        stem = self.ptext(I, st, T("stem", A))[0]; ext = self.ptext(I, st, T("extension", A))[0]
        fn = self.ptext(I, st, T("filename", A))[0]
        if pc == [fn]: return A, 0
        if not pc or pc[0] != stem: return None
        if pc[-1] == ext and len(pc) >= 2: pc = pc[1:-1]
        else: return None
        if not pc: return A, 0
        if len(pc) == 2 and pc[0] == ("u", ord("_")) and pc[1][0] == "sl" and "dec" in st.objs[pc[1][1]] and pc[1][2] == 0: return A, st.objs[pc[1][1]]["dec"]
        return None
    def chain(self, I, st, t):
        """index of a file of the chain of backups; starts the rotation record"""
        r = self.index(I, st, t); m = st.mon
        if r is None:
            self.mon.exact(I, st, "C13", "wrong-name", "rotation touches a file that is not the log file or one of its numbered backups"); raise Split([])
        A, i = r
        if m.get("rot") is None:
            self.hit("rotation")
            s = None
            for k, v in st.models.items():
                if v[0] == "ofs" and v[2] == A: s = v
            R = self.mon.get(st, "file_rotation_size")
            if s is None: raise Undecided("rotation of a file that was not opened")
            if s[1] == "open": soft(I, st, "C13", "rotates-open-file", "the file is rotated while it is open"); raise Split([])
            if feasible(st, lscale(R, -1)): self.mon.exact(I, st, "C13", "rotates-disabled", "a file is rotated although rotation may be disabled"); raise Split([])
            if feasible(st, ladd(lsub(R, s[4]), -1)): self.mon.exact(I, st, "C13", "rotates-early", "a file is rotated although it has not reached its size limit"); raise Split([])
            K = self.mon.get(st, "file_rotation_limit")
            m1 = atom(st.fresh("files")); J = atom(st.fresh("file"))
            alts = []
            for keep in (True, False):
                q = st.copy()
                q.assume_ge(ladd(m1, -1)); q.assume_ge(lsub(1 << 40, m1)); q.assume_ge(J)
                if not q.assume_ge(ladd(lsub(m1, J), -1)): continue
                if not q.assume_ge(ladd(lsub(K, J), -1) if keep else lsub(J, K)): continue
                q.mon["rot"] = {"keep": keep, "state": "orig", "zero": False, "removing": False, "moving": False, "J": J, "m": m1}
                alts.append(q)
            raise Split(alts)
        return A, i
    def pos(self, rot): J = rot["J"]; return J if rot["state"] == "orig" else ladd(J, 1) if rot["state"] == "moved" else None
    def eq(self, I, st, a, b): return bool(I.cmp(st, "eq", a, b, 64))
    def f_exists(self, I, st, t):
        A, i = self.chain(I, st, t); rot = st.mon["rot"]; m1 = rot["m"]
        p = self.pos(rot)
        if p is not None and self.eq(I, st, i, p): return [(st, 1)]
        if not rot["moving"]:
            if I.split_ge(st, ladd(lsub(m1, i), -1)):
                if rot["state"] != "removed" or not self.eq(I, st, i, rot["J"]): return [(st, 1)]
                return [(st, 0)]
            if st.num.entails_eq(lsub(i, m1)) or self.eq(I, st, i, m1): return [(st, 0)]
        return [(st, 1), (st.copy(), 0)]
    def f_remove(self, I, st, t):
        A, i = self.chain(I, st, t); rot = st.mon["rot"]; K = self.mon.get(st, "file_rotation_limit")
        p = self.pos(rot); rot = dict(rot)
        if p is not None and self.eq(I, st, i, p):
            if rot["state"] == "moved" or rot["keep"]: self.mon.exact(I, st, "C13", "removes-kept-file", "rotation removes a file that must be kept as a backup"); raise Split([])
            rot["state"] = "removed"
        rot["removing"] = True
        if self.eq(I, st, i, 0): rot["zero"] = True
        st.mon["rot"] = rot
        return [(st, 1)]
    def f_rename(self, I, st, a, b):
        A, i = self.chain(I, st, a); r = self.index(I, st, b)
        if r is None or r[0] != A: self.mon.exact(I, st, "C13", "wrong-name", "rotation renames a file to something that is not a numbered backup of it"); raise Split([])
        j = r[1]; rot = dict(st.mon["rot"]); p = self.pos(rot); J = rot["J"]
        if p is not None and self.eq(I, st, i, p):
            if rot["state"] != "orig": self.mon.exact(I, st, "C13", "shifted-twice", "rotation moves a backup by more than one"); raise Split([])
            if not st.num.entails_eq(lsub(j, ladd(J, 1))): self.mon.exact(I, st, "C13", "wrong-shift", "rotation does not rename a file to the next number"); raise Split([])
            if not rot["keep"]: self.mon.exact(I, st, "C13", "keeps-too-many", "rotation keeps a file beyond the configured number of backups"); raise Split([])
            rot["state"] = "moved"
        elif p is not None and self.eq(I, st, j, p):
            if rot["keep"] or rot["state"] == "moved": self.mon.exact(I, st, "C13", "overwrites-backup", "rotation overwrites a file that must be kept"); raise Split([])
            rot["state"] = "removed"
        if self.eq(I, st, i, 0): rot["zero"] = True
        rot["moving"] = True; st.mon["rot"] = rot
        return [(st, None)]
    def reopened(self, I, st, q):
        rot = st.mon.get("rot")
        if q not in self.allpaths(st): soft(I, st, "C10", "wrong-file", "another file than the log file is opened")
        if rot is None: return
        self.hit("rotated")
        if rot["state"] == "orig":
            if rot["keep"]: self.mon.exact(I, st, "C13", "not-shifted", "a file that must be kept as a backup is not renamed to the next number")
            else: self.mon.exact(I, st, "C13", "not-removed", "a file beyond the configured number of backups is not removed")


    # ------------------------------------------------ the analysis
    def finish_client(self, I, outs, e, expect=True):
        m0 = self.mon
        for kind, s, v in outs:
            s.frames = s.frames or []
            m = s.mon; w = dict(file=None)
            fn = self.mod.entry(e); loc = self.target(fn)
            def bad(tag, rule, msg):
                if not s.wide: I.violate(s, "[%s] %s" % (tag, rule), msg, **loc)
                else: I.undec(s, msg)
            if kind not in ("ret", "throw"): continue
            if m["dirty"] or m["owed"]:
                bad("C09", "changed-without-lock" if m["dirty"] else "no-wake-up", ("the condition the logging thread sleeps on is changed without its lock, so its wake-up may be lost" if m["dirty"] else "%s but the logging thread is not woken" % (m.get("why") or "its condition changed")))
            if any(b == LOG for b, o in m["held"]): bad("C08", "lock-kept", "an operation ends with a lock of the logger held")
            if m["va"]: bad("C14", "va-not-ended", "an argument list is started but not released")
            if kind == "throw":
                if e in LOGS: bad("C11", "throws", "logging a message throws")
                continue
            if e in LOGS:
                b = m0.get(s, "is_logging"); l = m0.get(s, "level"); d = lsub(m["lvl"], l)
                on = feasible(s, ladd(b, -1), d)
                if on and m["appended"] == 0 and m["discarded"] == 0: bad("C11 C12", "dropped", "an enabled message is neither added to its buffer nor counted as discarded")
                if m["appended"] and m["discarded"]: bad("C12", "counted-and-added", "a message is added to the buffer and also counted as discarded")
                if m["discarded"] > 1: bad("C12", "counted-twice", "one refused message increments the discard counter more than once")
                if e.startswith("m_") and on and m["marks"] != 1: bad("C11", "evaluations", "the arguments of an enabled message are evaluated %d times" % m["marks"])
            if e == "e_should_log":
                b = m0.get(s, "is_logging"); l = m0.get(s, "level"); d = lsub(m["lvl"], l)
                if v.__class__ is Lin: raise Layout("should_log")
                if v == 1 and (feasible(s, lscale(b, -1)) or feasible(s, ladd(lscale(d, -1), -1))): bad("C11", "should-log", "should_log is true for a message that is filtered out")
                if v == 0 and feasible(s, ladd(b, -1), d): bad("C11", "should-log", "should_log is false for an enabled message")
    def target(self, fn):
        from checks.order import target as t
        return t(self.mod, fn)
    def run_client(self, e):
        fn = self.mod.funcs.get(e)
        if fn is None or fn.decl: return
        I = self.interp(); st = self.state("client"); m = st.mon; m["entry"] = e
        node = NODE["client"]
        f = st.new_obj("arg", 32, name="file name"); st.models[(f, 0)] = ("str", st.models[(node, KEYOFF)][1])
        info = self.mod.member
        lvl = atom(T("msg-level")); st.assume_ge(ladd(lvl, 128)); st.assume_ge(lsub(127, lvl))
        src = (Ptr(self.blob(st, "source file"), 0), atom(T("line")), Ptr(self.blob(st, "source function"), 0)); st.assume_ge(src[1]); st.assume_ge(lsub((1 << 31) - 1, src[1]))
        num = atom(T("arg")); st.assume_ge(ladd(num, 1 << 31)); st.assume_ge(lsub((1 << 31) - 1, num))
        sch = self.text(st, "scheme"); schp = Ptr(sch[0][1], 0); msg = st.new_obj("arg", 32, name="message"); st.models[(msg, 0)] = ("str", self.text(st, "message"))
        L = Ptr(LOG, 0); F = Ptr(f, 0); m["lvl"] = lvl; want = None; m["scheme"] = schp
        txt = self.text(st, "message")
        if e == "e_should_log": a = [L, lvl]
        elif e in ("e_write", "h_write"): a = [L, F, lvl] + (list(src) if e[0] == "e" else []) + [Ptr(msg, 0)]; want = dict(message=txt)
        elif e in ("e_writef", "h_writef"): a = [L, F, lvl] + (list(src) if e[0] == "e" else []) + [schp, num]; want = dict(message="formatted", scheme=sch)
        elif e in ("e_stream", "e_stream_end", "h_stream"): a = [L, F, lvl] + (list(src) if e[0] == "e" else []) + [num]; want = dict(message=self.text(st, "streamed"))
        elif e in ("e_format", "h_format"): a = [L, F, lvl] + (list(src) if e[0] == "e" else []) + [num]; want = dict(message=self.text(st, "formatted")); m["fmt"] = "ok"
        else: a = [L, F]; m["lvl"] = self.info_level; m["scheme"] = None; want = dict(message=None)
        if want is not None and e[0] == "e": want["source"] = src
        m["want"] = want
        outs = I.run(fn, a, st); self.finish_client(I, outs, e); self.runs.append((e, I, outs))
    def blob(self, st, name):
        o = T("obj", "blob", name); st.objs[o] = dict(kind="blob", size=None, name=name, lazy=True); st.mem[o] = {}; return o
    def run_setter(self, e, k):
        fn = self.mod.funcs.get(e); g = self.mod.funcs.get("g_" + k)
        if fn is None or g is None: return
        I = self.interp(); st = self.state("client"); st.mon["entry"] = e
        off = self.off[k]; a = self.mon.get(st, k)
        b = self.F.types[off].endswith("bool>"); lv = "log_level" in self.F.types[off]
        v = atom(T("value")); lo, hi = (0, 1) if b else (-128, 127) if lv else (0, (1 << 40) - 1)
        st.assume_ge(ladd(v, -lo)); st.assume_ge(lsub(hi, v))
        outs = I.run(fn, [Ptr(LOG, 0), v] if len(fn.args) > 1 else [Ptr(LOG, 0)], st)
        self.finish_client(I, outs, e); loc = self.target(fn)
        want = v if len(fn.args) > 1 else 0
        for kind, s, r in outs:
            if kind != "ret": continue
            s2 = s.copy(); J = self.interp(); s2.mon["entry"] = "g_" + k
            for k2, s3, r2 in J.run(g, [Ptr(LOG, 0)], s2):
                if k2 != "ret": continue
                ok = r2 == want or r2.__class__ in (int, Lin) and s3.num.entails_eq(lsub(r2, want))
                if not ok: I.violate(s3, "[%s] setter" % TAG[k], "%s() does not return the value set" % k, **loc)
            for j, o in self.off.items():
                if j != k and self.mon.get(s, j) != atom(T("in", self.F.names[o])) and not (j == "buffer_flush_size" or o == off): I.violate(s, "[%s] setter" % TAG[j], "setting %s also changes %s" % (k, j), **loc)
        self.runs.append((e, I, outs))
    def run_writer(self, e, g, k):
        fn = self.mod.funcs.get(e); gf = self.mod.funcs.get(g)
        if fn is None or gf is None: raise Layout("writer accessors")
        I = self.interp(); st = self.state("client"); st.mon["entry"] = e
        w = st.new_obj("arg", 32, name="writer"); st.models[(w, 0)] = ("fn", T("user", "new")); r = st.new_obj("result", 32)
        outs = I.run(fn, [Ptr(LOG, 0), Ptr(w, 0)], st); self.finish_client(I, outs, e); self.runs.append((e, I, outs))
        tag = "C10" if k == "log_writer" else "C13"
        for kind, s, v in outs:
            if kind != "ret": continue
            J = self.interp(); s.mon["entry"] = g
            o2 = J.run(gf, [Ptr(r, 0), Ptr(LOG, 0)], s); self.finish_client(J, o2, g); self.runs.append((g, J, o2))
            for k2, s2, v2 in o2:
                x = s2.models.get((r, 0))
                if k2 == "ret" and (x is None or x[1] != T("user", "new")): J.violate(s2, "[%s] setter" % tag, "%s() does not return the writer set" % k, **self.target(gf))
    def run_ctor(self):
        I = self.interp(); st = self.state("ctor"); m = st.mon; m["entry"] = "e_ctor"
        for k in list(st.models):
            if k[0] == LOG: del st.models[k]
        outs = I.run("e_ctor", [Ptr(LOG, 0)], st); loc = self.target(self.mod.entry("e_ctor"))
        for kind, s, v in outs:
            if kind != "ret": continue
            if not s.mon["spawned"]: I.violate(s, "[C10] no-thread", "the constructor does not start the logging thread", **loc)
            for k, o in self.off.items():
                x = s.models.get((LOG, o))
                if x is None and o not in s.mem[LOG]: I.violate(s, "[%s] uninitialised" % TAG[k], "%s is not initialised" % k, **loc)
            il = self.mon.get(s, "is_logging")
            if il == 0: I.violate(s, "[C10] not-logging", "a new logger is not running", **loc)
        self.runs.append(("e_ctor", I, outs))
    def run_thread(self):
        if not self.bodies: return
        for body, args in self.bodies.items():
            fn = self.mod.funcs[body]; I = self.interp(); st = self.state("thread"); st.mon["entry"] = "thread"
            outs = I.run(fn, [Ptr(LOG, 0)], st)
            loc = dict(file=fn.file, line=fn.line, function=fn.dem)
            for kind, s, v in outs:
                if kind == "throw": I.violate(s, "[C10] thread-throws", "an exception leaves the logging thread, which ends the program", **loc)
                elif kind == "ret":
                    il = self.mon.get(s, "is_logging")
                    if il is None or feasible(s, ladd(il, -1)): I.violate(s, "[C10 C09] thread-ends", "the logging thread ends while the logger is running", **loc)
                    if not s.num.entails_eq(s.mon["w"]): I.violate(s, "[C10] written-not-erased", "messages that were written stay in the buffer when the logging thread ends and will be written again", **loc)
                    if any(b == LOG for b, o in s.mon["held"]): I.violate(s, "[C08] lock-kept", "the logging thread ends with the lock held", **loc)
            self.runs.append(("thread", I, outs))
    def run_dtor(self):
        I = self.interp(); st = self.state("dtor"); m = st.mon; m["entry"] = "e_dtor"
        outs = I.run("e_dtor", [Ptr(LOG, 0)], st); loc = self.target(self.mod.entry("e_dtor"))
        for kind, s, v in outs:
            if kind == "throw": I.violate(s, "[C10] dtor-throws", "an exception leaves the destructor", **loc)
        self.runs.append(("e_dtor", I, outs))
    def races(self):
        """pairs of accesses of threads that may run at the same time, at least one a write, with no common lock"""
        conc_pairs = {("client", "client"), ("client", "thread"), ("ctor", "thread"), ("dtor", "thread")}
        items = list(self.accs.items()); out = []; n = 0
        for (f, r1, w1, h1), i1 in items:
            for (g, r2, w2, h2), i2 in items:
                if f != g or not (w1 or w2) or (r1, r2) not in conc_pairs and (r2, r1) not in conc_pairs: continue
                n += 1
                if h1 & h2: continue
                a, b = ((f, r1, w1, h1), i1), ((g, r2, w2, h2), i2)
                if len(h1) > len(h2): a, b = b, a
                out.append((a, b))
        return n, out
    def analyse(self, part):
        self.info_level = None
        g = self.mod.globals.get("lv_info")
        v = g["init"][0][2] if g and g.get("init") else None
        self.info_level = int(v[2]) if v else 3
        if self.info_level >= 1 << 31: self.info_level -= 1 << 32
        if part != "client": self.run_ctor()
        if part != "writer":
            for e in CLIENT: self.run_client(e)
        for e, k in SET.items(): self.run_setter(e, k)
        self.run_setter("s_reset", "num_discarded_logs")
        if part != "client":
            self.run_writer("s_log_writer", "g_log_writer", "log_writer"); self.run_writer("s_header_writer", "g_header_writer", "header_writer")
            self.run_thread(); self.run_dtor()
        return self

RULES = {"C08": "lockset over every access to the logger's shared state by every operation, the logging thread, the constructor and the destructor: two accesses by threads that may run together, one of them a write, must share a lock or be atomic; outside the lock the logging thread may only touch the entries between the position it took under the lock and the end",
 "C09": "for every section under the logging lock, a linear comparison of 'some buffer is ready or logging stopped' before and after decides whether a notification is owed; the logging thread may sleep only after a complete traversal under one hold of the lock that proved every buffer idle",
 "C10": "distance-from-the-end model of each buffer with a ghost count of entries written and not yet erased: every call of the writer must be for the next oldest entry, on an open stream of that file's path; every erase must remove exactly the entries written",
 "C11": "path-sensitive analysis of every way of logging from an arbitrary level, logger level and running state: accepted or refused by the limit if and only if enabled, macro arguments evaluated exactly once if enabled and not at all otherwise",
 "C12": "linear analysis of buffer size against the limit at every append and at every increment of the discard counter",
 "C13": "typestate of the output file (size before the message, header written) and a witness backup followed through the rotation's exists/remove/rename calls",
 "C14": "typestate of every argument list, bounds of every formatted write against the destination text, and the text finally logged compared with the formatted text"}
_run = {}
def props_of(rule):
    m = re.match(r"\[([^\]]*)\]", rule)
    return set(m.group(1).split()) if m else set()
CONFIGS = (dict(std="c++20"), dict(std="c++14"), dict(std="c++20", defs=("PLUTO_LOGGER_HIDE_SOURCE_INFO=1",)))
ANCHOR = {"C09": ("wait", "append"), "C10": ("write", "erase", "append", "destroy table"), "C12": ("append",), "C13": ("write", "header", "rotation", "rotated"), "C14": ("vsnprintf",), "C11": ("append",), "C08": ("append", "erase")}
PARTS = {"C11": "client", "C12": "client", "C14": "client", "C13": "writer"}
def check_for(pid):
    c = Check(pid, RULES[pid])
    def job(cfg): return lambda c: one(c, pid, cfg)
    c.parallel([job(cfg) for cfg in ir.buildable("logger.cpp", CONFIGS, c)])
    c.assumptions = ["std containers, threads, mutexes, condition variables, streams and file system calls follow their contracts", "memory does not run out except while a printf-style text is grown", "user callbacks do not throw",
                     "formatted texts are shorter than 2^31-2 characters", "the logger is not destroyed while other threads call it", "rotation settings do not change while a file is being written"]
    return c
def one(c, pid, cfg):
    name = cfg["std"] + (",hide" if cfg.get("defs") else "")
    try: L = Logger(**cfg).analyse(PARTS.get(pid, "all") if not os.environ.get("SA_ALLPROPS") else "all")
    except Layout as e:
        c.und.append(dict(rule=name, msg=str(e))); return
    for e, I, outs in L.runs:
        c.note_fns(I)
        for k, x in I.stats.items(): c.stats[k] = c.stats.get(k, 0) + x
        for u in I.undecided: c.und.append(dict(rule="%s:%s" % (e, name), **u))
        mine = [v for v in I.violations if pid in props_of(v["rule"]) or not props_of(v["rule"]) or os.environ.get("SA_ALLPROPS")]
        for v in mine: c.violation(**v)
        c.obs.append(("%s:%s" % (e, name), not mine and not I.undecided, "%d paths" % len(outs)))
    if pid == "C08":
        n, races = L.races()
        for ((f, r1, w1, h1), i1), ((g, r2, w2, h2), i2) in races:
            l1, l2 = i1[0], i2[0]
            c.violation("data-race", "%s: %s by %s without a lock that the %s by %s (%s:%s) holds" % (f, "write" if w1 else "read", r1, "write" if w2 else "read", r2, os.path.basename(l2[0] or "?"), l2[1]), file=l1[0], line=l1[1], function=l1[2],
                        path=["%s%s" % (t, " (%s:%s)" % (os.path.basename(x[0]), x[1]) if x and x[0] else "") for t, x in i1[1]])
        c.obs.append(("race-pairs:" + name, not races, "%d pairs compared" % n))
    for k, x in L.hits.items(): c.extra["%s: %s" % (name, k)] = x
    c.extra.update({name + ": accesses": L.naccess, name + ": critical sections": L.sections, name + ": notifications owed": L.demands, name + ": notifications seen": L.notifies})
    if not c.viol and not c.und:
        for a in ANCHOR[pid]: c.require("%s (%s)" % (a, name), L.hits.get(a, 0), 1)
def c08(): return check_for("C08")
def c09(): return check_for("C09")
def c10(): return check_for("C10")
def c11(): return check_for("C11")
def c12(): return check_for("C12")
def c13(): return check_for("C13")
def c14(): return check_for("C14")
