from sa.dom import *
from sa.interp import *
from sa import models, ir
from sa.check import Check

UNIT = {10: 1, 11: 10**3, 12: 10**6, 13: 10**9, 14: 60 * 10**9, 15: 3600 * 10**9}
PART = {20: (1, 1000), 21: (10**3, 1000), 22: (10**6, 1000), 23: (10**9, 60), 24: (60 * 10**9, 60), 25: (3600 * 10**9, None)}
NAMES = {1: "start", 2: "stop", 3: "reset", 4: "restart", 5: "time", 6: "stop_and_time", 7: "is_running", 10: "in_nanoseconds", 11: "in_microseconds",
         12: "in_milliseconds", 13: "in_seconds", 14: "in_minutes", 15: "in_hours", 20: "nanoseconds_part", 21: "microseconds_part", 22: "milliseconds_part",
         23: "seconds_part", 24: "minutes_part", 25: "hours_part", 100: "constructor", 101: "constructor"}

def check():
    c = Check("C20", "most general client: every operation from every reachable abstract state (loop invariant found by widening over linear relations); each reading is compared with a ghost clock that sums the running intervals")
    mod = ir.compile_module("stopwatch.cpp")
    fn = mod.entry("sw_history")
    ms = models.base()
    seen = {}
    def m_now(I, st, ins, f, args):
        t = atom(st.fresh("now"))
        st.assume_ge(lsub(t, st.mon["last"]))
        st.mon["last"] = t; st.mon["nows"] = st.mon["nows"] + (t,)
        return [(st, t)]
    ms["*"].append((lambda f: f.norm.startswith("std::chrono::") and f.norm.endswith("clock::now"), m_now))
    def m_nondet(I, st, ins, f, args):
        out = []
        for k in [0] + [k for k in NAMES if k < 100]:
            s = st.copy(); s.note("client calls %s" % NAMES.get(k, "end")); out.append((s, k))
        return out
    ms["nondet"] = m_nondet
    def m_begin(I, st, ins, f, args):
        st.mon["nows"] = (); return [(st, None)]
    ms["op_begin"] = m_begin
    def total(st):
        """expected readings"""
        if st.mon["run"] == "idle": return [st.mon["sum"]]
        return [ladd(st.mon["sum"], lsub(t, st.mon["start"])) for t in st.mon["nows"]]
    def m_end(I, st, ins, f, args):
        op = args[0]; m = st.mon
        if op in (1, 101) and m["run"] == "idle" or op == 4:
            if op == 4: m["sum"] = 0
            if len(m["nows"]) != 1:
                if not m["nows"]: I.violate(st, "clock", "%s does not read the clock although it starts an interval" % NAMES[op])
                else: raise Undecided("clock read several times in %s" % NAMES[op])
                return [(st, DROP)]
            m["run"] = "running"; m["start"] = m["nows"][0]
        elif op in (2, 6) and m["run"] == "running":
            m["run"] = "idle"
            if not m["nows"]:
                I.violate(st, "clock", "%s does not read the clock although it ends an interval" % NAMES[op]); return [(st, DROP)]
            m["sum"] = ladd(m["sum"], lsub(m["nows"][-1], m["start"])); m["start"] = 0
        elif op == 3: m["sum"] = 0; m["run"] = "idle"; m["start"] = 0
        m["nows"] = ()
        seen[(op, "end")] = seen.get((op, "end"), 0) + 1
        return [(st, None)]
    ms["op_end"] = m_end
    def m_obs(I, st, ins, f, args):
        op, v = args; m = st.mon; ok = None
        seen[(op, m["run"])] = seen.get((op, m["run"]), 0) + 1
        if op == 7:
            v = v if v.__class__ is int else I.aslin(v)
            ok = v == (1 if m["run"] == "running" else 0); want = m["run"]
        else:
            cands = total(st)
            want = cands
            if not cands:
                ok = False; want = "a reading including the running interval (the clock is not read)"
            else:
                res = []
                for t in cands:
                    w = t
                    if op in UNIT: w = I.divmod(st, t, UNIT[op])[0]
                    if op in PART:
                        w = I.divmod(st, t, PART[op][0])[0]
                        if PART[op][1]: w = I.divmod(st, w, PART[op][1])[1]
                    if v is UNDEF: raise Violation("uninitialised", "%s returns an indeterminate value" % NAMES[op])
                    d = lsub(I.aslin(v), w)
                    res.append(st.num.entails_eq(d))
                ok = any(res); want = cands
        c.ob("reading:" + NAMES[op], ok, "%s() gives %r while %s, expected %r" % (NAMES[op], v, m["run"], want), **tgt(mod, NAMES[op]))
        return [(st, None)]
    ms["observe"] = m_obs
    for start in (0, 1):
        I = Interp(mod, ms, dict(nowrap=True)); st = State()
        st.mon = dict(last=0, nows=(), sum=0, start=0, run="idle")
        I.run(fn, [start], st)
        c.absorb(I, "history")
    for op, n in NAMES.items():
        if op in (1, 2, 3, 4): c.require("operation " + n, seen.get((op, "end"), 0), 1 if not c.viol and not c.und else 0)
        elif op < 100:
            if not c.viol and not c.und:
                for r in ("idle", "running"): c.require("reading %s while %s" % (n, r), seen.get((op, r), 0), 1)
    c.assumptions = ["the clock never goes backwards", "durations fit their 64-bit representation"]
    c.require("readings", len(c.obs), 20 if not c.viol else 0)
    return c

def tgt(mod, name):
    for f in mod.funcs.values():
        if f.norm == "pluto::stopwatch::" + name: return dict(file=f.file, line=f.line, function=f.dem)
    return {}
