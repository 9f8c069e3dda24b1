"""Check harness: obligations, violations, known findings, evidence, exit code."""
import json, os, sys, time, re
from .ir import VERIF, REPO, AnalysisBroken, BuildFailure

KNOWN = os.path.join(VERIF, "known_findings.txt")

class Check:
    def __init__(self, pid, rule, level_note=""):
        self.pid = pid; self.rule = rule; self.t0 = time.time()
        self.obs = []; self.viol = []; self.und = []
        self.functions = set(); self.sites = 0; self.stats = {}
        self.assumptions = []; self.notes = []; self.trusted = []
        self.extra = {}
    # ---- obligations
    def ob(self, name, ok, detail="", **where):
        """one decided obligation; ok: True / False / None (undecided)"""
        self.obs.append((name, ok, detail))
        if ok is False: self.violation(name, detail, **where)
        elif ok is None: self.und.append(dict(rule=name, msg=detail, **where))
        return ok
    def violation(self, rule, msg, file=None, line=None, function=None, path=None, **kw):
        v = dict(rule=rule, msg=msg, file=file, line=line, function=function, path=path or [])
        v.update(kw)
        k = (rule, msg, file, line)
        if any((x["rule"], x["msg"], x["file"], x["line"]) == k for x in self.viol): return
        self.viol.append(v)
    def where(self, mod, fn):
        return dict(file=fn.file, line=fn.line, function=fn.dem)
    def absorb(self, I, name, count=True):
        """take over violations/undecided from an interpreter run; returns True if it was clean"""
        for v in I.violations:
            self.violation(**v)
        for u in I.undecided:
            self.und.append(dict(rule=name, **u))
        self.note_fns(I)
        for k, n in I.stats.items(): self.stats[k] = self.stats.get(k, 0) + n
        return not I.violations and not I.undecided
    def note_fns(self, I):
        for f in I.analysed:
            fn = I.mod.funcs[f]
            if fn.file and "/include/pluto/" in fn.file: self.functions.add(fn.dem)
    def parallel(self, jobs, procs=8):
        """run jobs (functions of a fresh Check) in forked processes and merge what they decided, in order"""
        import concurrent.futures as cf, multiprocessing as mp
        global _JOBS
        _JOBS = (self, jobs)
        if len(jobs) < 2 or os.environ.get("SA_SERIAL"): res = [_runjob(i) for i in range(len(jobs))]
        else:
            with cf.ProcessPoolExecutor(min(procs, len(jobs)), mp_context=mp.get_context("fork")) as ex: res = list(ex.map(_runjob, range(len(jobs))))
        for obs, viol, und, fns, stats, extra in res:
            self.obs += obs; self.und += und; self.functions |= fns
            for v in viol: self.violation(**v)
            for k, n in stats.items(): self.stats[k] = self.stats.get(k, 0) + n
            for k, n in extra.items(): self.extra[k] = n
    def require(self, what, got, at_least):
        if got < at_least:
            raise AnalysisBroken("%s: %d instance(s) analysed, at least %d expected" % (what, got, at_least))
    # ---- end
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
                if m and m.group(1) == self.pid: out.append((m.group(2), m.group(3)))
        return out
    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = self.known(); new = []; seen = []
        for v in self.viol:
            s = "%s|%s|%s|%s" % (v["rule"], os.path.basename(v["file"] or ""), v["function"], v["msg"])
            hit = [k for k in known if k[0] in s]
            if hit: seen.append(hit[0])
            else: new.append(v)
        for k in sorted(set(seen)): print("KNOWN-FINDING: property=%s %s" % (self.pid, k[1]))
        n_ok = sum(1 for o in self.obs if o[1])
        byrule = {}
        for o in self.obs: byrule[o[0].split(":")[0]] = byrule.get(o[0].split(":")[0], 0) + 1
        cov = dict(explanation="Static rule: " + self.rule + ". Obligations are derived from the current source of /repo on every run; "
                   "see obligations/discharged/undecided, the functions analysed and the sample obligations.",
                   obligations=len(self.obs), discharged=n_ok, undecided=len(self.und),
                   functions_analysed=len(self.functions), functions=sorted(self.functions)[:200], by_rule=byrule,
                   engine=self.stats, samples=[dict(obligation=o[0], result=("ok" if o[1] else "undecided" if o[1] is None else "violated"), detail=str(o[2])[:200]) for o in self.obs[:: max(1, len(self.obs) // 12)]][:14],
                   undecided_items=[{k: v for k, v in u.items() if k in ("rule", "msg", "file", "line", "function")} for u in self.und][:30],
                   known_findings=len(set(seen)))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 3), violations=len(new))
        os.makedirs(os.path.join(os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")), exist_ok=True)
        with open(os.path.join(os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence"), self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=repr)
        print("%s: %d obligations, %d discharged, %d undecided, %d functions analysed, %.1f s" % (
            self.pid, len(self.obs), n_ok, len(self.und), len(self.functions), time.time() - self.t0))
        for u in self.und[:10]:
            print("  undecided: %s (%s:%s) %s" % (u.get("msg"), u.get("file"), u.get("line"), u.get("rule")))
        if new:
            rp = os.path.join(os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence"), self.pid + ".violation.json")
            with open(rp, "w") as f: json.dump(new[:50], f, indent=1, default=repr)
            for v in new[:20]:
                print("  %s:%s: [%s] %s\n      in %s" % (v["file"], v["line"], v["rule"], v["msg"], v["function"]))
                for p in v["path"][-12:]: print("        " + str(p))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0

_JOBS = None
def _runjob(i):
    import traceback
    parent, jobs = _JOBS
    c = Check(parent.pid, parent.rule)
    try: jobs[i](c)
    except AnalysisBroken: raise
    except Exception: raise RuntimeError(traceback.format_exc())
    def plain(x): return x if x is None or x.__class__ in (str, int, float, bool) else [plain(y) for y in x] if x.__class__ in (list, tuple) else {k: plain(y) for k, y in x.items()} if x.__class__ is dict else repr(x)
    return ([(a, b, str(d)[:300]) for a, b, d in c.obs], [plain(v) for v in c.viol], [plain(u) for u in c.und], c.functions, c.stats, c.extra)

def main(checks):
    pid = sys.argv[1]
    if pid not in checks:
        print("unknown property " + pid); return 2
    try:
        c = checks[pid]()
        return c.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); return 2
    except Exception:
        import traceback; traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid); return 2
