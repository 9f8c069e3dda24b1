"""Loads the resolved program (LLVM IR of a driver translation unit that
instantiates /repo's headers) produced by clang + irdump."""
import json, os, re, subprocess, tempfile, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("PLUTO_REPO", "/repo")
IRDUMP = os.path.join(VERIF, "build", "irdump")

class AnalysisBroken(Exception):
    """the analysis cannot be carried out (vanished anchor, no build): exit 2"""

class BuildFailure(AnalysisBroken):
    pass

def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p: return p
    raise AnalysisBroken("none of %s found" % (names,))

class Instr:
    __slots__ = ("op", "id", "ty", "x", "l", "idx")
    def __init__(self, d, idx):
        self.op = d["op"]; self.id = d.get("id"); self.ty = d.get("ty"); self.x = d; self.l = d.get("l"); self.idx = idx

class Func:
    def __init__(self, name, d, mod):
        self.name = name; self.dem = d["dem"]; self.decl = d["decl"]; self.d = d; self.mod = mod
        self.args = d["args"]; self.nargs = len(self.args); self.ret = d["ret"]
        self.norm, self.params, self.targs = norm_name(self.dem)
        self.file = mod.files[d["file"]] if "file" in d else None
        self.line = d.get("line")
        self._blocks = None; self._live = None; self._heads = None; self._livepc = {}; self._slot = None; self._slotpc = {}
    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [[Instr(x, i) for i, x in enumerate(b)] for b in self.d["blocks"]]
        return self._blocks
    def succs(self, b):
        t = self.blocks[b][-1]; x = t.x
        if t.op == "br": return [x["t"]] + ([x["f"]] if "f" in x else [])
        if t.op == "switch": return [x["def"]] + [c[1] for c in x["cases"]]
        if t.op == "invoke": return [x["normal"], x["unwind"]]
        return []
    def loop_heads(self):
        """targets of back edges (DFS)"""
        if self._heads is None:
            heads = set(); col = {}
            stack = [(0, iter(self.succs(0)))]; col[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if col.get(s) is None:
                        col[s] = 1; stack.append((s, iter(self.succs(s)))); break
                    elif col[s] == 1: heads.add(s)
                else:
                    col[b] = 2; stack.pop()
            self._heads = heads
        return self._heads
    def _uses(self, ins):
        x = ins.x; out = []
        def go(v):
            if v.__class__ is int: out.append(v)
        for k in ("ops", "args"):
            for v in x.get(k, ()): go(v)
        for k in ("cond", "callee", "base", "n"):
            if k in x: go(x[k])
        for v in x.get("var", ()): go(v[0])
        if ins.op in ("br",): out2 = [v for v in out]; return out2 if "cond" in x else []
        return out
    def live_in(self):
        if self._live is None:
            n = len(self.blocks)
            use = []; de = []; phiuse = [dict() for _ in range(n)]
            for b in range(n):
                u = set(); d = set()
                for ins in self.blocks[b]:
                    if ins.op == "phi":
                        for pb, v in ins.x["in"]:
                            if v.__class__ is int: phiuse[pb].setdefault(b, set()).add(v)
                    else:
                        for v in self._uses(ins):
                            if v not in d: u.add(v)
                    if ins.id is not None: d.add(ins.id)
                use.append(u); de.append(d)
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    o = set()
                    for s in self.succs(b):
                        o |= live[s]
                        o |= phiuse[b].get(s, set())
                    nl = use[b] | (o - de[b])
                    if nl != live[b]: live[b] = nl; ch = True
            self._live = live; self._phiuse = phiuse; self._de = de
        return self._live
    def live_at(self, b, pc):
        """registers live just before instruction pc of block b (phis at the start count as defined)"""
        k = (b, pc)
        r = self._livepc.get(k)
        if r is None:
            self.live_in()
            o = set()
            for s in self.succs(b):
                o |= self._live[s] | self._phiuse[b].get(s, set())
            ins = self.blocks[b]
            for i in range(len(ins) - 1, pc - 1, -1):
                x = ins[i]
                if x.id is not None: o.discard(x.id)
                if x.op != "phi": o |= set(self._uses(x))
            r = tuple(sorted(o)); self._livepc[k] = r
        return r

    # ---- contents of stack slots that no path reads again
    def _slots(self):
        """per block a list of (pc, alloca, 'use'|'def'|'start') and the set of tracked allocas"""
        if self._slot is None:
            root = {}; bad = set(); ev = [[] for _ in self.blocks]
            for bl in self.blocks:
                for ins in bl:
                    if ins.op == "alloca": root[ins.id] = ins.id
            ch = True
            while ch:
                ch = False
                for bl in self.blocks:
                    for ins in bl:
                        if ins.op == "getelementptr" and ins.id not in root and ins.x["base"].__class__ is int and ins.x["base"] in root:
                            root[ins.id] = root[ins.x["base"]]; ch = True
            for b, bl in enumerate(self.blocks):
                for pc, ins in enumerate(bl):
                    x = ins.x; op = ins.op
                    if op in ("alloca", "getelementptr"): continue
                    if op == "phi":
                        for pb, v in x["in"]:
                            if v.__class__ is int and v in root: bad.add(root[v])
                        continue
                    if op == "load":
                        if x["ops"][0].__class__ is int and x["ops"][0] in root: ev[b].append((pc, root[x["ops"][0]], "use"))
                        continue
                    if op == "store":
                        v, q = x["ops"]
                        if v.__class__ is int and v in root: bad.add(root[v])
                        if q.__class__ is int and q in root: ev[b].append((pc, root[q], "def"))
                        continue
                    if op in ("call", "invoke"):
                        c = x["callee"]; nm = c[1] if c.__class__ is list and c[0] == "g" else ""
                        for i, v in enumerate(x["args"]):
                            if v.__class__ is not int or v not in root: continue
                            k = "use"
                            if nm.startswith("llvm.lifetime."): k = "def"
                            elif i == 0 and (nm.startswith("llvm.memcpy") or nm.startswith("llvm.memset") or nm.startswith("llvm.memmove")): k = "def"
                            elif i == 0 and v == root[v] and (re.search(r"C[12]E", nm) and nm.startswith("_ZN")): k = "def"
                            ev[b].append((pc, root[v], k))
                        continue
                    for v in self._uses(ins):
                        if v in root: bad.add(root[v])
            self._slot = ({r for r in root.values()} - bad, ev)
            n = len(self.blocks); live = [set() for _ in range(n)]; ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    o = self._slot_back(b, -1, live)
                    if o != live[b]: live[b] = o; ch = True
            self._slotin = live
        return self._slot[0]
    def _slot_back(self, b, pc, live):
        o = set()
        for s in self.succs(b): o |= live[s]
        for q, a, k in reversed(self._slot[1][b]):
            if q <= pc: break
            if k == "use": o.add(a)
            else: o.discard(a)
        return o
    def dead_slots(self, b, pc, incall):
        """allocas whose content no path from this point reads before overwriting it"""
        key = (b, pc, incall); r = self._slotpc.get(key)
        if r is None:
            t = self._slots()
            live = self._slot_back(b, pc if incall else pc - 1, self._slotin)
            if incall: live |= {a for q, a, k in self._slot[1][b] if q == pc}
            r = self._slotpc[key] = tuple(sorted(t - live))
        return r

class Module:
    def __init__(self, d, driver):
        self.files = d["files"]; self.driver = driver
        self.funcs = {k: Func(k, v, self) for k, v in d["functions"].items()}
        self.globals = d["globals"]; self.types = d["types"]
        self.bynorm = {}
        for f in self.funcs.values(): self.bynorm.setdefault(f.norm, []).append(f)
    def resolve(self, name):
        while name in self.globals and "alias" in self.globals[name]: name = self.globals[name]["alias"]
        return name
    def fn(self, name):
        f = self.funcs.get(self.resolve(name))
        return f
    def entry(self, name):
        f = self.fn(name)
        if f is None or f.decl: raise AnalysisBroken("driver entry %s not found" % name)
        return f
    def loc(self, ins):
        if not ins.l: return None
        return (self.files[ins.l[0]], ins.l[1])
    def typeinfo(self, q):
        return self.types.get(q)
    def member(self, q, name):
        t = self.types.get(q)
        if not t: return None
        for n, off, sz, tn in t["members"]:
            if n == name: return off, sz, tn
        return None

_ops = ["operator()", "operator[]", "operator<=>", "operator<<=", "operator>>=", "operator->*", "operator->", "operator<<", "operator>>",
        "operator<=", "operator>=", "operator<", "operator>", "operator==", "operator!=", "operator=", "operator&&", "operator||",
        "operator++", "operator--", "operator+=", "operator-=", "operator*=", "operator/=", "operator,", "operator+", "operator-", "operator*",
        "operator/", "operator%", "operator!", "operator&", "operator|", "operator^", "operator~", "operator new[]", "operator delete[]",
        "operator new", "operator delete", 'operator""']
def _tokenise(s):
    """strip template argument lists; returns string with operators protected, plus the first-level template args of the last name"""
    out = []; i = 0; n = len(s); targs = None
    while i < n:
        if s.startswith("operator", i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == "_")):
            for o in _ops:
                if s.startswith(o, i):
                    out.append("\x01" + str(_ops.index(o)) + "\x02"); i += len(o)
                    if s.startswith(" <", i): i += 1
                    break
            else:
                out.append("operator"); i += 8
            continue
        c = s[i]
        if c == "<":
            d = 0; k = i
            while k < n:
                if s.startswith("operator", k) and not s[k-1].isalnum():
                    for o in _ops:
                        if s.startswith(o, k): k += len(o); break
                    else: k += 8
                    continue
                if s[k] == "<": d += 1
                elif s[k] == ">" and s[k-1] != "-":
                    d -= 1
                    if d == 0: break
                elif s[k] in "([{":
                    # balanced skip for parenthesised types
                    pass
                k += 1
            targs = s[i+1:k]
            i = k + 1
            continue
        if c == "{":
            d = 0; k = i
            while k < n:
                if s[k] == "{": d += 1
                elif s[k] == "}":
                    d -= 1
                    if d == 0: break
                k += 1
            out.append("{lambda}"); i = k + 1
            continue
        if s.startswith("(anonymous namespace)", i):
            out.append("{anon}"); i += len("(anonymous namespace)"); continue
        out.append(c); i += 1
    return "".join(out), targs
def _unprot(s):
    return re.sub("\x01(\\d+)\x02", lambda m: _ops[int(m.group(1))], s)

_cache = {}
def norm_name(dem):
    r = _cache.get(dem)
    if r is None:
        r = _norm_name(dem); _cache[dem] = r
    return r
def _norm_name(dem):
    s, targs = _tokenise(dem)
    s = re.sub(r"\[abi:\w+\]", "", s)
    s = s.replace("std::__cxx11::", "std::").replace("std::__1::", "std::").replace("std::filesystem::__cxx11::", "std::filesystem::").replace("std::chrono::_V2::", "std::chrono::")
    if s.startswith("decltype") :
        d = 0
        for k, c in enumerate(s):
            if c == "(": d += 1
            elif c == ")":
                d -= 1
                if d == 0: break
        s = s[k+1:].lstrip()
        if s.startswith("::"): s = s[s.find(" ")+1:]
    # parameter list: first '(' at depth 0
    k = s.find("(")
    if k < 0: return _unprot(s), "", targs
    name = s[:k]; 
    d = 0
    for e in range(k, len(s)):
        if s[e] == "(": d += 1
        elif s[e] == ")":
            d -= 1
            if d == 0: break
    params = s[k+1:e]; rest = s[e+1:]
    if rest.startswith("::") or (rest.startswith(" const::")):
        # local entity: f(...)::{lambda}::operator()(...) const
        sub = _norm_name_tail(name, rest)
        return sub[0], sub[1], targs
    # drop return type
    if "operator " in name and "\x01" not in name:
        q = name.rfind(" ", 0, name.find("operator "))
        name = name[q+1:]
    else:
        name = name.rsplit(" ", 1)[-1]
    return _unprot(name), _unprot(params), targs
def _norm_name_tail(name, rest):
    rest = re.sub(r"^ const::", "::", rest)
    name = name.rsplit(" ", 1)[-1] + rest
    k = name.find("(")
    if k < 0: return _unprot(name), ""
    d = 0
    for e in range(k, len(name)):
        if name[e] == "(": d += 1
        elif name[e] == ")":
            d -= 1
            if d == 0: break
    r2 = name[e+1:]
    if r2.startswith("::") or r2.startswith(" const::"): return _norm_name_tail(name[:k], r2)
    return _unprot(name[:k]), _unprot(name[k+1:e])

_mods = {}
def compile_module(driver, std="c++20", defs=(), extra=(), passes="sroa,simplifycfg", tmp=None):
    """driver: file name in /verif/drivers. Returns Module; raises BuildFailure."""
    key = (driver, std, tuple(defs), tuple(extra), passes)
    if key in _mods: return _mods[key]
    src = os.path.join(VERIF, "drivers", driver)
    d = tempfile.mkdtemp(prefix="plutosa.")
    try:
        ll = os.path.join(d, "a.ll"); ll2 = os.path.join(d, "b.ll"); js = os.path.join(d, "c.json")
        cmd = [tool("clang++-18", "clang++"), "-std=" + std, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "drivers"),
               "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w", "-Wno-invalid-constexpr", "-S", "-emit-llvm"] + ["-D" + x for x in defs] + list(extra) + [src, "-o", ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildFailure("driver %s (%s %s) does not compile:\n%s" % (driver, std, " ".join(defs), r.stderr[:3000]))
        r = subprocess.run([tool("opt-18", "opt"), "-S", "-passes=" + passes, ll, "-o", ll2], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken("opt failed: " + r.stderr[:2000])
        if not os.path.exists(IRDUMP): subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], check=True, stdout=subprocess.DEVNULL)
        r = subprocess.run([IRDUMP, ll2, js], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken("irdump failed: " + r.stderr[:2000])
        with open(js) as f: m = Module(json.load(f), driver)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _mods[key] = m
    return m

def buildable(driver, cfgs, c=None):
    """the configurations in which the driver compiles (a header that fails to compile in one of them is C34's business)"""
    ok = []; last = None
    for cfg in cfgs:
        try: compile_module(driver, **cfg); ok.append(cfg)
        except BuildFailure as e:
            last = e
            if c is not None: c.notes.append("not analysed, does not compile: %s %s" % (driver, cfg)); c.extra.setdefault("configurations_not_compiling", []).append(str(cfg))
    if not ok: raise last
    return ok
