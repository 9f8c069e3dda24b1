"""C15: level names, and the columns of the default row and header.

The four conversions are interpreted for every value of the level's underlying
type.  The two default writers are interpreted on an abstract output stream
(fill character, adjustment and width are its state); what they insert is laid
out symbolically as a list of cells and cut into columns at the separators."""
from sa.dom import *
from sa.interp import *
from sa import models as M, ir, strs, seq
from sa.check import Check
from checks.order import target

NAMES = ["off", "fatal", "critical", "error", "warning", "notice", "info", "debug", "trace", "verbose", "header"]
ALIAS = dict(crit="critical", warn="warning", note="notice", verb="verbose", ftl="fatal", crt="critical", err="error", wrn="warning", ntc="notice", inf="info", dbg="debug", trc="trace", vrb="verbose")
HEAD = {"timestamp": "time", "tid": "thread_id", "file name": "file", "line": "line", "function": "function", "message": "message"}
TIMEW = dict(Y=4, m=2, d=2, H=2, M=2, S=2, F=10, T=8, j=3, y=2, e=2, I=2, R=5, D=8, C=2, k=2, p=2)
TIMEW["%"] = 1
US = 10**6

def levels_of(mod):
    out = {}
    for n in NAMES + list(ALIAS):
        g = mod.globals.get("lv_" + n)
        if not g or not g.get("init"): raise ir.AnalysisBroken("level %s is not a constant" % n)
        v = int(g["init"][0][2][2])
        out[n] = sgn(v & 0xff, 8)
    return out

def literal(I, st, p):
    """the text of a constant string"""
    if p.__class__ is not Ptr: return None
    if p.o is None: return None
    if p.o.__class__ is not tuple: return None
    I.gobj(st, p.o); s = ""
    for n in range(200):
        v = I.load(st, Ptr(p.o, ladd(p.off, n)), 1, "i8")
        if v.__class__ is not int: return None
        if v == 0: return s
        s += chr(v)
    return None

def conversions(c, mod, lv, cfg):
    """level value -> (c_str, title, shortened, char)"""
    table = {}
    for v in range(-128, 128):
        row = []
        for e in ("t_c_str", "t_title", "t_short", "t_char"):
            I = Interp(mod, M.base(), {}); st = State()
            outs = I.run(mod.entry(e), [v & 0xff], st); c.absorb(I, e)
            loc = target(mod, mod.entry(e)); r = None
            if not outs or any(k != "ret" for k, s, x in outs) or len(outs) != 1:
                c.ob("total:%s" % e[2:], False if outs and not I.undecided else None, "level %d has no text" % v, **loc)
            else:
                k, s, x = outs[0]
                if e == "t_char": r = chr(x & 0xff) if x.__class__ is int else None; ok = r is not None
                elif x.__class__ is Ptr and x.o is None: ok = False
                else: r = literal(I, s, x); ok = True if r is not None else None
                if r in ("", "\0"): ok = False
                c.ob("total:%s" % e[2:], ok, "level %d is converted to %r" % (v, r), **loc)
            row.append(r)
        table[v] = row
    real = {n: lv[n] for n in NAMES if n != "off"}
    locs = [target(mod, mod.entry(e)) for e in ("t_c_str", "t_title", "t_short", "t_char")]
    kinds = ("c_str", "title", "shortened", "char")
    for i, kind in enumerate(kinds):
        for a in real:
            for b in real:
                if a < b and table[real[a]][i] is not None:
                    c.ob("distinct:" + kind, table[real[a]][i] != table[real[b]][i] and real[a] != real[b], "%s and %s are both converted to %r by the %s conversion" % (a, b, table[real[a]][i], kind), **locs[i])
        other = {table[v][i] for v in table if v not in real.values()}
        for a in real: c.ob("real-level:" + kind, table[real[a]][i] not in other, "the level %s is converted to %r, the text of values that are not a level" % (a, table[real[a]][i]), **locs[i])
    for n, v in list(real.items()) + [("off", lv["off"])] + [("value %d" % x, x) for x in (-128, 10, 127)]:
        s, t, sh, ch = table[v]
        if None in (s, t, sh, ch): continue
        want = n if n not in ("header", "off") and not n.startswith("value") else s
        c.ob("name:c_str", s == want, "the level %s is converted to %r" % (n, s), **locs[0])
        c.ob("consistent:title", t.lower() == s and t[:1] == s[:1].upper() and t[1:] == s[1:], "the title of %s is %r while its text is %r" % (n, t, s), **locs[1])
        # the short form is a subsequence of the name in capitals, and starts like it
        it = iter(s.upper()); sub = all(x in it for x in sh) and sh[:1] == s[:1].upper() and len(sh) == 3
        c.ob("consistent:shortened", sub, "the short form of %s is %r" % (n, sh), **locs[2])
        if n in real: c.ob("consistent:char", ch == s[:1].upper(), "the one-letter form of %s is %r" % (n, ch), **locs[3])
    for a, full in ALIAS.items():
        c.ob("alias:" + a, lv[a] == lv[full], "log_level::%s is %d, log_level::%s is %d" % (a, lv[a], full, lv[full]), file="include/pluto/logger.hpp", line=None, function="pluto::log_level")
    order = [lv[n] for n in NAMES]
    c.ob("severity-order", all(x > y for x, y in zip(order, order[1:])), "levels are not ordered by severity: %r" % order, file="include/pluto/logger.hpp", line=None, function="pluto::log_level")
    return table

class Mon(strs.Mon): pass

class Out:
    """abstract output stream: cells inserted so far"""
    def __init__(self, mod):
        self.mod = mod; self.ms = ms = M.base(); strs.install(ms, Mon())
        star = ms["*"]
        star.append((lambda f: f.norm == "std::ostream::operator<<", self.member))
        star.append((lambda f: f.norm == "std::operator<<" and f.params.startswith("std::basic_ostream&"), self.free))
        star.append((lambda f: f.norm in ("std::ostream::put", "std::ostream::write"), self.raw))
        star.append((lambda f: f.norm in ("std::ios_base::width", "std::basic_ios::fill", "std::ios::fill", "std::ios_base::setf", "std::ios_base::flags", "std::ios_base::unsetf"), self.direct))
        ms["pluto::file_name"] = self.file_name
        star.append((lambda f: f.decl and f.name in ("localtime_r", "localtime", "gmtime_r", "gmtime"), self.localtime))
    def file_name(self, I, st, ins, fn, args):
        p = args[0]
        if p.__class__ is not Ptr or p.o not in st.objs or st.objs[p.o].get("kind") != "array": raise Undecided("file_name of unknown text")
        k = atom(T("base", p.o)); st.assume_ge(k); st.assume_ge(lsub(st.objs[p.o]["len"], k))
        st.assume_ge(lsub(k, p.off)); return [(st, Ptr(p.o, k))]
    def localtime(self, I, st, ins, fn, args):
        t = I.load(st, args[0], 8, "i64")
        if fn.name.endswith("_r"): d = args[1]
        else: d = Ptr(st.new_obj("static", 56, name="calendar time"), 0)
        inf = st.objs[d.o]; st.mem[d.o] = {k: v for k, v in st.mem[d.o].items() if not (k.__class__ is int and d.off <= k < d.off + 56)}
        st.models[(d.o, d.off)] = ("tm", (fn.name.replace("_r", ""), t))
        return [(st, d)]
    def os(self, I, st, p):
        if p.__class__ is not Ptr or p != st.mon["stream"]: raise Undecided("another stream is written")
        return st.mon
    def cell(self, st, kind, lo, hi, val, **kw):
        m = st.mon; w = m["width"]; m["width"] = 0
        m["cells"] = m["cells"] + (dict(kind=kind, lo=lo, hi=hi, val=val, width=w, adj=m["adj"], fill=m["fill"], **kw),)
    def text(self, st, v):
        if all(p[0] == "u" and p[1].__class__ is int for p in v):
            s = "".join(chr(p[1] & 0xff) for p in v)
            self.cell(st, "const", len(s), len(s), s); return
        if len(v) == 1 and v[0][0] == "sl":
            n = v[0][3]; hi = None
            for k in range(1, 129):
                if n.__class__ is int and n <= k or n.__class__ is Lin and st.num.entails(lsub(k, n)): hi = k; break
            self.cell(st, "text", 0, hi, v[0]); return
        raise Undecided("composed text")
    def number(self, I, st, v, w, signed):
        v = I.num_norm(st, v, w, signed) if v.__class__ is Lin else v
        if v.__class__ is int and signed: v = sgn(v & ((1 << w) - 1), w)
        hi = None
        for k in range(1, 12):
            if v.__class__ is int: ok = 0 <= v < 10**k
            else: ok = st.num.entails(v) and st.num.entails(lsub(10**k - 1, v))
            if ok: hi = k; break
        self.cell(st, "number", 1, hi, v)
    def member(self, I, st, ins, fn, args):
        self.os(I, st, args[0]); p = fn.params.replace("std::__cxx11::", "std::")
        if "(*)" in p:
            f = args[1]
            nm = I.mod.funcs.get(f.o[1]).norm if f.__class__ is Ptr and f.o.__class__ is tuple and I.mod.funcs.get(f.o[1]) else None
            if nm in ("std::left", "std::right", "std::internal"): st.mon["adj"] = nm[5:]
            elif nm in ("std::endl",): st.mon["width"] = 0; self.cell(st, "const", 1, 1, "\n")
            elif nm in ("std::flush", "std::dec", "std::fixed", "std::boolalpha", "std::noboolalpha", "std::noshowbase", "std::noshowpos", "std::noshowpoint", "std::skipws"): pass
            else: raise Undecided("stream manipulator %s" % nm)
            return [(st, args[0])]
        W = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "short": (16, True), "unsigned short": (16, False)}
        if p not in W: raise Undecided("stream insertion of " + p)
        self.number(I, st, args[1], *W[p])
        return [(st, args[0])]
    def free(self, I, st, ins, fn, args):
        self.os(I, st, args[0]); p = fn.params.split(",", 1)[1].strip().replace("std::__cxx11::", "std::")
        v = args[1]
        if v.__class__ is Agg and len(v) == 1: v = v[0]
        if p.startswith("std::_Setfill"): st.mon["fill"] = chr(v & 0xff)
        elif p.startswith("std::_Setw"): st.mon["width"] = sgn(v & 0xffffffff, 32)
        elif p.startswith("std::_Put_time"):
            a = args[1:] if args[1].__class__ is not Agg else list(args[1])
            fmt = literal(I, st, a[1]); tm = st.models.get((a[0].o, a[0].off)) if a[0].__class__ is Ptr else None
            if fmt is None: raise Undecided("time format")
            n = 0; i = 0
            while i < len(fmt):
                if fmt[i] == "%":
                    if fmt[i + 1:i + 2] not in TIMEW or not fmt[i + 1:]: raise Undecided("time format %r" % fmt)
                    n += TIMEW[fmt[i + 1]]; i += 2
                else: n += 1; i += 1
            w = st.mon["width"]; st.mon["width"] = 0        # put_time ignores the width
            self.cell(st, "time", n, n, tm[1] if tm and tm[0] == "tm" else None, fmt=fmt)
            st.mon["width"] = w
        elif p in ("char", "unsigned char", "signed char"):
            if v.__class__ is not int: raise Undecided("character")
            self.cell(st, "const", 1, 1, chr(v & 0xff))
        elif p.endswith("char const*"):
            if v.__class__ is Ptr and v.o is None: raise Violation("null-text", "a null pointer is printed")
            s = literal(I, st, v)
            if s is not None: self.cell(st, "const", len(s), len(s), s)
            elif v.__class__ is Ptr and v.o in st.objs and st.objs[v.o].get("kind") == "array":
                n = lsub(st.objs[v.o]["len"], v.off); self.text(st, (("sl", v.o, v.off, n),))
            else: raise Undecided("unknown text")
        elif p.startswith("std::basic_string"):
            m = st.models.get((v.o, v.off)) if v.__class__ is Ptr else None
            if p.startswith("std::basic_string_view") or not m or m[0] != "str": raise Undecided("text")
            self.text(st, m[1])
        else: raise Undecided("stream insertion of " + p)
        return [(st, args[0])]
    def raw(self, I, st, ins, fn, args):
        self.os(I, st, args[0]); w = st.mon["width"]; st.mon["width"] = 0
        if fn.norm.endswith("put") and args[1].__class__ is int: self.cell(st, "const", 1, 1, chr(args[1] & 0xff))
        elif fn.norm.endswith("write") and args[2].__class__ is int:
            s = literal(I, st, args[1])
            if s is None or len(s) < args[2]: raise Undecided("raw output")
            self.cell(st, "const", args[2], args[2], s[:args[2]])
        else: raise Undecided("raw output")
        st.mon["width"] = w
        return [(st, args[0])]
    def direct(self, I, st, ins, fn, args):
        n = fn.norm.rsplit("::", 1)[1]
        if n == "width" and len(args) == 2: st.mon["width"] = args[1]; return [(st, 0)]
        if n == "fill" and len(args) == 2: st.mon["fill"] = chr(args[1] & 0xff); return [(st, 32)]
        raise Undecided("stream state function " + fn.norm)
    # -------------------------------------------------------------- runs
    def state(self, fill, adj):
        st = State(); o = st.new_obj("stream", None, name="stream", lazy=True)
        st.mon = dict(stream=Ptr(o, 0), fill=fill, adj=adj, width=0, cells=())
        return st
    def entry(self, st, level):
        mem = {}; ms = self.mod.types.get("pluto::log_entry")
        if not ms.__class__ is dict: raise Undecided("log_entry")
        for n, off, sz, ty in ms["members"]: mem[n] = (off, sz)
        if not {"time", "thread_id", "level", "source", "message"} <= set(mem): raise Undecided("log_entry has other members")
        src = {n: (off, sz) for n, off, sz, ty in self.mod.types["pluto::source_info"]["members"]}
        o = st.new_obj("arg", ms["size"], name="log entry"); st.mem[o] = {}
        v = {}
        def txt(name):
            a, n = seq.mkarray(st, name, es=1, nul=1, zfree=True, handler=lambda I, st, o, idx, ty, info: T("elem", o, idx))
            return a, n
        for k, hi in (("time", 1 << 62), ("thread_id", 1 << 62), ("line", (1 << 31) - 1)):
            v[k] = atom(T("entry", k)); st.assume_ge(v[k]); st.assume_ge(lsub(hi, v[k]))
        for k in ("file", "function", "message"): v[k], n = txt(k)
        b = mem["source"][0]
        st.mem[o] = {mem["time"][0]: (8, v["time"]), mem["thread_id"][0]: (8, v["thread_id"]), mem["level"][0]: (mem["level"][1], level & 0xff),
                     b + src["file"][0]: (8, Ptr(v["file"], 0)), b + src["line"][0]: (4, v["line"]), b + src["function"][0]: (8, Ptr(v["function"], 0))}
        st.models[(o, mem["message"][0])] = ("str", (("sl", v["message"], 0, st.objs[v["message"]]["len"]),))
        return Ptr(o, 0), v

def columns(cells):
    """cut a line of cells into columns at '|' and '+'"""
    cols = [[]]; seps = []
    for x in cells:
        if x["kind"] == "const" and len(x["val"]) >= 1 and x["width"] <= len(x["val"]) and any(ch in "|+" for ch in x["val"]):
            part = ""
            for ch in x["val"]:
                if ch in "|+":
                    if part: cols[-1].append(dict(x, val=part, lo=len(part), hi=len(part), width=0))
                    part = ""; cols.append([]); seps.append(ch)
                else: part += ch
            if part: cols[-1].append(dict(x, val=part, lo=len(part), hi=len(part), width=0))
        else: cols[-1].append(x)
    return cols, seps
def width_of(col):
    lo = hi = 0
    for x in col:
        lo += max(x["lo"], x["width"])
        hi = None if hi is None or x["hi"] is None else hi + max(x["hi"], x["width"])
    return lo, hi
def lines(cells):
    out = [[]]
    for x in cells:
        if x["kind"] == "const" and "\n" in x["val"]:
            parts = x["val"].split("\n")
            for i, p in enumerate(parts):
                if i: out.append([])
                if p: out[-1].append(dict(x, val=p, lo=len(p), hi=len(p)))
        else: out[-1].append(x)
    return out
def side(x):
    """the side on which the text stands in its cell"""
    return "left" if x["adj"] == "left" else "right"

STATES = [(" ", "none"), (" ", "left"), ("0", "right"), ("-", "left"), ("*", "internal")]

def writers(c, mod, lv, table, name):
    row_fn, head_fn = mod.entry("w_row"), mod.entry("w_header")
    rl, hl = target(mod, row_fn), target(mod, head_fn)
    out = Out(mod)
    heads = []
    for fill, adj in STATES:
        I = Interp(mod, out.ms, dict(nowrap=True)); st = out.state(fill, adj)
        outs = I.run(head_fn, [st.mon["stream"]], st)
        if not c.absorb(I, "header " + name): return
        for k, s, v in outs:
            if k == "ret": heads.append(s.mon["cells"])
            else: c.ob("header:returns", False, "the header writer throws", **hl)
    hc = None
    for cells in heads:
        ls = lines(cells)
        ls = [l for i, l in enumerate(ls) if l or i < len(ls) - 1]
        if len(ls) != 2: c.ob("header:lines", None, "the header has %d lines" % len(ls), **hl); return
        cols, seps = columns(ls[0]); dcols, dseps = columns(ls[1])
        names = []
        for col in cols:
            t = "".join(x["val"] for x in col if x["kind"] == "const")
            n = HEAD.get(t.strip().lower())
            if n is None and t.strip() in table[lv["header"]]: n = "level"
            if n is None: c.ob("header:names", None, "unknown column %r" % t, **hl); return
            names.append(n)
        ws = [width_of(col)[0] for col in cols]; dws = [width_of(col)[0] for col in dcols]
        c.ob("header:ruler", len(dws) == len(ws) and all(x == y for x, y in zip(ws, dws)), "the widths of the header's columns are %r, those of the line below it %r" % (ws, dws), **hl)
        c.ob("header:ruler", all(x["fill"] == "-" or x["val"].strip("-") == "" and x["width"] <= len(x["val"]) for col in dcols for x in col if x["kind"] == "const"), "the line below the header is not drawn with dashes", **hl)
        c.ob("header:separators", set(seps) <= {"|"} and set(dseps) <= {"+"}, "separators are %s and %s" % ("".join(seps), "".join(dseps)), **hl)
        sides = [side(col[0]) if len(col) == 1 and col[0]["width"] > col[0]["lo"] else None for col in cols]
        sig = (tuple(names), tuple(ws), tuple(sides), tuple(x["fill"] for col in cols for x in col if x["width"] > x["lo"]))
        if hc is None: hc = sig
        c.ob("header:stable", hc == sig, "the header depends on the state in which the stream was left: %r, %r" % (hc, sig), **hl)
        c.ob("header:padding", all(f == " " for f in sig[3]), "the header is padded with %r" % (sig[3],), **hl)
    if hc is None: raise ir.AnalysisBroken("no path of the header writer")
    names, ws, sides, _ = hc
    n = 0
    for lname, level in [(x, lv[x]) for x in NAMES]:
        for fill, adj in STATES if lname in ("info", "critical") else STATES[:1]:
            I = Interp(mod, out.ms, dict(nowrap=True)); st = out.state(fill, adj); e, vals = out.entry(st, level)
            outs = I.run(row_fn, [st.mon["stream"], e], st)
            if not c.absorb(I, "row " + name): return
            for k, s, v in outs:
                if k != "ret": c.ob("row:returns", False, "the row writer throws", **rl); continue
                n += 1; one_row(c, s, I, s.mon["cells"], names, ws, sides, vals, table[level], table[lv["header"]], names, rl)
    c.extra["rows laid out (%s)" % name] = n
    c.extra["columns (%s)" % name] = "|".join("%s:%d" % x for x in zip(names, ws))

def one_row(c, st, I, cells, names, ws, sides, vals, texts, htexts, hnames, rl):
    ls = lines(cells); ls = [l for i, l in enumerate(ls) if l or i < len(ls) - 1]
    if len(ls) != 1: c.ob("row:lines", False if len(ls) > 1 else None, "a row has %d lines" % len(ls), **rl); return
    cols, seps = columns(ls[0])
    def kind(col):
        ks = []
        for x in col:
            if x["kind"] == "time": ks.append("time")
            elif x["kind"] == "number":
                if x["val"] == vals["thread_id"]: ks.append("thread_id")
                elif x["val"] == vals["line"]: ks.append("line")
                else: ks.append("number")
            elif x["kind"] == "text":
                ks.append({vals[k]: k for k in ("file", "function", "message")}.get(x["val"][1], "?"))
            elif x["val"] in texts: ks.append("level")
            else: ks.append("const " + repr(x["val"]))
        if ks and ks[0] == "time" and all(k in ("time", "number") or k.startswith("const") for k in ks): return "time"
        return " ".join(ks)
    kinds = [kind(col) for col in cols]
    if not c.ob("row:columns", kinds == list(names), "the row prints the columns %s, the header %s" % (", ".join(kinds), ", ".join(names)), **rl): return
    c.ob("row:separators", set(seps) <= {"|"}, "separators are %s" % "".join(seps), **rl)
    last = len(cols) - 1
    for i, col in enumerate(cols):
        lo, hi = width_of(col); k = kinds[i]
        if i != last:
            c.ob("row:width", lo == ws[i], "the %s column is %d wide in a row and %d in the header" % (k, lo, ws[i]), **rl)
            if k not in ("thread_id", "line"):
                c.ob("row:width", hi == lo, "the %s column of a row may be %s wide where the header has %d" % (k, "any number" if hi is None else hi, ws[i]), **rl)
            if len(col) == 1 and sides[i] is not None and k != "time":
                c.ob("row:alignment", side(col[0]) == sides[i], "the %s column is aligned to the %s in a row and to the %s in the header" % (k, side(col[0]), sides[i]), **rl)
                c.ob("row:padding", col[0]["fill"] == " " or col[0]["hi"] is not None and col[0]["lo"] == col[0]["hi"] and col[0]["lo"] >= col[0]["width"], "the %s column is padded with %r" % (k, col[0]["fill"]), **rl)
        if k == "file": c.ob("row:file", col[0]["val"][2] == atom(T("base", vals["file"])), "the file column does not start at the file's name", **rl)
        if k in ("function", "message"): c.ob("row:" + k, col[0]["val"][2] == 0, "the %s column does not start at the beginning of the text" % k, **rl)
        if k == "message": c.ob("row:message", col[0]["val"][3] == st.objs[vals["message"]]["len"] and col[0]["width"] == 0, "the message is not printed in full", **rl)
        if k == "time":
            t = col[0]; w = I.divmod(st, vals["time"], 10**9)[0]; us = I.divmod(st, I.divmod(st, vals["time"], 1000)[0], US)[1]
            if t["val"] is None: c.ob("row:time", None, "the calendar time printed is not traced", **rl)
            else: c.ob("row:time", t["val"][0] == "localtime" and st.num.entails_eq(lsub(t["val"][1], w)), "the timestamp is the %s of %r" % t["val"], **rl)
            for x in col[1:]:
                if x["kind"] != "number": continue
                c.ob("row:fraction", st.num.entails_eq(lsub(x["val"], us)), "the fraction of the timestamp is %r" % (x["val"],), **rl)
                c.ob("row:fraction", x["width"] == 6 and x["fill"] == "0" and side(x) == "right", "the fraction of the timestamp is not printed with leading zeros", **rl)

def one(cfg):
    def job(c):
        name = cfg["std"] + (",hide" if cfg.get("defs") else "")
        mod = ir.compile_module("logger.cpp", **cfg)
        lv = levels_of(mod)
        table = conversions(c, mod, lv, name)
        writers(c, mod, lv, table, name)
    return job
CONFIGS = (dict(std="c++20"), dict(std="c++14"), dict(std="c++20", defs=("PLUTO_LOGGER_HIDE_SOURCE_INFO=1",)), dict(std="c++14", defs=("PLUTO_LOGGER_HIDE_SOURCE_INFO=1",)))
def check():
    c = Check("C15", "every conversion interpreted for all 256 level values; the two default writers interpreted on an abstract stream from several left-over stream states, their insertions laid out as cells and compared column by column (order, width, alignment, contents)")
    c.parallel([one(cfg) for cfg in ir.buildable("logger.cpp", CONFIGS, c)])
    c.assumptions = ["std stream manipulators follow their contracts", "log times are not before the epoch", "thread ids and line numbers may be wider than their columns"]
    if not c.viol and not c.und: c.require("obligations", len(c.obs), 500)
    return c
