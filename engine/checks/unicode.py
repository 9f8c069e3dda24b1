"""C24 / C25 / C26: UTF conversions."""
from sa.dom import *
from sa.interp import *
from sa import models as M, ir, strs
from sa.check import Check

ENC = {"c": (8, 1), "c8": (8, 1), "c16": (16, 2), "c32": (32, 4)}

class Done(Exception): pass

def decode(I, st, enc, arr, pos, n, w):
    """the encoding's definition (Unicode 15, tables 3-5 to 3-7): (units of the character at pos, code point bits) or (1, None)"""
    def u(k):
        if enc[0] == "copy": pass
        return bv_subst(bv_atom(T("elem", arr, ladd(pos, k)), w), st.bits)
    def less(x, c): return I.truth(st, I.cmp(st, "ult", x, c, w)) if x.__class__ is not int else x < c
    def within(x, a, b): return not less(x, a) and less(x, b + 1)
    def has(k): return I.split_ge(st, lsub(n, ladd(pos, k + 1)))
    def bits(v, k): return bv_bits(v, max(k, w))[:k]
    a = u(0)
    if enc[0] == "copy": return 1, bv_bits(a, w)
    if enc[0] == 8:
        if less(a, 0x80): return 1, bits(a, 8)
        if less(a, 0xC2) or not less(a, 0xF5): return 1, None
        k = 2 if less(a, 0xE0) else 3 if less(a, 0xF0) else 4
        if not has(k - 1): return 1, None
        lo, hi = 0x80, 0xBF
        if k == 3:
            if less(a, 0xE1): lo = 0xA0
            elif within(a, 0xED, 0xED): hi = 0x9F
        if k == 4:
            if less(a, 0xF1): lo = 0x90
            elif not less(a, 0xF4): hi = 0x8F
        if not within(u(1), lo, hi): return 1, None
        for j in range(2, k):
            if not within(u(j), 0x80, 0xBF): return 1, None
        cp = ()
        for j in range(k - 1, 0, -1): cp += bits(u(j), 6)
        cp += bits(u(0), {2: 5, 3: 4, 4: 3}[k])
        return k, cp
    if enc[0] == 16:
        if less(a, 0xD800) or not less(a, 0xE000): return 1, bits(a, 16)
        if not less(a, 0xDC00) or not has(1) or not within(u(1), 0xDC00, 0xDFFF): return 1, None
        cp = bits(u(1), 10) + bits(u(0), 10)
        v = I.binop(st, "add", bv_make(cp + (0,) * 11), 0x10000, 31, {})
        return 2, bv_bits(v, 21)
    if less(a, 0xD800) or (not less(a, 0xE000) and less(a, 0x110000)): return 1, bits(a, 21)
    return 1, None

def encode(I, st, enc, cp):
    """code units of a code point"""
    w = enc[0]
    if cp is None: cp = tuple((0xFFFD >> i) & 1 for i in range(21))
    cp = cp + (0,) * (32 - len(cp)); v = bv_subst(bv_make(cp), st.bits)
    cp = bv_bits(v, 32)
    def less(c): return I.truth(st, I.cmp(st, "ult", v, c, 32)) if v.__class__ is not int else v < c
    def byte(*parts): return tuple(parts)
    if w == 32: return (cp[:32],)
    if w == 16:
        if less(0x10000): return (cp[:16],)
        x = bv_bits(I.binop(st, "sub", v, 0x10000, 32, {}), 32)
        def pre(c): return tuple((c >> i) & 1 for i in range(6))
        return (x[10:20] + pre(0xD800 >> 10), x[:10] + pre(0xDC00 >> 10))
    T6 = (0, 1)
    if less(0x80): return (cp[:7] + (0,),)
    if less(0x800): return (cp[6:11] + (0, 1, 1), cp[:6] + T6)
    if less(0x10000): return (cp[12:16] + (0, 1, 1, 1), cp[6:12] + T6, cp[:6] + T6)
    return (cp[18:21] + (0, 1, 1, 1, 1), cp[12:18] + T6, cp[6:12] + T6, cp[:6] + T6)

class Mon(strs.Mon):
    """value of an output string: ("conv", units consumed by the specification, units still expected)"""
    def __init__(self, wchar): self.wchar = wchar
    def new(self, I, st, key):
        return ("conv", 0, ()) if st.mon["track"] else ()
    def moved(self, I, st, key): return ("moved",)
    def size(self, I, st, v):
        a = atom(st.fresh("size")); st.assume_ge(a); st.assume_ge(lsub(strs.MAXLEN * 4, a)); return a
    def modify(self, I, st, key, v, what):
        if key == st.mon["dest"]: raise Violation("destination-modified", "%s changes what the destination already holds" % what)
    def append(self, I, st, key, v, pieces):
        if strs.is_pieces(v): return [(st, strs.cat(v, pieces))]
        if v[0] == "moved": v = ("conv", 0, ())
        m = st.mon; pos, pend = v[1], v[2]
        m["pos"] = pos
        for p in pieces:
            if p[0] == "sl":
                if m["from"][0] == "copy" and p[1] is m["arr"] and not pend and st.num.entails_eq(lsub(p[2], pos)) and st.objs[p[1]]["es"] * 8 == m["to"][0]:
                    pos = ladd(pos, p[3]); continue
                raise Undecided("bulk copy into the destination")
            if not pend:
                if not I.split_ge(st, lsub(ladd(m["n"], -1), pos)):
                    raise Violation("extra-output", "a unit is appended although the whole input has been converted")
                k, cp = decode(I, st, m["from"], m["arr"], pos, m["n"], m["w"])
                pend = encode(I, st, m["to"], cp) if m["from"][0] != "copy" else (cp,)
                m["why"] = "well-formed character of %d unit(s)" % k if cp is not None else "unit that does not start a well-formed character"
                pos = ladd(pos, k)
            w = m["to"][0]; x = p[1]
            if x is UNDEF: raise Violation("uninitialised", "an indeterminate unit is appended")
            if x.__class__ not in (int, BV): raise Undecided("appended unit %r" % (x,))
            got = bv_bits(bv_subst(x, st.bits), w); want = bv_bits(bv_subst(bv_make(pend[0]), st.bits), w)
            if got != want:
                raise Violation("wrong-output", "for a %s the unit appended is %s, expected %s" % (m["why"], show(got), show(want)))
            pend = pend[1:]
        m["pos"] = pos
        return [(st, ("conv", pos, pend))]

def show(bits):
    if all(b.__class__ is int for b in bits): return "0x%X" % sum(b << i for i, b in enumerate(bits))
    return "bits " + "".join(str(b) if b.__class__ is int else "x" for b in reversed(bits))

def target(mod, fn):
    from checks.order import target as t
    return t(mod, fn)

def unit(w):
    def elem(I, st, o, idx, ty, info): return bv_subst(bv_atom(T("elem", o, idx), w), st.bits)
    return elem

NAMES = {"utf8": 8, "utf16": 16, "utf32": 32}
CONFIGS = (dict(std="c++20"), dict(std="c++14", defs=("PLUTO_UTILS_HAS_32_BIT_WCHAR=0",), extra=("-fshort-wchar",)), dict(std="c++20", extra=("-funsigned-char",)))

def analyse(c, which, e, fn, mod, cfg, fr, to, is_ptr, wrapper, wchar, aspects):
    ms = M.base(); mon = Mon(wchar); strs.install(ms, mon)
    I = Interp(mod, ms, dict(progress=True, cursor="pos", widen_after=2, exact=("wrong-output", "extra-output"))); st = State()
    n = atom(T("len", "input")); st.assume_ge(n); st.assume_ge(lsub(strs.MAXLEN, n))
    arr = T("obj", "array", "input"); w = fr[1]
    st.objs[arr] = dict(kind="array", es=w // 8, len=n, elem=unit(w), nul=0, name="the input", size=None); st.mem[arr] = {}
    st.mon = {"from": fr, "to": to, "arr": arr, "n": n, "w": w, "dest": None, "track": True, "why": "", "pos": 0}
    d = st.new_obj("dest", None, name="destination")
    if not wrapper:
        st.models[(d, 0)] = ("str", ("conv", 0, ())); st.mon["dest"] = (d, 0)
    if is_ptr: a = [Ptr(arr, 0), n]
    else:
        s = st.new_obj("input", 32, name="source"); st.models[(s, 0)] = ("str", (("sl", arr, 0, n),)); a = [Ptr(s, 0)]
    outs = I.run(fn, [Ptr(d, 0)] + a if wrapper else a + [Ptr(d, 0)], st)
    where = target(mod, fn); nret = 0; res = []
    for kind, s, v in outs:
        if kind == "throw": res.append(("throws", False, "an exception leaves the conversion")); continue
        if kind != "ret": continue
        nret += 1
        o = s.models.get((d, 0))
        if o is None or o[0] != "str": res.append(("complete", None, "no result")); continue
        if o[1][0] == "moved" or o[1] == (): o = ("str", ("conv", 0, ()))
        if strs.is_pieces(o[1]): res.append(("complete", None, "untracked result")); continue
        pos, pend = o[1][1], o[1][2]
        if s.wide and (pend or not s.num.entails_eq(lsub(n, pos))): res.append(("complete", None, "whole input not proved converted"))
        elif pend: res.append(("complete", False, "only part of the output of a character is appended"))
        elif s.num.entails_eq(lsub(n, pos)): res.append(("complete", True, "whole input converted"))
        else: res.append(("complete", False, "the conversion ends after %r of %r input units" % (pos, n)))
    return I, res, nret, where

READ = ("out-of-bounds", "null-dereference", "use-after-lifetime", "no-progress", "destination-modified", "uninitialised")
def conversions(c, aspect):
    tot = 0; jobs = []
    for cfg in ir.buildable("unicode.cpp", CONFIGS, c):
        mod = ir.compile_module("unicode.cpp", **cfg); wchar = 2 if "-fshort-wchar" in cfg.get("extra", ()) else 4
        for e, fn in sorted(mod.funcs.items()):
            if fn.decl or not (e.startswith("p_utf") or e.startswith("s_utf")): continue
            p = e.split("_"); fr = NAMES[p[1]]; to = NAMES[p[3]]
            if cfg.get("extra") == ("-funsigned-char",) and "c" not in p[4:]: continue
            tot += 1; name = "%s:%s" % (e, cfg["std"] + ("" if not cfg.get("extra") else cfg["extra"][0]))
            def job(c, e=e, fn=fn, mod=mod, cfg=cfg, fr=fr, to=to, wchar=wchar, name=name):
                I, res, nret, where = analyse(c, aspect, e, fn, mod, cfg, (fr, fr), (to, to), e[0] == "p", False, wchar, None)
                split(c, aspect, I, res, nret, where, name)
            jobs.append(job)
    c.parallel(jobs)
    c.require("conversion instances", tot, 60)

def split(c, aspect, I, res, nret, where, name):
    mine = [v for v in I.violations if (v["rule"] in READ) == (aspect == "C25") or aspect == "C26"]
    for v in mine: c.violation(**v)
    for u in I.undecided: c.und.append(dict(rule=name, **u))
    c.note_fns(I)
    for k, x in I.stats.items(): c.stats[k] = c.stats.get(k, 0) + x
    if aspect == "C25":
        bad = [v for v in I.violations if v["rule"] in READ]
        for what in ("reads-inside-input", "progress", "append-only"):
            rules = {"reads-inside-input": ("out-of-bounds", "null-dereference", "use-after-lifetime", "uninitialised"), "progress": ("no-progress",), "append-only": ("destination-modified",)}[what]
            hit = [v for v in bad if v["rule"] in rules]
            c.obs.append(("%s:%s" % (what, name), not hit if not I.undecided else None if not hit else False, "%d reads analysed" % I.loads))
        # every unit is consumed exactly once: the output matches a left-to-right decoding and the whole input is consumed
        for k, ok, msg in res: c.ob("%s:%s" % (k, name), ok if ok is not False or nret else None, msg, **where)
        if not nret and not I.violations and not I.undecided:
            c.ob("terminates:" + name, False, "the conversion never returns", **where)
    else:
        for k, ok, msg in res: c.ob("%s:%s" % (k, name), ok, msg, **where)
        c.obs.append(("output:" + name, not mine if not I.undecided else None if not mine else False, "every unit appended on %d paths equals the specification" % I.stats["paths"]))
        if not nret and not I.violations and not I.undecided: c.ob("complete:" + name, False, "the conversion never returns", **where)

def c24():
    c = Check("C24", "bit-level abstract interpretation: each unit appended to the destination is compared, bit by bit and for every combination of input units, with the unit the Unicode encoding tables require for the character at the current input position; the input position is a symbolic index, loops are closed by invariants, so inputs of any length are covered")
    conversions(c, "C24")
    c.assumptions = ["std::basic_string follows its contract", "memory does not run out", "input of at most 2^40 units"]
    return c
def c25():
    c = Check("C25", "interval/linear bounds analysis of every input access against the given size, loop-progress check at every loop head, and a typestate of the destination (appending operations only)")
    conversions(c, "C25")
    c.assumptions = ["std::basic_string follows its contract", "memory does not run out", "input of at most 2^40 units"]
    return c

RET = {"str": "c", "wstr": "w", "u8str": "c8", "u16str": "c16", "u32str": "c32"}
def c26():
    c = Check("C26", "interprocedural bit-level analysis of every wrapper: the string returned is compared, unit by unit, with the specified conversion of the whole argument")
    tot = 0; jobs = []
    for cfg in ir.buildable("unicode.cpp", CONFIGS + (dict(std="c++20", defs=("PLUTO_UTILS_HAS_32_BIT_WCHAR=0",), extra=("-fshort-wchar",)),), c):
        mod = ir.compile_module("unicode.cpp", **cfg); wchar = 2 if "-fshort-wchar" in cfg.get("extra", ()) else 4
        W = dict(c=8, c8=8, c16=16, c32=32, w=wchar * 8)
        for e, fn in sorted(mod.funcs.items()):
            if fn.decl or not (e.startswith("wp_") or e.startswith("ws_")): continue
            if cfg.get("extra") == ("-funsigned-char",) and "_c" not in e and "_str" not in e: continue
            p = e.split("_"); fr = W[p[2]]; to = W[RET[p[1]]]
            f = ("copy", fr) if fr == to else (fr, fr)
            tot += 1
            def job(c, e=e, fn=fn, mod=mod, cfg=cfg, f=f, to=to, isp=p[0] == "wp", wchar=wchar):
                I, res, nret, where = analyse(c, "C26", e, fn, mod, cfg, f, (to, to), isp, True, wchar, None)
                split(c, "C26", I, res, nret, where, "%s:%s" % (e, cfg["std"] + ("" if not cfg.get("extra") else cfg["extra"][0])))
            jobs.append(job)
    c.parallel(jobs)
    c.require("wrapper instances", tot, 90)
    c.assumptions = ["std::basic_string follows its contract", "memory does not run out", "input of at most 2^40 units"]
    return c
