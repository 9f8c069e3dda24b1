"""Contract model of std::basic_string / basic_string_view.

The value of a string object is a tuple of pieces: ("u", unit) one code unit,
("sl", array, start, length) a run of an input array; a monitor may replace
the value of an output string by its own running summary (class Mon)."""
import re
from .dom import *
from .interp import *

EL = re.compile(r"basic_string(?:_view)?<(\w+)")
MAXLEN = 1 << 40

class Mon:
    """what a check observes about strings; the default keeps the pieces"""
    wchar = 4
    def append(self, I, st, key, val, pieces): return [(st, cat(val, pieces))]
    def modify(self, I, st, key, val, what): pass
    def new(self, I, st, key): return ()
    def moved(self, I, st, key): return ()

def cat(a, b):
    if a.__class__ is not tuple or (a and a[0].__class__ is str): raise Undecided("text of a summarised string")
    out = list(a)
    for p in b:
        if out and p[0] == "sl" and out[-1][0] == "sl" and out[-1][1] is p[1] and ladd(out[-1][2], out[-1][3]) == p[2]:
            q = out[-1]; out[-1] = ("sl", p[1], q[2], ladd(q[3], p[3]))
        elif p[0] == "sl" and p[3] == 0: pass
        else: out.append(p)
    if len(out) > 4000: raise Undecided("very long text")
    return tuple(out)
def plen(v):
    n = 0
    for p in v: n = ladd(n, 1 if p[0] == "u" else p[3])
    return n
def is_pieces(v): return v.__class__ is tuple and not (v and v[0].__class__ is str)

def install(ms, mon):
    W = {"char": 1, "char8_t": 1, "signed": 1, "unsigned": 1, "char16_t": 2, "char32_t": 4, "wchar_t": mon.wchar}
    def es_of(fn):
        m = EL.search(fn.dem)
        return W.get(m.group(1), 1) if m else 1
    def key(p):
        if p.__class__ is not Ptr: raise Undecided("string through %r" % (p,))
        return (p.o, p.off)
    def get(I, st, p):
        k = key(p); v = st.models.get(k)
        if v is None:
            i = st.objs.get(p.o)
            if i is not None and i.get("dead"): raise Violation("use-after-lifetime", "string used after its lifetime ended")
            raise Undecided("unknown string object")
        if v[0] == "gone": raise Violation("use-after-lifetime", "string used after its destruction")
        if v[0] != "str": raise Undecided("not a string")
        return v[1]
    def put(st, p, v): st.models[key(p)] = ("str", v)
    def arr(I, st, p, es, n):
        """pieces of n units starting at p"""
        if p.__class__ is not Ptr: raise Undecided("text through %r" % (p,))
        if n == 0: return ()
        if p.o is None: raise Violation("null-dereference", "text read through a null pointer")
        if p.o.__class__ is tuple:
            I.gobj(st, p.o)
            if n.__class__ is not int: raise Undecided("constant text of unknown length")
            return tuple(("u", I.load(st, Ptr(p.o, ladd(p.off, i * es)), es, "i%d" % (es * 8))) for i in range(n))
        inf = st.objs.get(p.o)
        if inf is None: raise Undecided("text in unknown object")
        if inf.get("dead"): raise Violation("use-after-lifetime", "text read after the lifetime of its storage")
        if inf["kind"] == "array":
            i = I.div_exact(p.off, es)
            if i is None: raise Undecided("misaligned text")
            if inf.get("piece") is not None: return inf["piece"](I, st, i, n)
            if st.num.entails_eq(n): return ()
            a, b = i, ladd(i, n)
            if not (st.num.entails(a) and st.num.entails(lsub(ladd(inf["len"], inf.get("nul", 0)), b)) and st.num.entails(n)):
                if st.wide: raise Undecided("text read not proved inside its range")
                raise Violation("out-of-bounds", "reads units [%r, %r) of %s, which has %r units" % (a, b, inf.get("name"), inf["len"]))
            return (("sl", p.o, i, n),)
        if n.__class__ is int and n <= 64:
            return tuple(("u", I.load(st, Ptr(p.o, ladd(p.off, i * es)), es, "i%d" % (es * 8))) for i in range(n))
        raise Undecided("text of unknown length")
    def zlen(I, st, p, es):
        """length up to the terminator"""
        if p.__class__ is not Ptr: raise Undecided("text through %r" % (p,))
        if p.o is None: raise Violation("null-dereference", "text read through a null pointer")
        if p.o.__class__ is tuple:
            I.gobj(st, p.o); n = 0
            while True:
                v = I.load(st, Ptr(p.o, ladd(p.off, n * es)), es, "i%d" % (es * 8))
                if v == 0: return n
                if v.__class__ is not int: raise Undecided("text of unknown length")
                n += 1
        inf = st.objs.get(p.o)
        if inf is not None and inf["kind"] == "array":
            i = I.div_exact(p.off, es)
            if inf.get("zfree"): return lsub(inf["len"], i)     # the terminator is the first zero
            if inf.get("piece") is not None: raise Undecided("length of a text buffer")
            n = atom(T("zlen", p.o, i)) if i.__class__ is int else atom(st.fresh("zlen"))
            st.assume_ge(n); st.assume_ge(lsub(lsub(inf["len"], i), n))
            return n
        raise Undecided("text of unknown length")
    def piece_of(I, st, p, es): return arr(I, st, p, es, zlen(I, st, p, es))
    mon.get = get; mon.put = put; mon.arr = arr; mon.zlen = zlen; mon.es_of = es_of
    def val_pieces(I, st, p):
        v = get(I, st, p)
        if not is_pieces(v): raise Undecided("text of a summarised string")
        return v
    def sub(I, st, v, pos, n):
        """pieces [pos, pos+n) of v"""
        if len(v) == 1 and v[0][0] == "sl": return (("sl", v[0][1], ladd(v[0][2], pos), n),) if n != 0 else ()
        if pos == 0 and n == plen(v): return v
        if pos.__class__ is int and n.__class__ is int and all(p[0] == "u" for p in v): return v[pos:pos + n]
        raise Undecided("part of a composed text")
    mon.sub = sub
    def clampn(I, st, n, rest):
        """min(n, rest) where n may be npos"""
        if n.__class__ is int and n >= MAXLEN * 2: return rest
        return rest if I.truth(st, I.cmp(st, "ugt", n, rest, 64)) else n
    def src(I, st, fn, args, ps):
        """pieces denoted by the trailing arguments of assign/append/constructors"""
        es = es_of(fn); p0 = ps[0] if ps else None
        ps = [p for p in ps if not p.startswith("std::allocator")]
        if not ps: return ()
        if p0.startswith("std::basic_string") and "view" not in p0.split("<")[0]:
            v = val_pieces(I, st, args[0])
            if len(ps) == 1: return v
            size = plen(v); pos = args[1]
            if I.truth(st, I.cmp(st, "ugt", pos, size, 64)): return Throw("_ZTISt12out_of_range", "position beyond the text")
            n = clampn(I, st, args[2], lsub(size, pos)) if len(ps) > 2 else lsub(size, pos)
            return sub(I, st, v, pos, n)
        if p0.startswith("std::initializer_list") or p0.startswith("std::basic_string_view"):
            a = args[0]
            if a.__class__ is Agg: return arr(I, st, a[0], es, a[1]) if p0.startswith("std::init") else arr(I, st, a[1], es, a[0])
            if p0.startswith("std::init"): return arr(I, st, args[0], es, args[1])
            return arr(I, st, args[1], es, args[0])
        if len(ps) == 3 and p0 in ("char const* const&", "char const*&"):     # text convertible to a view, position, count
            q = I.load(st, args[0], 8, "p"); v = piece_of(I, st, q, es); size = plen(v); pos = args[1]
            if I.truth(st, I.cmp(st, "ugt", pos, size, 64)): return Throw("_ZTISt12out_of_range", "position beyond the text")
            return sub(I, st, v, pos, clampn(I, st, args[2], lsub(size, pos)))
        if len(ps) == 1 and p0.endswith("*"): return piece_of(I, st, args[0], es)
        if len(ps) == 1: return (("u", args[0]),)
        if p0.endswith("*") and ps[1] in ("unsigned long", "unsigned int"): return arr(I, st, args[0], es, args[1])
        if p0 in ("unsigned long",):
            n = args[0]
            if n.__class__ is not int: raise Undecided("text of unknown length")
            return (("u", args[1]),) * n
        if len(ps) >= 2 and p0 == ps[1] and (p0.endswith("*") or "__normal_iterator" in p0):
            a, b = args[0], args[1]
            if a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
                d = I.div_exact(lsub(b.off, a.off), es)
                if d is None: raise Undecided("misaligned text")
                if a.o is not None and a.o in st.objs and st.objs[a.o]["kind"] == "array" and st.objs[a.o]["es"] != es: raise Undecided("text copied between element sizes")
                return arr(I, st, a, es, d)
        raise Undecided("string source " + fn.dem[:120])
    def app(I, st, p, pieces, result):
        if pieces.__class__ is Throw: return [(st, pieces)]
        out = []
        for s, v in mon.append(I, st, key(p), get(I, st, p), pieces):
            if v is DROP: continue
            put(s, p, v); out.append((s, result))
        return out
    def params(fn):
        d = 0; cur = ""; out = []
        for ch in fn.params:
            if ch in "(<": d += 1
            if ch in ")>": d -= 1
            if ch == "," and d == 0: out.append(cur.strip()); cur = ""
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return [q.replace("std::__cxx11::", "std::") for q in out]
    def whole(I, st, p):
        """(array, start, length) of a string that is one run of an array, else a buffer object"""
        v = get(I, st, p)
        if is_pieces(v) and len(v) == 1 and v[0][0] == "sl": return v[0][1], v[0][2], v[0][3]
        return None
    def buffer(I, st, p, es):
        w = whole(I, st, p)
        if w: return Ptr(w[0], lscale(w[1], es)), w[2]
        v = get(I, st, p)
        if not is_pieces(v): raise Undecided("text of a summarised string")
        k = key(p); bo = T("obj", "strbuf", k[0], k[1])
        n = plen(v)
        def elem(I, st, o, idx, ty, info):
            v = get(I, st, Ptr(k[0], k[1])); i = 0
            for q in v:
                L = 1 if q[0] == "u" else q[3]
                if I.truth(st, I.cmp(st, "slt", idx, ladd(i, L), 64)):
                    if q[0] == "u": return q[1]
                    return st.objs[q[1]]["elem"](I, st, q[1], ladd(q[2], lsub(idx, i)), ty, st.objs[q[1]])
                i = ladd(i, L)
            return 0
        def piece(I, st, i, m): return sub(I, st, get(I, st, Ptr(k[0], k[1])), i, m)
        st.objs[bo] = dict(kind="array", es=es, len=n, elem=elem, nul=1, name="text", size=None, piece=piece); st.mem[bo] = {}
        return Ptr(bo, 0), n
    mon.buffer = buffer
    def h(I, st, ins, fn, args):
        cls, n = fn.norm.rsplit("::", 1); ps = params(fn); es = es_of(fn)
        if n == "basic_string":
            k = key(args[0])
            if ps and ps[0].endswith("&&") and ps[0].startswith("std::basic_string"):
                st.models[k] = ("str", get(I, st, args[1])); put(st, args[1], mon.moved(I, st, key(args[1]))); return [(st, None)]
            if ps and ps[0].startswith("std::basic_string") and "view" not in ps[0] and len(ps) == 1:
                st.models[k] = ("str", get(I, st, args[1])); return [(st, None)]
            pc = src(I, st, fn, args[1:], ps)
            if pc.__class__ is Throw: return [(st, pc)]
            st.models[k] = ("str", mon.new(I, st, k))
            return app(I, st, args[0], pc, None) if pc else [(st, None)]
        if n == "~basic_string":
            get(I, st, args[0]); st.models[key(args[0])] = ("gone", 0); return [(st, None)]
        sret = n == "substr"
        this = args[1] if sret else args[0]
        v = get(I, st, this)
        if n in ("size", "length"):
            return [(st, mon.size(I, st, v) if not is_pieces(v) else plen(v))]
        if n == "empty":
            L = mon.size(I, st, v) if not is_pieces(v) else plen(v)
            return [(st, I.cmp(st, "eq", L, 0, 64))]
        if n in ("capacity", "max_size"):
            a = atom(st.fresh("capacity")); st.assume_ge(a); st.assume_ge(lsub(MAXLEN * 4, a)); return [(st, a)]
        if n in ("reserve", "shrink_to_fit"): return [(st, None)]
        if n in ("push_back",): return app(I, st, this, (("u", args[1]),), None)
        if n in ("operator+=", "append"): return app(I, st, this, src(I, st, fn, args[1:], ps), this)
        if n in ("operator=", "assign"):
            if ps[0].startswith("std::basic_string") and "view" not in ps[0] and len(ps) == 1:
                w = get(I, st, args[1]); mon.modify(I, st, key(this), v, n)
                if ps[0].endswith("&&") and key(args[1]) != key(this): put(st, args[1], mon.moved(I, st, key(args[1])))
                put(st, this, w); return [(st, this)]
            pc = src(I, st, fn, args[1:], ps)
            if pc.__class__ is Throw: return [(st, pc)]
            mon.modify(I, st, key(this), v, n); put(st, this, mon.new(I, st, key(this)))
            return app(I, st, this, pc, this)
        if n == "clear":
            mon.modify(I, st, key(this), v, n); put(st, this, mon.new(I, st, key(this))); return [(st, None)]
        if n == "swap":
            w = get(I, st, args[1]); mon.modify(I, st, key(this), v, n)
            put(st, this, w); put(st, args[1], v); return [(st, None)]
        if n in ("c_str", "data", "begin", "cbegin"): return [(st, buffer(I, st, this, es)[0])]
        if n in ("end", "cend"):
            b, L = buffer(I, st, this, es); return [(st, Ptr(b.o, ladd(b.off, lscale(L, es))))]
        if n in ("operator[]", "at", "front", "back"):
            b, L = buffer(I, st, this, es)
            i = 0 if n == "front" else ladd(L, -1) if n == "back" else args[1]
            if i.__class__ is Lin: i = I.num_norm(st, i, 64, False)
            if n in ("front", "back") and not st.num.entails(ladd(L, -1)):
                if st.wide: raise Undecided("%s() of a string not proved non-empty" % n)
                raise Violation("out-of-bounds", "%s() of a string that may be empty" % n)
            if n == "at" and I.truth(st, I.cmp(st, "uge", i, L, 64)): return [(st, Throw("_ZTISt12out_of_range", "at"))]
            if n == "operator[]" and not (st.num.entails(i) and st.num.entails(lsub(L, i))):
                if st.wide: raise Undecided("index not proved inside the string")
                raise Violation("out-of-bounds", "index %r of a string of %r units" % (i, L))
            return [(st, Ptr(b.o, ladd(b.off, lscale(i, es))))]
        if n == "substr":
            if not is_pieces(v): raise Undecided("text of a summarised string")
            size = plen(v); pos = args[2]
            if I.truth(st, I.cmp(st, "ugt", pos, size, 64)): return [(st, Throw("_ZTISt12out_of_range", "substr"))]
            m = clampn(I, st, args[3], lsub(size, pos))
            k = key(args[0]); st.models[k] = ("str", mon.new(I, st, k))
            return app(I, st, args[0], sub(I, st, v, pos, m), None)
        if n.startswith("operator ") and "basic_string_view" in n:
            b, L = buffer(I, st, this, es); return [(st, Agg((L, b)))]
        r = mon.other(I, st, ins, fn, n, this, args, ps) if hasattr(mon, "other") else None
        if r is not None: return r
        raise Undecided("unmodelled string operation " + fn.dem[:140])
    ms["*"].append((lambda f: f.norm.startswith("std::basic_string::") and f.norm.count("::") == 2, h))
    def strlen(I, st, ins, fn, args):
        m = re.search(r"char_traits<(\w+)", fn.dem)
        es = W.get(m.group(1), 1) if m else mon.wchar if fn.name == "wcslen" else 1
        return [(st, zlen(I, st, args[0], es))]
    ms["strlen"] = strlen; ms["wcslen"] = strlen; ms["std::char_traits::length"] = strlen
