"""Contract model of std::locale and its ctype facets: a facet lives as long as some locale object holds its locale."""
from .dom import *
from .interp import *
from . import models as M

def lid(I, st, p):
    """identity of the locale held by the object at p"""
    if p.__class__ is not Ptr: raise Undecided("locale through %r" % (p,))
    k = (p.o, p.off)
    if p.o.__class__ is tuple: I.gobj(st, p.o)
    i = st.objs.get(p.o)
    if i is None: raise Violation("use-after-lifetime", "locale object used after its lifetime ended")
    if i.get("dead"): raise Violation("use-after-lifetime", "locale object used after its lifetime ended")
    v = st.models.get(k)
    if v is None: raise Undecided("unknown locale object")
    return v[1]
def held(st, ident):
    return any(v.__class__ is tuple and v[0] == "locale" and v[1] == ident for v in st.models.values())
def set_locale(st, p, ident): st.models[(p.o, p.off)] = ("locale", ident)
def facet_of(I, st, p):
    if p.__class__ is not Ptr or not (p.o.__class__ is T and p.o.op == "obj" and p.o.args[0] == "facet"): raise Undecided("facet through %r" % (p,))
    ident, el = p.o.args[1], p.o.args[2]
    if not held(st, ident):
        raise Violation("facet-lifetime", "character facet used after every locale object holding its locale was destroyed")
    return ident, el
def elem_of(fn):
    d = fn.dem
    for e in ("wchar_t", "char16_t", "char32_t", "char8_t", "char"):
        if "<" + e + ">" in d: return e
    return "char"
def cstr(I, st, p):
    """constant C string"""
    if p.__class__ is Ptr and p.o.__class__ is tuple:
        I.gobj(st, p.o)
        out = []; off = p.off
        while True:
            v = I.load(st, Ptr(p.o, off), 1, "i8")
            if v.__class__ is not int: return None
            if v == 0: return "".join(map(chr, out))
            out.append(v); off += 1
    return None
ELS = ("char", "wchar_t", "char16_t", "char32_t", "char8_t")
def install(ms, on_up=None):
    def ctor_copy(I, st, ins, fn, args):
        set_locale(st, args[0], lid(I, st, args[1])); return [(st, None)]
    def ctor_name(I, st, ins, fn, args):
        nm = cstr(I, st, args[1])
        if nm is None and args[1].__class__ is Ptr: nm = repr(args[1])
        a = st; b = st.copy()
        set_locale(a, args[0], T("named:" + str(nm)))
        out = [(a, None)]
        if I.opts.get("locale_throws"): out.append((b, Throw("_ZTISt13runtime_error", "no such locale")))
        return out
    def ctor_default(I, st, ins, fn, args):
        set_locale(st, args[0], T("global-locale")); return [(st, None)]
    def dtor(I, st, ins, fn, args):
        k = (args[0].o, args[0].off)
        if k not in st.models: raise Violation("double-destruction", "locale object destroyed twice")
        del st.models[k]; return [(st, None)]
    def assign(I, st, ins, fn, args):
        set_locale(st, args[0], lid(I, st, args[1])); return [(st, args[0])]
    def use_facet(I, st, ins, fn, args):
        ident = lid(I, st, args[0]); o = T("obj", "facet", ident, elem_of(fn))
        st.objs.setdefault(o, dict(kind="facet", size=None, name="ctype facet")); st.mem.setdefault(o, {})
        return [(st, Ptr(o, 0))]
    for c in ("C1", "C2"):
        ms["_ZNSt6locale%sERKS_" % c] = ctor_copy; ms["_ZNSt6locale%sEPKc" % c] = ctor_name; ms["_ZNSt6locale%sEv" % c] = ctor_default
        ms["_ZNSt6localeD%sEv" % c[1]] = dtor
    def ctor_str(I, st, ins, fn, args):
        set_locale(st, args[0], T("named-by-string")); return [(st, None)]
    ms["_ZNSt6localeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = ctor_str
    ms["_ZNSt6localeaSERKS_"] = assign
    ms["_ZNSt6locale7classicEv"] = classic
    ms["*"].insert(0, (lambda f: f.norm == "std::use_facet" , use_facet))
    def isup(f): return f.norm in ("std::ctype::toupper", "std::__ctype_abstract_base::toupper")
    def islow(f): return f.norm in ("std::ctype::tolower", "std::__ctype_abstract_base::tolower")
    def isis(f): return f.norm in ("std::ctype::is", "std::__ctype_abstract_base::is")
    def up(I, st, ins, fn, args):
        ident, el = facet_of(I, st, args[0])
        if len(args) > 2: raise Undecided("range form of toupper")
        return [(st, case_atom(I, st, "up", ident, args[1], width(ins.ty)))]
    def low(I, st, ins, fn, args):
        ident, el = facet_of(I, st, args[0])
        if len(args) > 2: raise Undecided("range form of tolower")
        return [(st, case_atom(I, st, "low", ident, args[1], width(ins.ty)))]
    def is_(I, st, ins, fn, args):
        ident, el = facet_of(I, st, args[0])
        if len(args) > 3: raise Undecided("range form of ctype::is")
        return [(st, I.term_bool(st, T("ctype-is", ident, args[1], chterm(args[2]))))]
    ms["*"].insert(0, (isup, up)); ms["*"].insert(0, (islow, low)); ms["*"].insert(0, (isis, is_))
    # local statics
    def guard_acquire(I, st, ins, fn, args):
        k = ("*", "guard", args[0].o)
        if st.models.get(k): return [(st, 0)]
        return [(st, 1)]
    def guard_release(I, st, ins, fn, args):
        k = ("*", "guard", args[0].o); st.models[k] = True
        I.gobj(st, args[0].o); I.put(st, args[0].o, 0, 1, 1); return [(st, None)]
    ms["__cxa_guard_acquire"] = guard_acquire; ms["__cxa_guard_release"] = guard_release; ms["__cxa_guard_abort"] = M.ret()
def classic(I, st, ins, fn, args):
    o = T("obj", "classic-locale"); st.objs.setdefault(o, dict(kind="global", size=8)); st.mem.setdefault(o, {})
    set_locale(st, Ptr(o, 0), T("classic")); return [(st, Ptr(o, 0))]
def chterm(v):
    return v if v.__class__ is T else T("ch", v)
def case_atom(I, st, kind, ident, v, w):
    """the upper/lower-cased unit; equal units have equal images"""
    if v.__class__ is T:
        return T(kind, ident, v)
    if v.__class__ is BV: raise Undecided("case of bits")
    for k in list(st.models):
        if k[0] == "*" and k[1] == kind and k[2] is ident:
            if st.num.entails_eq(lsub(k[3], v)): return atom(st.models[k])
    a = T(kind, ident, chterm(v)); st.models[("*", kind, ident, v)] = a
    st.assume_ge(ladd(atom(a), 1 << (w - 1))); st.assume_ge(lsub((1 << (w - 1)) - 1, atom(a)))
    return atom(a)
