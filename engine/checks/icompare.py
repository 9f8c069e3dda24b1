from sa.dom import *
from sa.interp import *
from sa import models, ir, loc
from sa.check import Check
from checks.order import target

OPS = {"is_iequal": (0, lambda r: r == 0), "is_not_iequal": (1, lambda r: r != 0), "is_iless": (2, lambda r: r < 0), "is_igreater": (3, lambda r: r > 0),
       "is_iless_equal": (4, lambda r: r <= 0), "is_igreater_equal": (5, lambda r: r >= 0)}

def fnof(mod, name, el):
    for f in mod.funcs.values():
        if f.norm == "pluto::%s::operator()" % name and "<%s>" % el in f.dem: return dict(file=f.file, line=f.line, function=f.dem)
    return {}

def check():
    c = Check("C22", "abstract interpretation of every comparator over linear relations between the two characters and their upper-cased images, with locale-holder lifetimes; the answer must be right for each relation of the images that the path leaves possible")
    for cfg in ir.buildable("icompare.cpp", [dict(defs=()), dict(defs=("PLUTO_LOCALE_NO_STATIC=1",))], c):
        defs = cfg["defs"]
        mod = ir.compile_module("icompare.cpp", defs=defs)
        for name, (op, spec) in OPS.items():
            for el, w in (("char", 8), ("wchar_t", 32)):
                for form in ("given", "default", "copy"):
                    entry = "%s_%s_%s" % (name, el, form)
                    fn = mod.entry(entry)
                    ms = models.base(); loc.install(ms)
                    seen = []
                    def gone(I, st, ins, f, args):
                        k = (args[0].o, args[0].off); st.models.pop(k, None)
                        st.objs[args[0].o] = dict(st.objs[args[0].o], dead=True); return [(st, None)]
                    ms["locale_gone"] = gone
                    ident = T("given-locale") if form != "default" else T("named:en_US.UTF-8")
                    where = fnof(mod, name, el)
                    def obs(I, st, ins, f, args):
                        v = args[1]; seen.append(1)
                        a = atom(T("left")); b = atom(T("right"))
                        s = st
                        ups = [(k[3], atom(x)) for k, x in s.models.items() if k[0] == "*" and k[1] == "up" and k[2] is ident]
                        for i, (x, u) in enumerate(ups):
                            for y, u2 in ups[:i]:
                                # equal characters have equal images: otherwise the path cannot happen
                                if s.num.entails_eq(lsub(x, y)) and not s.assume_eq(lsub(u, u2)): return [(st, DROP)]
                        ua = loc.case_atom(I, s, "up", ident, a, w); ub = loc.case_atom(I, s, "up", ident, b, w)
                        for k in s.models:
                            if k[0] == "*" and k[1] in ("up", "low") and (k[1] == "low" or k[2] is not ident):
                                c.ob("locale:" + name, False, "%s upper-cases with %s instead of the locale it was built with" % (name, k[2]), **where); return [(st, DROP)]
                        vb = I.truth(s, v)
                        for r in (-1, 0, 1):
                            q = s.copy(); d = lsub(ua, ub)
                            okr = q.assume_eq(d) if r == 0 else q.assume_ge(ladd(d, -1)) if r > 0 else q.assume_ge(ladd(lscale(d, -1), -1))
                            if not okr: continue
                            c.ob("relation:" + name, vb == int(spec(r)), "%s gives %s although upper(left) %s upper(right)%s" % (
                                name, bool(vb), "<=>"[r + 1].replace("=", "=="), "" if form == "given" else " (%s)" % form), **where)
                        return [(st, None)]
                    ms["observe"] = obs
                    I = Interp(mod, ms); st = State()
                    l = st.new_obj("input", 8, name="the caller's locale"); loc.set_locale(st, Ptr(l, 0), T("given-locale"))
                    a = atom(T("left")); b = atom(T("right"))
                    for x in (a, b):
                        st.assume_ge(ladd(x, 1 << (w - 1))); st.assume_ge(lsub((1 << (w - 1)) - 1, x))
                    I.run(fn, ([Ptr(l, 0)] if form != "default" else []) + [a, b], st)
                    c.absorb(I, "comparator:" + entry)
                    if not seen and not I.violations: c.ob("comparator:" + entry, None, "no result observed")
        for e in ("bool", "int", "ptr", "cls"):
            for k in ("true", "false"):
                fn = mod.entry("%s_%s" % (k, e))
                ms = models.base()
                ms["cls::operator bool"] = lambda I, st, ins, f, args: [(st, I.term_bool(st, T("cls-true")))]
                I = Interp(mod, ms); st = State()
                if e == "int":
                    x = atom(T("v")); st.assume_ge(ladd(x, 1 << 31)); st.assume_ge(lsub((1 << 31) - 1, x)); ins_ = [(st, x)]
                elif e == "bool": ins_ = [(st, 0), (st.copy(), 1)]
                else:
                    o = st.new_obj("input", 4); s2 = st.copy(); ins_ = [(st, Ptr(o, 0))] + ([(s2, NULL)] if e == "ptr" else [])
                for s, x in ins_:
                    for kind, q, v in I.run(fn, [x], s):
                        if e == "int": t = None if q.num.entails_eq(x) and False else (0 if q.num.entails_eq(x) else 1 if not q.num.add_eq(x) else None)
                        elif e == "bool": t = x
                        elif e == "ptr": t = int(x.o is not None)
                        else: t = q.tf.get(T("cls-true"))
                        c.ob("truth:is_" + k, None if t is None else v.__class__ is int and (v & 1) == (t if k == "true" else 1 - t), "is_%s(%s) gives %r for a %s value" % (k, e, v, "true" if t else "false"), **target(mod, fn))
                c.absorb(I, "truth:is_" + k)
    c.require("comparator results", len(c.obs), 200 if not c.viol and not c.und else 1)
    c.assumptions = ["std::ctype<C>::toupper is a function of the character", "a facet lives exactly as long as some std::locale object with its locale (C++ standard)"]
    return c
