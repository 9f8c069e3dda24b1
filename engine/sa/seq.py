"""Input sequences: arrays of unknown length whose elements are only named by position."""
from .dom import *
from .interp import *

ES = 4
def elem(I, st, o, idx, ty, info):
    return T("elem", o, idx)
def mkarray(st, name, n=None, es=ES, handler=elem, nul=0, maxlen=1 << 40, **kw):
    if n is None:
        n = atom(T("len", name))
        st.assume_ge(n); st.assume_ge(lsub(maxlen, n))
    o = T("obj", "array", name)
    st.objs[o] = dict(kind="array", es=es, len=n, elem=handler, nul=nul, name=name, size=None, **kw); st.mem[o] = {}
    return o, n
def mkview(st, arr, n, es=ES):
    v = st.new_obj("input", 16, name="container")
    st.mem[v] = {0: (8, Ptr(arr, 0)), 8: (8, Ptr(arr, lscale(n, es)))}
    return Ptr(v, 0)
def index(I, st, p, es=ES):
    """position of an element pointer: (array, index) after a bounds check, or None"""
    if p.__class__ is Ptr and p.o in st.objs and st.objs[p.o].get("kind") == "array":
        i = I.div_exact(p.off, es)
        if i is None: raise Undecided("misaligned element pointer")
        I.bounds(st, i, st.objs[p.o]["len"], st.objs[p.o], "use")
        return p.o, i
    return None
def three_way(st, a, b):
    """states for a<b, a==b, a>b (as -1,0,1)"""
    out = []
    d = lsub(a, b)
    for k, f in ((-1, lambda s: s.assume_ge(ladd(lscale(d, -1), -1))), (0, lambda s: s.assume_eq(d)), (1, lambda s: s.assume_ge(ladd(d, -1)))):
        s = st.copy()
        if f(s): out.append((s, k))
    return out
def bounds_violation(): pass
