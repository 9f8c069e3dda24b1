"""Contract models shared by all checks: allocation, exceptions, runtime."""
from .dom import *
from .interp import *

def ret(v=None):
    def h(I, st, ins, fn, args): return [(st, v)]
    return h
def m_new(I, st, ins, fn, args):
    n = args[0]
    o = st.new_obj("heap", n if n.__class__ is int else None, name="heap block")
    return [(st, Ptr(o, 0))]
def m_delete(I, st, ins, fn, args):
    p = args[0]
    if p.__class__ is Ptr and p.o is not None and p.o in st.objs:
        if st.objs[p.o].get("dead"): raise Violation("double-free", "storage released twice")
        st.objs[p.o] = dict(st.objs[p.o], dead=True)
    return [(st, None)]
def m_throw(I, st, ins, fn, args):
    ti = args[1]
    return [(st, Throw(ti.o[1] if ti.__class__ is Ptr and ti.o else None, "thrown"))]
def m_alloc_exc(I, st, ins, fn, args):
    n = args[0]
    return [(st, Ptr(st.new_obj("exc", n if n.__class__ is int else None), 0))]
def m_begin_catch(I, st, ins, fn, args):
    st.caught = st.caught + (st.exc,); st.exc = None
    return [(st, Ptr(st.new_obj("exc", None, lazy=True, name="caught"), 0))]
def m_end_catch(I, st, ins, fn, args):
    st.caught = st.caught[:-1]
    return [(st, None)]
def m_rethrow(I, st, ins, fn, args):
    return [(st, st.caught[-1] if st.caught else Throw(None, "rethrow"))]
def m_terminate(I, st, ins, fn, args):
    I.on_terminate(st, st.exc or (st.caught[-1] if st.caught else None))
    return [(st, DROP)]
def m_assert(I, st, ins, fn, args):
    return [(st, DROP)]
def m_throwfn(typ):
    def h(I, st, ins, fn, args): return [(st, Throw(typ, fn.dem))]
    return h
def m_memcmp(I, st, ins, fn, args): raise Undecided("memcmp")

def base():
    m = {
        "_Znwm": m_new, "_Znam": m_new, "_ZdlPv": m_delete, "_ZdlPvm": m_delete, "_ZdaPv": m_delete, "_ZdaPvm": m_delete,
        "__cxa_throw": m_throw, "__cxa_allocate_exception": m_alloc_exc, "__cxa_free_exception": ret(),
        "__cxa_begin_catch": m_begin_catch, "__cxa_end_catch": m_end_catch, "__cxa_rethrow": m_rethrow,
        "_ZSt9terminatev": m_terminate, "__clang_call_terminate": m_terminate, "__cxa_call_unexpected": m_terminate, "__cxa_call_terminate": m_terminate,
        "__assert_fail": m_assert, "abort": m_assert, "__cxa_pure_virtual": m_assert,
        "_ZSt20__throw_length_errorPKc": m_throwfn("_ZTISt12length_error"),
        "_ZSt17__throw_bad_allocv": m_throwfn("_ZTISt9bad_alloc"),
        "_ZSt28__throw_bad_array_new_lengthv": m_throwfn("_ZTISt9bad_alloc"),
        "_ZSt25__throw_bad_function_callv": m_throwfn("_ZTISt17bad_function_call"),
        "_ZSt20__throw_out_of_rangePKc": m_throwfn("_ZTISt12out_of_range"),
        "_ZSt24__throw_out_of_range_fmtPKcz": m_throwfn("_ZTISt12out_of_range"),
        "_ZSt19__throw_logic_errorPKc": m_throwfn("_ZTISt11logic_error"),
        "_ZSt20__throw_system_errori": m_throwfn("_ZTISt12system_error"),
        "_ZSt16__throw_bad_castv": m_throwfn("_ZTISt8bad_cast"),
        "__cxa_atexit": ret(0), "_ZN9__gnu_cxx21__is_single_threadedEv": ret(1), "_ZL18__gthread_active_pv": ret(1), "*": [],
    }
    return m
