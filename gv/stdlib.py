"""Trusted contracts of library functions outside /repo (C++ runtime and standard library)."""
from .engine import *
from .logic import *
from . import strings

def c_terminate(E, st, a, i, where):
    yield ('stop', st, 'terminate')

def c_throw_std(tinfo):
    def h(E, st, a, i, where):
        yield ('unwind', st, Exc(tinfo))
    return h

def c_cxa_throw(E, st, a, i, where):
    t = i.x['args'][1][1]
    yield ('unwind', st, Exc(t[1] if t[0] == 'glob' else '?'))

def c_alloc_exc(E, st, a, i, where):
    oid = E.new_obj(st, 'excobj', E.z64(a[0]), 'heap')
    yield ('ret', st, Ptr(oid, bv(0)))

def c_nop(E, st, a, i, where):
    yield ('ret', st, None)

def c_begin_catch(E, st, a, i, where):
    yield ('ret', st, a[0])

def c_rethrow(E, st, a, i, where):
    yield ('unwind', st, st.exc)

THROWS = {
    r'std::__throw_out_of_range(_fmt)?\(.*': '_ZTISt12out_of_range',
    r'std::__throw_length_error\(.*': '_ZTISt12length_error',
    r'std::__throw_bad_alloc\(.*': '_ZTISt9bad_alloc',
    r'std::__throw_bad_array_new_length\(.*': '_ZTISt20bad_array_new_length',
    r'std::__throw_logic_error\(.*': '_ZTISt11logic_error',
    r'std::__throw_invalid_argument\(.*': '_ZTISt16invalid_argument',
    r'std::__throw_bad_function_call\(.*': '_ZTISt17bad_function_call',
}

CONTRACTS = [
    (r'std::terminate\(\)|__clang_call_terminate|abort|__assert_fail|std::__glibcxx_assert_fail.*|__cxa_call_unexpected', c_terminate),
    (r'__cxa_throw', c_cxa_throw),
    (r'__cxa_allocate_exception', c_alloc_exc),
    (r'__cxa_free_exception|__cxa_end_catch', c_nop),
    (r'__cxa_begin_catch', c_begin_catch),
    (r'__cxa_rethrow', c_rethrow),
    (r'std::(out_of_range|length_error|invalid_argument|logic_error|runtime_error|domain_error|overflow_error|bad_alloc|exception)::(~?)\w+\(.*', c_nop),
] + [(k, c_throw_std(v)) for k, v in THROWS.items()] + strings.CONTRACTS
