"""Summaries of library functions (core, alloc, std, num_traits, chrono) used by the value numbering.

Each summary states what the function returns for its arguments and what it requires (index bounds,
non-empty options, ...); a requirement that is not implied by the path condition becomes an obligation of the
caller. Everything that has no summary and no body is an uninterpreted pure function of its arguments.
"""
import re
import math
from bdd import T, F
from interp import State, Unsupported
from term import INF, Node
from dsl import Shape

WS_ASCII = frozenset([9, 10, 12, 13, 32])             # u8::is_ascii_whitespace
DIGITS = frozenset(range(48, 58))

EXACT = {}
PATTERNS = []


def native(*paths):
    def deco(f):
        for p in paths:
            EXACT[p] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


def lookup(inst):
    h = EXACT.get(inst['path'])
    if h is not None:
        return h
    for rx, f in PATTERNS:
        if rx.search(inst['path']):
            return f
    return None


def some(W, v):
    return W.mk('agg', 1, v)


def none(W):
    return W.mk('agg', 0)


def ok(W, v):
    return W.mk('agg', 0, v)


def err(W, v):
    return W.mk('agg', 1, v)


def tmp_ptr(I, st, v):
    I.nframe += 1
    cell = ('tmp', I.nframe)
    st.store[cell] = v
    return I.W.mk('ptr', cell, ())


# ------------------------------------------------------------------ floats
F1 = {'sin': 'fsin', 'cos': 'fcos', 'tan': 'ftan', 'asin': 'fasin', 'acos': 'facos', 'atan': 'fatan', 'sqrt': 'fsqrt',
      'cbrt': 'fcbrt', 'floor': 'ffloor', 'ceil': 'fceil', 'round': 'fround', 'trunc': 'ftrunc', 'fract': 'ffract',
      'abs': 'fabs', 'signum': 'fsignum', 'exp': 'fexp', 'ln': 'fln', 'exp2': 'fexp2', 'log10': 'flog10', 'log2': 'flog2',
      'sinh': 'fsinh', 'cosh': 'fcosh', 'tanh': 'ftanh', 'round_ties_even': 'frne', 'recip': None, 'to_radians': None, 'to_degrees': None,
      'exp_m1': 'fexpm1', 'ln_1p': 'fln1p'}
F2 = {'atan2': 'fatan2', 'powf': 'fpow', 'rem_euclid': 'fmodp', 'div_euclid': 'fdive', 'max': 'fmax', 'min': 'fmin', 'hypot': None,
      'copysign': 'fcopysign', 'pow': 'fpow', 'maximum': 'fmaximum', 'minimum': 'fminimum', 'abs_sub': None}


def float_method(I, st, inst, args, at, dty, loc):
    W = I.W
    m = inst['item']
    args = [I.load(st, a) if a.op == 'ptr' else a for a in args]
    if any(a is W.UNDEF for a in args):
        return W.UNDEF
    b = I.b
    if m == 'powi':
        return I.fl('fpowi', args[0], args[1])
    if m == 'pow' and I.tk(at[1])['k'] == 'int':
        return I.fl('fpowi', args[0], args[1])
    if m == 'recip':
        return I.fl('fdiv', I.fconst(1.0), args[0])
    if m == 'to_radians':
        return I.fl('fmul', args[0], I.fl('fdiv', I.fconst(math.pi), I.fconst(180.0)))
    if m == 'to_degrees':
        return I.fl('fmul', args[0], I.fl('fdiv', I.fconst(180.0), I.fconst(math.pi)))
    if m in ('mul_add',):
        return I.fl('fadd', I.fl('fmul', args[0], args[1]), args[2])
    if m == 'hypot':
        return I.fl('fsqrt', I.fl('fadd', I.fl('fmul', args[0], args[0]), I.fl('fmul', args[1], args[1])))
    if m == 'sin_cos':
        return W.mk('agg', None, I.fl('fsin', args[0]), I.fl('fcos', args[0]))
    if m in ('min', 'max') and len(args) == 2:
        # max then min (or the reverse) with constant bounds is clamping
        for x, k in ((args[0], args[1]), (args[1], args[0])):
            kv = I.fconstval(k)
            if kv is None or x.op != ('fmax' if m == 'min' else 'fmin'):
                continue
            for y, j in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                jv = I.fconstval(j)
                if jv is not None and I.fconstval(y) is None and (jv <= kv if m == 'min' else kv <= jv):
                    return I.fl('fclamp', y, *((j, k) if m == 'min' else (k, j)))
    if m == 'clamp':
        lo, hi = I.fconstval(args[1]), I.fconstval(args[2])
        if lo is None or hi is None or not lo <= hi:
            I.panic(st, 'clamp-bounds', loc, [], b.NOT(I.fcmp('Le', args[1], args[2])))
            st.pc = b.AND(st.pc, I.fcmp('Le', args[1], args[2]))
        return I.fl('fclamp', *args)
    if m == 'is_nan':
        return W.B(b.NOT(I.fcmp('Eq', args[0], args[0])))
    if m == 'is_finite':
        return W.B(W.atom(W.mk('finite', args[0])))
    if m == 'is_infinite':
        return W.B(W.atom(W.mk('infinite', args[0])))
    if m == 'is_sign_positive':
        return W.B(W.atom(W.mk('signpos', args[0])))
    if m == 'is_sign_negative':
        return W.B(b.NOT(W.atom(W.mk('signpos', args[0]))))
    if m == 'powu':
        return I.fl('fpowi', args[0], args[1])
    if m in ('to_bits',):
        return W.mk('bits', args[0], rng=I.int_range(dty), ty='int')
    if m in ('total_cmp',):
        return I.mat(dty, W.mk('ftotalcmp', *args))
    if F1.get(m):
        return I.fl(F1[m], args[0])
    if F2.get(m):
        return I.fl(F2[m], *args)
    return I.external(st, inst, args, at, dty, loc)


FLOAT_METHODS = set(F1) | set(F2) | {'powi', 'mul_add', 'sin_cos', 'clamp', 'is_nan', 'is_finite', 'is_infinite', 'is_sign_positive', 'is_sign_negative', 'total_cmp'}


def float_path(inst):
    p, m = inst['path'], inst['item']
    if m not in FLOAT_METHODS:
        return None
    if re.search(r'<impl f64>::', p) or p.startswith('std::f64::') or p.startswith('core::f64::'):
        return float_method
    if inst['crate'] in ('num_traits', 'libm') or 'num_traits' in p:
        n = inst['name']
        if 'f64' in n or 'f64' in str(inst.get('targs')) or p.startswith('libm'):
            return float_method
    return None


@pattern(r'^(std|core)::intrinsics::(fabs|maximum_number_nsz_f64|minimum_number_nsz_f64|floorf64|ceilf64|truncf64|roundf64|sqrtf64|sinf64|cosf64|powif64|powf64)$')
def intr_float(I, st, inst, args, at, dty, loc):
    m = inst['item']
    mp = {'fabs': 'fabs', 'maximum_number_nsz_f64': 'fmax', 'minimum_number_nsz_f64': 'fmin', 'floorf64': 'ffloor', 'ceilf64': 'fceil', 'truncf64': 'ftrunc', 'roundf64': 'fround', 'sqrtf64': 'fsqrt', 'sinf64': 'fsin', 'cosf64': 'fcos', 'powif64': 'fpowi', 'powf64': 'fpow'}
    return I.fl(mp[m], *args)


# ------------------------------------------------------------------ compiler intrinsics without effect
@pattern(r'::intrinsics::(cold_path|assert_inhabited|assert_zero_valid|assert_mem_uninitialized_valid)$|::precondition_check$|^core::ub_checks::')
def noop(I, st, inst, args, at, dty, loc):
    return I.W.UNIT


@pattern(r'^(std|core)::hint::assert_unchecked$')
def assert_unchecked(I, st, inst, args, at, dty, loc):
    if I.stack and I.P.insts[I.stack[-1]]['crate'] == 'sgp4':
        require(I, st, I.W.cond(args[0]), 'unchecked-assumption', loc)
    return I.W.UNIT


@pattern(r'^(std|core)::(hint|intrinsics)::(unreachable_unchecked|unreachable)$')
def unreachable_unchecked(I, st, inst, args, at, dty, loc):
    paths = [I.P.insts[i]['path'] for i in I.stack[-3:]]
    if I.P.insts[I.stack[-1]]['crate'] == 'sgp4' or any(p.endswith('unwrap_unchecked') for p in paths):
        I.panic(st, 'unchecked-unreachable', loc, [], T)
    st.pc = F
    return None


@pattern(r'intrinsics::(likely|unlikely)$|hint::black_box$|hint::must_use$|intrinsics::black_box$')
def ident(I, st, inst, args, at, dty, loc):
    return args[0]


@pattern(r'intrinsics::is_val_statically_known$')
def false_(I, st, inst, args, at, dty, loc):
    return I.W.FALSE


@pattern(r'intrinsics::discriminant_value$|mem::discriminant$')
def discriminant(I, st, inst, args, at, dty, loc):
    v = I.load(st, args[0])
    d = I.discr(v, I.tk(at[0])['e'])
    if inst['item'] == 'discriminant':
        return I.W.mk('agg', None, d)
    return d


@native('std::mem::replace', 'core::mem::replace')
def mem_replace(I, st, inst, args, at, dty, loc):
    v = I.load(st, args[0])
    I.storep(st, args[0], args[1])
    return v


@native('std::mem::swap', 'core::mem::swap')
def mem_swap(I, st, inst, args, at, dty, loc):
    x, y = I.load(st, args[0]), I.load(st, args[1])
    I.storep(st, args[0], y)
    I.storep(st, args[1], x)
    return I.W.UNIT


@native('std::mem::drop', 'std::mem::forget', 'core::mem::drop')
def mem_drop(I, st, inst, args, at, dty, loc):
    return I.W.UNIT


@native('std::mem::take', 'core::mem::take')
def mem_take(I, st, inst, args, at, dty, loc):
    v = I.load(st, args[0])
    d = I.tk(dty)
    if 'option::Option' in d.get('path', ''):
        I.storep(st, args[0], none(I.W))
        return v
    if d.get('path', '').endswith('Vec'):
        I.storep(st, args[0], I.W.mk('vec'))
        return v
    raise Unsupported('mem::take')


# ------------------------------------------------------------------ panics
@pattern(r'panicking::|::panic_fmt$|panic_nounwind|option::(expect_failed|unwrap_failed)|result::unwrap_failed|slice_index_fail|len_mismatch_fail|handle_error$|from_ascii_bytes_radix_panic|do_panic|panic_bounds_check|alloc_error|capacity_overflow')
def panic_call(I, st, inst, args, at, dty, loc):
    msg = []
    for a in args[:1]:
        try:
            msg = [text_of(I, st, a)]
        except Exception:
            msg = []
    I.panic(st, 'panic', loc, msg, T)
    st.pc = F
    return None


@native('std::process::abort', 'std::process::exit', 'core::intrinsics::abort')
def abort_call(I, st, inst, args, at, dty, loc):
    I.panic(st, 'abort', loc, [], T)
    st.pc = F
    return None


# ------------------------------------------------------------------ slices
def require(I, st, cond, kind, loc, detail=()):
    """Obligation: cond must hold here; afterwards it is assumed."""
    b = I.b
    I.stats['asserts'] += 1
    if b.AND(st.pc, b.NOT(cond)) != F:
        I.panic(st, kind, loc, list(detail), b.NOT(cond))
        st.pc = b.AND(st.pc, cond)
    return st.pc != F


def le(I, st, a, c):
    return I.ge0(st, I.W.add(c, a, -1))


def as_slice(I, st, v, t=None):
    """Slice value of a reference to slice, array, Vec or String."""
    W = I.W
    if v.op == 'ite':
        return W.ite(v.args[0], as_slice(I, st, v.args[1]), as_slice(I, st, v.args[2]))
    if v.op == 'slice':
        return v
    if v.op == 'ptr':
        x = I.load(st, v)
        if x.op == 'vec':
            return W.mk('slice', v, W.I(0), W.I(len(x.args)))
        if x.op == 'agg':
            return W.mk('slice', v, W.I(0), W.I(len(x.args) - 1))
        if x.op == 'slice':
            return x
        if x.op == 'ite':
            def g(y):
                if y.op == 'ite':
                    return W.ite(y.args[0], g(y.args[1]), g(y.args[2]))
                return W.I(len(y.args) - (1 if y.op == 'agg' else 0)) if y.op in ('vec', 'agg') else W.mk('len', y, rng=(0, 1 << 62), ty='int')
            return W.mk('slice', v, W.I(0), g(x))
        return W.mk('slice', v, W.I(0), W.mk('len', x, rng=(0, 1 << 62), ty='int'))
    return v


def range_bounds(I, st, r, rty, ln):
    """(start, end) nodes of a range index value over a slice of length ln."""
    W = I.W
    p = I.tk(rty)['path'].split('::')[-1] if I.tk(rty)['k'] == 'adt' else 'usize'
    if p == 'Range':
        return r.args[1], r.args[2]
    if p == 'RangeTo':
        return W.I(0), r.args[1]
    if p == 'RangeFrom':
        return r.args[1], ln
    if p == 'RangeFull':
        return W.I(0), ln
    if p == 'RangeInclusive':
        return r.args[1], W.add(r.args[2], W.I(1))
    if p == 'RangeToInclusive':
        return W.I(0), W.add(r.args[1], W.I(1))
    raise Unsupported('index by ' + p)


def sub_slice(I, s, a, z):
    W = I.W
    if s.op == 'ite':
        return W.ite(s.args[0], sub_slice(I, s.args[1], a, z), sub_slice(I, s.args[2], a, z))
    return W.mk('slice', s.args[0], W.add(s.args[1], a), W.add(s.args[1], z))


@pattern(r'as std::slice::SliceIndex<\[T\]>>::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut)$|traits::<impl std::slice::SliceIndex<str> for .*>::(index|index_mut|get|get_mut|get_unchecked)$')
def slice_index(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    r, s = args
    m = inst['item']
    s = as_slice(I, st, s)
    ln = I.slice_len(s)
    isstr = 'SliceIndex<str>' in inst['path']
    if I.tk(at[0])['k'] == 'int':
        okc = b.NOT(I.ge0(st, W.add(r, ln, -1)))
        p = I.pmap(s, lambda q: I.index_ptr(st, q, r))
    else:
        a, z = range_bounds(I, st, r, at[0], ln)
        okc = b.AND(le(I, st, a, z), le(I, st, z, ln))
        p = sub_slice(I, s, a, z)
        if isstr:
            okc = b.AND(okc, b.AND(char_boundary(I, st, s, a, ln), char_boundary(I, st, s, z, ln)))
    if m.startswith('get_unchecked'):
        require(I, st, okc, 'unchecked-index', loc)
        return p
    if m.startswith('get'):
        return W.ite(okc, some(W, p), none(W))
    if not require(I, st, okc, 'index-out-of-bounds', loc):
        return None
    return p


def char_boundary(I, st, s, i, ln):
    W, b = I.W, I.b
    if i.op == 'i' and i.args[0] == 0:
        return T
    if i is ln:
        return T
    try:
        by = I.slice_elem(st, s, i)
        sb = W.single_byte(by)
        if sb:
            nb = W.inset(sb[0], [v for v in range(256) if not 128 <= sb[1][v] < 192])
            return b.OR(nb, I.eq0(st, W.add(i, ln, -1)))
        if by.op == 'i':
            return T if not 128 <= by.args[0] < 192 else F
    except Unsupported:
        pass
    return W.atom(W.mk('charboundary', s, i))


@pattern(r'::<impl str>::is_char_boundary$')
def is_char_boundary(I, st, inst, args, at, dty, loc):
    s = as_slice(I, st, args[0])
    return I.W.B(char_boundary(I, st, s, args[1], I.slice_len(s)))


@pattern(r'::slice::<impl \[T\]>::(get|get_mut|get_unchecked|get_unchecked_mut)$|::str::<impl str>::(get|get_mut|get_unchecked|get_unchecked_mut)$')
def slice_get(I, st, inst, args, at, dty, loc):
    return slice_index(I, st, dict(inst, path=inst['path'] + (' SliceIndex<str>' if '<impl str>' in inst['path'] else '')), [args[1], args[0]], [at[1], at[0]], dty, loc)


@pattern(r'::slice::<impl \[T\]>::len$|^std::vec::Vec::<T, A>::len$|::str::<impl str>::len$|^std::string::String::len$')
def slice_len(I, st, inst, args, at, dty, loc):
    return I.slice_len(as_slice(I, st, args[0]))


@pattern(r'::slice::<impl \[T\]>::is_empty$|^std::vec::Vec::<T, A>::is_empty$|::str::<impl str>::is_empty$|^std::string::String::is_empty$')
def slice_is_empty(I, st, inst, args, at, dty, loc):
    return I.W.B(I.eq0(st, I.slice_len(as_slice(I, st, args[0]))))


@pattern(r'::slice::<impl \[T\]>::(first|last|split_first|split_last)$')
def slice_ends(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    ln = I.slice_len(s)
    e = I.eq0(st, ln)
    one = W.I(1)
    m = inst['item']
    idx = W.I(0) if m in ('first', 'split_first') else W.add(ln, one, -1)
    p = I.pmap(s, lambda q: I.index_ptr(st, q, idx))
    if m.startswith('split'):
        rest = sub_slice(I, s, one, ln) if m == 'split_first' else sub_slice(I, s, W.I(0), W.add(ln, one, -1))
        p = W.mk('agg', None, p, rest)
    return W.ite(e, none(W), some(W, p))


@pattern(r'::slice::<impl \[T\]>::split_at$|::str::<impl str>::split_at$')
def slice_split_at(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    ln = I.slice_len(s)
    c = le(I, st, args[1], ln)
    if '<impl str>' in inst['path']:
        c = I.b.AND(c, char_boundary(I, st, s, args[1], ln))
    if not require(I, st, c, 'index-out-of-bounds', loc):
        return None
    return W.mk('agg', None, sub_slice(I, s, W.I(0), args[1]), sub_slice(I, s, args[1], ln))


@pattern(r'::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$|copy_from_slice_impl$')
def copy_from_slice(I, st, inst, args, at, dty, loc):
    W = I.W
    d, s = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    dl, sl = I.slice_len(d), I.slice_len(s)
    if not require(I, st, I.eq0(st, W.add(dl, sl, -1)), 'copy-length-mismatch', loc):
        return None
    if d.op != 'slice':
        raise Unsupported('copy into conditional slice')
    base = d.args[0]
    arr = I.load(st, base)
    if arr.op not in ('agg', 'vec'):
        raise Unsupported('copy into opaque buffer')
    off = 1 if arr.op == 'agg' else 0
    xs = list(arr.args[off:])
    combos = []
    for c1, v1 in lin_leaves(I, st, d.args[1]):
        for c2, v2 in lin_leaves(I, State(c1, None), sl):
            o, n = conc(I, c2, v1), conc(I, c2, v2)
            if o is None or n is None:
                raise Unsupported(f'copy with unknown bounds {I.W.restrict(d,c2)} {sl} {v1} {v2}')
            combos.append((c2, o, n))
    new = list(xs)
    for c, o, n in combos:
        # source start is evaluated under the combination
        ss = W.restrict(s, c)
        for j in range(n):
            v = W.restrict(I.slice_elem(st, ss, W.I(j)), c)
            if 0 <= o + j < len(new):
                new[o + j] = v if len(combos) == 1 else W.ite(I.b.restrict(c, st.pc), v, new[o + j])
    nv = W.mk('agg', arr.args[0], *new) if off else W.mk('vec', *new)
    I.storep(st, base, nv)
    return W.UNIT


@pattern(r'::slice::<impl \[T\]>::fill$')
def slice_fill(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    for i in range(const_len(I, s)):
        I.storep(st, I.index_ptr(st, s, W.I(i)), args[1])
    return W.UNIT


@pattern(r'::slice::<impl \[T\]>::(to_vec|to_owned|into_vec)$|<impl std::borrow::ToOwned for \[T\]>::to_owned$')
def slice_to_vec(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    n = const_len(I, s)
    return W.mk('vec', *[I.slice_elem(st, s, W.I(i)) for i in range(n)])


def const_len(I, s):
    ln = I.slice_len(s)
    if ln.op != 'i':
        raise Unsupported('slice of unknown length')
    return ln.args[0]


def elems_equal(I, st, a, c):
    """Condition that two byte-like slices are equal."""
    W, b = I.W, I.b
    la, lc = I.slice_len(a), I.slice_len(c)
    r = I.eq0(st, W.add(la, lc, -1))
    if r == F:
        return F
    n = la if la.op == 'i' else lc
    if n.op != 'i':
        return W.atom(W.mk('seq', *sorted((I.content(st, a), I.content(st, c)), key=lambda x: x.id)))
    s2 = State(b.AND(st.pc, r), st.store)
    for i in range(n.args[0]):
        x, y = I.slice_elem(st, a, W.I(i)), I.slice_elem(st, c, W.I(i))
        if I.is_int(x) and I.is_int(y):
            r = b.AND(r, I.eq0(s2, W.add(x, y, -1)))
        else:
            r = b.AND(r, T if x is y else W.atom(W.mk('eq', *sorted((x, y), key=lambda q: q.id))))
    return r


@pattern(r'slice::cmp::<impl std::cmp::PartialEq.* for \[.*\]>::(eq|ne)$|str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|SlicePartialEq<B>>::(equal|not_equal|equal_same_length)$|array::equality::<impl std::cmp::PartialEq.*::(eq|ne)$|SpecArrayEq')
def slice_eq(I, st, inst, args, at, dty, loc):
    a, c = args[0], args[1]
    a = as_slice(I, st, deref_slice(I, st, a, at[0]))
    c = as_slice(I, st, deref_slice(I, st, c, at[1]))
    r = elems_equal(I, st, a, c)
    return I.W.B(I.b.NOT(r) if inst['item'] in ('ne', 'not_equal') else r)


def deref_slice(I, st, v, t):
    d = I.tk(t)
    if d['k'] == 'ref' and I.tk(d['e'])['k'] == 'ref':
        return I.load(st, v)
    return v


@pattern(r'::slice::<impl \[T\]>::(starts_with|ends_with)$')
def slice_starts(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    s, p = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    ls, lp = I.slice_len(s), I.slice_len(p)
    c = le(I, st, lp, ls)
    if c == F:
        return W.FALSE
    sub = sub_slice(I, s, W.I(0), lp) if inst['item'] == 'starts_with' else sub_slice(I, s, W.add(ls, lp, -1), ls)
    return W.B(b.AND(c, elems_equal(I, State(b.AND(st.pc, c), st.store), sub, p)))


@pattern(r'::slice::<impl \[T\]>::contains$|SliceContains>::slice_contains$')
def slice_contains(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    x, s = args
    if '<impl [T]>' in inst['path']:
        s, x = args
    s = as_slice(I, st, s)
    v = I.load(st, x)
    n = const_len(I, s)
    r = F
    for i in range(n):
        e = I.slice_elem(st, s, W.I(i))
        if I.is_int(e) and I.is_int(v):
            r = b.OR(r, I.eq0(st, W.add(e, v, -1)))
        else:
            raise Unsupported('contains')
    return W.B(r)


# ------------------------------------------------------------------ trimming
def trim(I, st, s, pred, start, end):
    """Advance start / retreat end while the byte satisfies pred (set of byte values)."""
    W, b = I.W, I.b
    if s.op == 'ite':
        return W.ite(s.args[0], trim(I, st, s.args[1], pred, start, end), trim(I, st, s.args[2], pred, start, end))
    outs = []
    for c, a, z in free_bounds(I, st, s):
        rs = []
        if z - a > 400:
            raise Unsupported('trim of long slice')
        cond = T
        pos = a
        starts = []
        while start and pos < z and cond != F:
            w = isin(I, st, s, pos, pred)
            starts.append((b.AND(cond, b.NOT(w)), pos))
            cond = b.AND(cond, w)
            pos += 1
        if start:
            if cond != F:
                starts.append((cond, z))
        else:
            starts = [(T, a)]
        for c1, p in starts:
            if c1 == F:
                continue
            cond = c1
            q = z
            while end and q > p and cond != F:
                w = isin(I, st, s, q - 1, pred)
                e = b.AND(cond, b.NOT(w))
                if e != F:
                    rs.append((e, p, q))
                cond = b.AND(cond, w)
                q -= 1
            if cond != F:
                rs.append((cond, p, q))
        outs += [(b.AND(c, x), p, q) for x, p, q in rs if b.AND(c, x) != F]
    S = W.select([(c, W.I(p)) for c, p, q in outs])
    E = W.select([(c, W.I(q)) for c, p, q in outs])
    return W.mk('slice', s.args[0], S, E)


def isin(I, st, s, pos, pred):
    W = I.W
    v = I.load(st, I.pmap(s.args[0], lambda bq: W.mk('ptr', bq.args[0], bq.args[1] + (('x', W.I(pos)),))))
    sb = W.single_byte(v)
    if sb:
        return W.inset(sb[0], [x for x in range(256) if sb[1][x] in pred])
    if v.op == 'i':
        return T if v.args[0] in pred else F
    r = F
    if v.op == 'ite':
        for c, l in W.leaves(v):
            sb = W.single_byte(l)
            k = W.inset(sb[0], [x for x in range(256) if sb[1][x] in pred]) if sb else (T if l.op == 'i' and l.args[0] in pred else F)
            r = I.b.OR(r, I.b.AND(c, k))
        return r
    for p in pred:
        r = I.b.OR(r, I.eq0(st, W.add(v, W.I(p), -1)))
    return r


def bounds(I, st, s):
    """[(cond, start, end)] with constant bounds, under the path condition."""
    W, b = I.W, I.b
    out = []
    for c1, v1 in lin_leaves(I, st, s.args[1]):
        for c, v2 in lin_leaves(I, State(c1, None), s.args[2]):
            v1c, v2c = conc(I, c, v1), conc(I, c, v2)
            if v1c is None or v2c is None:
                raise Unsupported('slice with unknown bounds')
            out.append((c, v1c, v2c))
    return out


def free_bounds(I, st, s):
    """bounds with conditions that do not repeat the path condition."""
    try:
        bs = bounds(I, State(T, st.store), s)
        if len(bs) > 50:
            raise Unsupported('too many cases')
    except Unsupported:
        return bounds(I, st, s)
    return [x for x in bs if I.b.AND(st.pc, x[0]) != F]


def conc(I, c, v):
    if v.op == 'i':
        return v.args[0]
    lo, hi = I.rng(State(c, None), v)
    return lo if lo == hi else None


def lin_leaves(I, st, v):
    return I.W.int_cases(v, st.pc) or [(st.pc, v)]


@pattern(r'<impl \[u8\]>::(trim_ascii|trim_ascii_start|trim_ascii_end)$|<impl str>::(trim_ascii|trim_ascii_start|trim_ascii_end)$')
def trim_ascii(I, st, inst, args, at, dty, loc):
    m = inst['item']
    return trim(I, st, as_slice(I, st, args[0]), WS_ASCII, m != 'trim_ascii_end', m != 'trim_ascii_start')


@pattern(r'::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right)$')
def str_trim(I, st, inst, args, at, dty, loc):
    # Unicode white space: kept uninterpreted on the bytes of the slice
    W = I.W
    m = {'trim_left': 'trim_start', 'trim_right': 'trim_end'}.get(inst['item'], inst['item'])
    c = I.content(st, args[0])
    n = W.mk('str' + m, c)
    return W.mk('slice', W.mk('ptr', ('symarr', n), ()), W.I(0), W.mk('len', n, rng=(0, 1 << 62), ty='int'))


# ------------------------------------------------------------------ text to number
def byte_lists(I, st, s):
    """[(cond, [byte nodes])] of a slice under the path condition."""
    W = I.W
    if s.op == 'ite':
        c = s.args[0]
        r = []
        for g, x in ((c, s.args[1]), (I.b.NOT(c), s.args[2])):
            pc = I.b.AND(st.pc, g)
            if pc != F:
                r += byte_lists(I, State(pc, st.store), x)
        return r
    out = []
    for c, a, z in bounds(I, st, s):
        xs = []
        for i in range(a, z):
            p = I.pmap(s.args[0], lambda bq: W.mk('ptr', bq.args[0], bq.args[1] + (('x', W.I(i)),)))
            xs.append(W.restrict(I.load(st, p), c))
        # bytes that are still conditional split the case further
        work = [(c, xs)]
        while work:
            cc, ys = work.pop()
            k = next((i for i, y in enumerate(ys) if y.op == 'ite'), None)
            if k is None:
                out.append((cc, ys))
                continue
            g = ys[k].args[0]
            for cond in (I.b.AND(cc, g), I.b.AND(cc, I.b.NOT(g))):
                if cond != F:
                    work.append((cond, [W.restrict(y, cond) for y in ys]))
    return out


def free_lists(I, st, s):
    """byte_lists with conditions that do not repeat the path condition."""
    try:
        ls = byte_lists(I, State(T, st.store), s)
        if len(ls) > 200:
            raise Unsupported('too many cases')
    except Unsupported:
        return byte_lists(I, st, s)
    return [(c, xs) for c, xs in ls if I.b.AND(st.pc, c) != F]


def under(I, st, c):
    """c, or a constant where the path condition decides it."""
    if I.b.AND(st.pc, c) == F:
        return F
    return T if I.b.implies(st.pc, c) else c


def byte_in(I, v, vals):
    W = I.W
    if v.op == 'i':
        return T if v.args[0] in vals else F
    sb = W.single_byte(v)
    if sb:
        return W.inset(sb[0], [x for x in range(256) if sb[1][x] in vals])
    r = F
    for x in vals:
        r = I.b.OR(r, W.eq0(W.add(v, W.I(x), -1)))
    return r


def digit_val(I, v):
    W = I.W
    if v.op == 'i':
        return W.I(v.args[0] - 48) if 48 <= v.args[0] < 58 else W.I(0)
    sb = W.single_byte(v)
    if sb:
        return W.from_table(sb[0], [x - 48 if 48 <= x < 58 else 0 for x in sb[1]])
    return W.add(v, W.I(48), -1)


def parse_int_bytes(I, xs, lo, hi):
    """(ok condition, value) of Rust's decimal integer parsing of a byte list."""
    W, b = I.W, I.b

    def digits(ys):
        c = T if ys else F
        v = W.I(0)
        for y in ys:
            c = b.AND(c, byte_in(I, y, DIGITS))
            v = W.add(W.scale(v, 10), digit_val(I, y))
        return c, v
    if not xs:
        return F, W.UNDEF
    c0, v0 = digits(xs)
    plus = byte_in(I, xs[0], {43})
    c1, v1 = digits(xs[1:])
    c1p = b.AND(plus, c1)
    c1m = F
    v2 = v1
    if lo < 0:
        c1m = b.AND(byte_in(I, xs[0], {45}), c1)
        v2 = W.scale(v1, -1)
    okc = F
    val = W.UNDEF
    st = State(T, None)
    for c, v in ((c0, v0), (c1p, v1), (c1m, v2)):
        if c == F:
            continue
        fits = T
        if W.range_of(v)[1] > hi or W.range_of(v)[0] < lo:
            fits = b.AND(W.ge0(W.add(W.I(hi), v, -1)), W.ge0(W.add(v, W.I(lo), -1)))
        c = b.AND(c, fits)
        val = v if val is W.UNDEF else W.ite(c, v, val)
        okc = b.OR(okc, c)
    return okc, val


FLOAT_DFA = None


def float_dfa():
    """Transition table of Rust's f64 syntax: state -> byte -> state; accepting states."""
    tr = {}
    names = {}

    def add(s, chars, t):
        for ch in chars:
            tr.setdefault(s, {})[ord(ch)] = t
    D = '0123456789'
    add('S', '+-', 'G')
    for s in ('S', 'G'):
        add(s, D, 'I')
        add(s, '.', 'P')
    add('I', D, 'I')
    add('I', '.', 'Q')
    add('I', 'eE', 'E')
    add('P', D, 'Q')
    add('Q', D, 'Q')
    add('Q', 'eE', 'E')
    add('E', '+-', 'X')
    add('E', D, 'Z')
    add('X', D, 'Z')
    add('Z', D, 'Z')

    def word(w, fin):
        for s0 in ('S', 'G'):
            s = s0
            for i, ch in enumerate(w):
                t = ('W', w[:i + 1])
                add(s, ch + ch.upper(), t)
                s = t
        fin.add(s)
    acc = {'I', 'Q', 'Z'}
    word('inf', acc)
    word('infinity', acc)
    word('nan', acc)
    return tr, acc


def float_ok(I, xs):
    """Exact condition that a byte list is accepted by Rust's f64 parser."""
    global FLOAT_DFA
    if FLOAT_DFA is None:
        FLOAT_DFA = float_dfa()
    tr, acc = FLOAT_DFA
    b = I.b
    memo = {}

    def go(i, s):
        if i == len(xs):
            return T if s in acc else F
        k = (i, s)
        r = memo.get(k)
        if r is not None:
            return r
        by = {}
        for ch, t in tr.get(s, {}).items():
            by.setdefault(t, set()).add(ch)
        r = F
        for t, vals in by.items():
            r = b.OR(r, b.AND(byte_in(I, xs[i], vals), go(i + 1, t)))
        memo[k] = r
        return r
    return go(0, 'S')


def utf8_ok(I, xs):
    """Exact condition that a byte list is valid UTF-8."""
    b = I.b
    R = lambda a, z: frozenset(range(a, z + 1))
    C = R(0x80, 0xBF)
    memo = {}

    def seq(i, sets):
        r = T
        for j, s in enumerate(sets):
            if i + j >= len(xs):
                return F
            r = b.AND(r, byte_in(I, xs[i + j], s))
        return b.AND(r, go(i + len(sets)))

    def go(i):
        if i == len(xs):
            return T
        if i in memo:
            return memo[i]
        r = seq(i, [R(0, 0x7f)])
        for sets in ([R(0xC2, 0xDF), C], [R(0xE0, 0xE0), R(0xA0, 0xBF), C], [R(0xE1, 0xEC) | R(0xEE, 0xEF), C, C], [R(0xED, 0xED), R(0x80, 0x9F), C],
                     [R(0xF0, 0xF0), R(0x90, 0xBF), C, C], [R(0xF1, 0xF3), C, C, C], [R(0xF4, 0xF4), R(0x80, 0x8F), C, C]):
            r = b.OR(r, seq(i, sets))
        memo[i] = r
        return r
    return go(0)


def parse_result(I, st, s, kind, lo=None, hi=None):
    """Result<number, parse error> of parsing slice s."""
    W, b = I.W, I.b
    try:
        lists = free_lists(I, st, s)
    except Unsupported:
        wide = 'u64' if kind in ('u8', 'u16', 'u32') else kind
        n = W.mk('parse', wide, I.content(st, s))
        okc = W.atom(W.mk('parse_ok', wide, I.content(st, s)))
        if kind != 'f64':
            n.rng = (lo, (1 << 64) - 1 if wide != kind else hi)
            n.ty = 'int'
            if wide != kind:
                okc = b.AND(okc, le(I, st, n, W.I(hi)))
        else:
            n.ty = 'float'
        return W.ite(okc, ok(W, n), err(W, W.mk('parse_err', kind)))
    okc = F
    vals = []
    for c, xs in lists:
        if kind == 'f64':
            o = float_ok(I, xs)
            v = W.mk('pf64', *canon_float_bytes(xs))
            v.ty = 'float'
        else:
            o, v = parse_int_bytes(I, xs, lo, hi)
        o = b.AND(c, o)
        if b.AND(o, st.pc) != F:
            okc = b.OR(okc, o)
            vals.append((o, v))
    okc = under(I, st, okc)
    e = err(W, W.mk('parse_err', kind))
    if not vals:
        return e
    return W.ite(okc, ok(W, W.select(vals)), e)


def canon_float_bytes(xs):
    xs = list(xs)
    if len(xs) > 1 and xs[0].op == 'i' and xs[0].args[0] == 43:
        xs = xs[1:]
    return xs


@pattern(r'core::num::<impl std::str::FromStr for [ui](8|16|32|64|128|size)>::from_str$')
def parse_int(I, st, inst, args, at, dty, loc):
    d = I.tk(dty)
    t = d['variants'][0]['fields'][0][1]
    lo, hi = I.int_range(t)
    return parse_result(I, st, as_slice(I, st, args[0]), I.tk(t)['s'], lo, hi)


@pattern(r'core::num::<impl [ui](8|16|32|64|128|size)>::(from_str_radix|from_ascii|from_ascii_radix)$')
def parse_int_radix(I, st, inst, args, at, dty, loc):
    if len(args) == 2 and not (args[1].op == 'i' and args[1].args[0] == 10):
        return I.external(st, inst, args, at, dty, loc)
    return parse_int(I, st, inst, args, at, dty, loc)


@pattern(r'<impl std::str::FromStr for f64>::from_str$')
def parse_f64(I, st, inst, args, at, dty, loc):
    return parse_result(I, st, as_slice(I, st, args[0]), 'f64')


@pattern(r'^(std|core)::str::(from_utf8|converts::from_utf8)$|<impl str>::from_utf8$')
def from_utf8(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    try:
        okc = F
        for c, xs in free_lists(I, st, s):
            okc = I.b.OR(okc, I.b.AND(c, utf8_ok(I, xs)))
        okc = under(I, st, okc)
    except Unsupported:
        okc = W.atom(W.mk('utf8', I.content(st, s)))
    return W.ite(okc, ok(W, s), err(W, W.mk('utf8_err')))


@pattern(r'::<impl (\[u8\]|str)>::is_ascii$')
def slice_is_ascii(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    s = as_slice(I, st, args[0])
    try:
        r = F
        for c, xs in free_lists(I, st, s):
            for x in xs:
                c = b.AND(c, byte_in(I, x, frozenset(range(128))))
            r = b.OR(r, c)
    except Unsupported:
        r = W.atom(W.mk('ascii', I.content(st, s)))
    return W.B(r)


@pattern(r'::str::from_utf8_unchecked$|<impl str>::from_utf8_unchecked$')
def from_utf8_unchecked(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    try:
        okc = F
        for c, xs in free_lists(I, st, s):
            okc = I.b.OR(okc, I.b.AND(c, utf8_ok(I, xs)))
    except Unsupported:
        okc = W.atom(W.mk('utf8', I.content(st, s)))
    I.panic(st, 'unchecked-utf8', loc, [], I.b.NOT(okc))
    return s


@pattern(r'::<impl str>::as_bytes$|::<impl str>::as_str$|<impl std::convert::AsRef<\[u8\]> for str>::as_ref$|<impl std::convert::AsRef<str> for str>::as_ref$|::slice::<impl \[T\]>::as_slice$')
def as_bytes(I, st, inst, args, at, dty, loc):
    return args[0]


@pattern(r'::<impl u8>::(is_ascii_whitespace|is_ascii_digit|is_ascii|is_ascii_alphabetic|is_ascii_alphanumeric|is_ascii_uppercase|is_ascii_lowercase|is_ascii_punctuation|is_ascii_graphic|is_ascii_control)$')
def u8_class(I, st, inst, args, at, dty, loc):
    m = inst['item'][9:]
    sets = {'whitespace': WS_ASCII, 'digit': DIGITS, '': frozenset(range(128)),
            'alphabetic': frozenset(list(range(65, 91)) + list(range(97, 123))),
            'alphanumeric': frozenset(list(range(65, 91)) + list(range(97, 123)) + list(range(48, 58))),
            'uppercase': frozenset(range(65, 91)), 'lowercase': frozenset(range(97, 123)),
            'graphic': frozenset(range(33, 127)), 'control': frozenset(list(range(32)) + [127]),
            'punctuation': frozenset(x for x in range(33, 127) if not chr(x).isalnum())}
    v = I.load(st, args[0]) if args[0].op in ('ptr', 'ite') and not I.is_int(args[0]) else args[0]
    if v.op == 'ite':
        r = F
        for c, l in I.W.leaves(v):
            r = I.b.OR(r, I.b.AND(c, byte_in(I, l, sets[m.lstrip('_')])))
        return I.W.B(r)
    return I.W.B(byte_in(I, v, sets[m.lstrip('_')]))


@pattern(r'::<impl char>::(to_digit|is_digit)$')
def char_digit(I, st, inst, args, at, dty, loc):
    """Decimal digits of characters that stand for a byte; others through the body of the function."""
    W = I.W
    v, base = args
    if base.op != 'i' or base.args[0] != 10 or v.op != 'i' and not W.single_byte(v):
        return generic_body(I, st, inst, args, at, dty, loc)
    c = byte_in(I, v, DIGITS)
    if inst['item'] == 'is_digit':
        return W.B(c)
    return W.ite(under(I, st, c), some(W, digit_val(I, v)), none(W))


# ------------------------------------------------------------------ iterators
def it_next(I, st, p):
    """Advance the iterator stored at pointer p; returns (has_next condition, item)."""
    W, b = I.W, I.b
    it = I.load(st, p)
    if it.op == 'ite':
        c = it.args[0]
        has = F
        item = W.UNDEF
        newv = None
        for g, x in ((c, it.args[1]), (b.NOT(c), it.args[2])):
            if b.AND(st.pc, g) == F:
                newx = x
                h, i = F, W.UNDEF
            else:
                q = tmp_ptr(I, st, x)
                h, i = it_next(I, st, q)
                newx = I.load(st, q)
            has = b.OR(has, b.AND(g, h))
            item = i if item is W.UNDEF else (item if i is W.UNDEF else W.ite(c, item, i))
            newv = newx if newv is None else W.ite(c, newv, newx)
        I.storep(st, p, newv)
        return has, item
    k = it.op
    if k == 'siter':
        s, kind = it.args
        ln = I.slice_len(s)
        e = I.eq0(st, ln)
        if e == T:
            return F, W.UNDEF
        q = I.pmap(s, lambda x: I.index_ptr(st, x, W.I(0)))
        item = q if kind == 'ref' else I.load(st, q)
        adv = W.mk('siter', sub_slice(I, s, W.I(1), ln), kind)
        I.storep(st, p, W.ite(e, it, adv))
        return b.NOT(e), item
    if k == 'liter':            # list of values
        if not it.args:
            return F, W.UNDEF
        I.storep(st, p, W.mk('liter', *it.args[1:]))
        return T, it.args[0]
    if k == 'lines':            # lines of an abstract text: index, symbol
        i, n = it.args[0], it.args[1]
        has = W.atom(W.mk('hasline', n, i))
        I.storep(st, p, W.ite(has, W.mk('lines', i + 1, n), it))
        node = W.mk('sym', f'line{i}')
        line = W.mk('slice', W.mk('ptr', ('symarr', node), ()), W.I(0), W.mk('len', node, rng=(0, (1 << 63) - 1), ty='int'))
        return has, line
    if k == 'chunks':
        inner, size, exact = it.args
        q = tmp_ptr(I, st, inner)
        h, x = it_next(I, st, q)
        raise Unsupported('chunks iterator')
    raise Unsupported(f'iterator {k}')


def opt(I, h, x):
    W = I.W
    if h == F:
        return none(W)
    return W.ite(h, some(W, x), none(W))


@pattern(r'^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$|^<std::str::(Lines|R?Split\w*|R?Matches)<.*> as std::iter::Iterator>::next$|^<std::array::IntoIter<.*> as std::iter::Iterator>::next$|^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$|^<std::str::Bytes<.*> as std::iter::Iterator>::next$')
def iter_next(I, st, inst, args, at, dty, loc):
    h, x = it_next(I, st, args[0])
    return opt(I, h, x)


@pattern(r'::slice::<impl \[T\]>::(iter|iter_mut)$|^std::slice::Iter::<.*>::new$|slice::iter::<impl std::iter::IntoIterator for &.*\[T\]>::into_iter$|array::iter::<impl std::iter::IntoIterator for &.*\[T; N\]>::into_iter$|array::<impl std::iter::IntoIterator for &.*\[T; N\]>::into_iter$|^<&.*Vec<.*> as std::iter::IntoIterator>::into_iter$')
def slice_iter(I, st, inst, args, at, dty, loc):
    return I.W.mk('siter', as_slice(I, st, args[0]), 'ref')


@pattern(r'::<impl str>::bytes$')
def str_bytes(I, st, inst, args, at, dty, loc):
    return I.W.mk('siter', as_slice(I, st, args[0]), 'val')


@pattern(r'array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$')
def array_into_iter(I, st, inst, args, at, dty, loc):
    return I.W.mk('liter', *args[0].args[1:])


@pattern(r'^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$')
def vec_into_iter(I, st, inst, args, at, dty, loc):
    def g(v):
        if v.op == 'ite':
            return I.W.ite(v.args[0], g(v.args[1]), g(v.args[2]))
        if v.op != 'vec':
            raise Unsupported('into_iter of opaque Vec')
        return I.W.mk('liter', *v.args)
    return g(args[0])


@pattern(r'::<impl str>::lines$')
def str_lines(I, st, inst, args, at, dty, loc):
    c = I.content(st, args[0])
    n = getattr(I, 'text_lines', None)
    if n is None:
        return I.W.mk('lines', 0, I.W.mk('textlines', c))
    # the text is taken to have exactly n lines
    return I.W.mk('liter', *[text_line(I, c, i) for i in range(n)])


@pattern(r'::<impl str>::(r?split(_terminator|_inclusive|_whitespace|_ascii_whitespace)?|r?splitn|char_indices|r?matches)$')
def str_split(I, st, inst, args, at, dty, loc):
    n = getattr(I, 'text_lines', None)
    if n is None:
        return generic_body(I, st, inst, args, at, dty, loc)
    # pieces that are not known to be the lines of the text
    c = I.W.mk('pieces', inst['item'], *[I.content(st, a) for a in args])
    return I.W.mk('liter', *[text_line(I, c, i) for i in range(n)])


@pattern(r'::<impl str>::(trim_(start_|end_|left_|right_)?matches|strip_(prefix|suffix)|r?find|r?split_once|replacen?|to_(lower|upper)case|to_ascii_(lower|upper)case|repeat|escape_\w+|eq_ignore_ascii_case)$')
def str_search(I, st, inst, args, at, dty, loc):
    m = inst['item']
    if m.endswith('matches') or m in ('strip_prefix', 'strip_suffix'):
        cs = chars_of(I, st, args[1], at[1], loc)
        if cs is not None:
            m = m.replace('left', 'start').replace('right', 'end')
            try:
                s = as_slice(I, st, args[0])
                if m.startswith('trim'):
                    return trim(I, st, s, cs, m != 'trim_end_matches', m != 'trim_start_matches')
                return strip_char(I, st, s, cs, m == 'strip_prefix')
            except Unsupported:
                pass
    return I.external(st, inst, args, at, dty, loc)


def strip_char(I, st, s, cs, front):
    """Some(text without its first or last character) where that is one of cs, else None."""
    W, b = I.W, I.b
    if s.op == 'ite':
        return W.ite(s.args[0], strip_char(I, st, s.args[1], cs, front), strip_char(I, st, s.args[2], cs, front))
    c = F
    for g, a, z in free_bounds(I, st, s):
        if z > a:
            c = b.OR(c, b.AND(g, isin(I, st, s, a if front else z - 1, cs)))
    n = I.slice_len(s)
    r = sub_slice(I, s, W.I(1), n) if front else sub_slice(I, s, W.I(0), W.add(n, W.I(1), -1))
    return W.ite(under(I, st, c), some(W, r), none(W))


def chars_of(I, st, v, ty, loc):
    """The ASCII characters that a character pattern (a character, an array of them, a one-character text or a predicate)
    matches, None where it may match others or is not understood."""
    W = I.W
    d = I.tk(ty)
    try:
        if d['k'] == 'char':
            vs = [v]
        elif d['k'] == 'array':
            vs = [I.elem(v, W.I(i)) for i in range(d['n'])]
        elif d['k'] == 'ref' and I.tk(d['e'])['k'] in ('array', 'slice', 'str'):
            s = as_slice(I, st, v)
            vs = [I.slice_elem(st, s, W.I(i)) for i in range(const_len(I, s))]
            if I.tk(d['e'])['k'] == 'str' and len(vs) != 1:
                return None
        elif d['k'] in ('closure', 'fndef', 'fnptr'):
            r = []
            for x in [W.I(i) for i in range(128)] + [W.mk('anychar', rng=(128, 0x10ffff), ty='int')]:
                s = st.copy()
                cell = tmp_ptr(I, s, v)
                if d['k'] == 'closure' and I.tk(I.P.insts[d['inst']]['body']['locals'][1])['k'] == 'ref':
                    y = I.exec_fn(s, d['inst'], [cell, x])
                else:
                    y = I.call_fn(s, v, ty, [x], [None], None, loc)
                if y is None or s.pc != st.pc or y.args[0] not in (T, F):
                    return None
                if y.args[0] == T:
                    r.append(x)
            vs = r
        else:
            return None
    except Unsupported:
        return None
    if any(x.op != 'i' or x.args[0] > 127 for x in vs):
        return None
    return frozenset(x.args[0] for x in vs)


def text_line(I, c, i):
    W = I.W
    node = W.mk('line', c, i)
    return W.mk('slice', W.mk('ptr', ('symarr', node), ()), W.I(0), W.mk('len', node, rng=(0, (1 << 63) - 1), ty='int'))


@pattern(r'^<std::slice::Iter<.*> as std::iter::ExactSizeIterator>::len$')
def siter_len(I, st, inst, args, at, dty, loc):
    it = I.load(st, args[0])
    return I.slice_len(it.args[0])


def drive(I, st, inst, p, body, loc, limit=20000, nxt=None):
    """Run body(item) for every item of the iterator at p while it continues; merges early exits.
    body(st, item) returns a stop condition (BDD).  nxt: the function advancing the iterator."""
    W, b = I.W, I.b
    done = []
    n = 0
    while True:
        if nxt is None:
            h, x = it_next(I, st, p)
        else:
            r = I.exec_fn(st, nxt, [p])
            if r is None:
                break
            h, x = Shape(I).is_variant(r, 1), I.proj(I.proj(r, ('v', 1)), ('f', 0, None))
        stop_pc = b.AND(st.pc, b.NOT(h))
        if stop_pc != F:
            done.append(st.copy(stop_pc, b.NOT(h)))
        if h != T:
            st.hist = (st.hist, h, st.hist[2] + 1 if st.hist else 1)
        st.pc = b.AND(st.pc, h)
        if st.pc == F:
            break
        c = body(st, x)
        if c is None or st.pc == F:
            break
        if c != F:
            s2 = st.copy(b.AND(st.pc, c), c)
            if s2.pc != F:
                done.append(s2)
            st.hist = (st.hist, b.NOT(c), st.hist[2] + 1 if st.hist else 1)
            st.pc = b.AND(st.pc, b.NOT(c))
            if st.pc == F:
                break
        n += 1
        if n > limit:
            raise Unsupported('iterator does not end')
    m = I.merge(done)
    if m is None:
        st.pc = F
        return False
    st.pc, st.store, st.hist = m.pc, m.store, m.hist
    return True


def fn_args(I, st, fty, n):
    return None


@pattern(r'^<std::slice::Iter<.*> as std::iter::Iterator>::(fold|all|any|for_each|position|find|count|map_while)$|^std::iter::Iterator::(fold|all|any|for_each|position|find)$|^<std::(str::Lines|array::IntoIter|vec::IntoIter|str::Bytes)<.*> as std::iter::Iterator>::(fold|all|any|for_each|position|find|count)$')
def iter_consume(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    m = inst['item']
    self_t = I.tk(at[0])
    if m in ('all', 'any', 'position', 'find'):
        p = args[0]
        it = I.load(st, p)
    else:
        it = args[0]
        p = tmp_ptr(I, st, it)
    if it.op not in ('siter', 'liter', 'lines', 'ite'):
        # other adaptor: use the generic body
        body = inst.get('body')
        if body is None:
            raise Unsupported('iterator ' + inst['name'])
        return I.exec_fn(st, [k for k, v in enumerate(I.P.insts) if v is inst][0], args)
    acc = tmp_ptr(I, st, {'fold': lambda: args[1], 'all': lambda: W.TRUE, 'any': lambda: W.FALSE, 'for_each': lambda: W.UNIT, 'position': lambda: none(W), 'find': lambda: none(W), 'count': lambda: W.I(0)}[m]())
    idx = [0]
    fcell = None
    if m != 'count':
        fval = args[2] if m == 'fold' else args[1]
        fty = at[2] if m == 'fold' else at[1]
        fcell = tmp_ptr(I, st, fval)

    def call(s, xs):
        f = I.load(s, fcell)
        d = I.tk(fty)
        if d['k'] == 'closure' and I.tk(I.P.insts[d['inst']]['body']['locals'][1])['k'] == 'ref':
            return I.exec_fn(s, d['inst'], [fcell] + xs)
        return I.call_fn(s, f, fty, xs, [None] * len(xs), dty, loc)

    def body(s, x):
        if m == 'count':
            I.storep(s, acc, W.add(I.load(s, acc), W.I(1)))
            return F
        if m == 'fold':
            r = call(s, [I.load(s, acc), x])
            if r is None:
                return None
            I.storep(s, acc, r)
            return F
        if m == 'for_each':
            r = call(s, [x])
            return None if r is None else F
        arg = x if m != 'find' else tmp_ptr(I, s, x)
        r = call(s, [arg])
        if r is None:
            return None
        c = r.args[0]
        if m == 'all':
            I.storep(s, acc, W.ite(c, I.load(s, acc), W.FALSE))
            return b.NOT(c)
        if m == 'any':
            I.storep(s, acc, W.ite(c, W.TRUE, I.load(s, acc)))
            return c
        if m == 'position':
            I.storep(s, acc, W.ite(c, some(W, W.I(idx[0])), I.load(s, acc)))
            idx[0] += 1
            return c
        I.storep(s, acc, W.ite(c, some(W, x), I.load(s, acc)))
        return c
    if not drive(I, st, inst, p, body, loc):
        return None
    return I.load(st, acc)


@pattern(r'array::<impl \[T; N\]>::map$|array::from_fn$')
def array_map(I, st, inst, args, at, dty, loc):
    """[T; N]::map(f) and array::from_fn(f): f applied to each element or index in order."""
    W = I.W
    d = I.tk(dty)
    if d['k'] != 'array' or not isinstance(d['n'], int) or d['n'] > 64:
        raise Unsupported('array of unknown length')
    if inst['item'] == 'map':
        xs, f, fty = [I.elem(args[0], W.I(i)) for i in range(d['n'])], args[1], at[1]
    else:
        xs, f, fty = [W.I(i) for i in range(d['n'])], args[0], at[0]
    cell = tmp_ptr(I, st, f)
    out = []
    for x in xs:
        k = I.tk(fty)
        if k['k'] == 'closure' and I.tk(I.P.insts[k['inst']]['body']['locals'][1])['k'] == 'ref':
            r = I.exec_fn(st, k['inst'], [cell, x])
        else:
            r = I.call_fn(st, I.load(st, cell), fty, [x], [None], d['e'], loc)
        if r is None:
            return None
        out.append(r)
    return W.mk('agg', None, *out)


def range_next(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    r = I.load(st, args[0])
    if r.op == 'ite':
        def part(v):
            return v
        lv = W.leaves(r)
        if any(l.op != 'agg' for _, l in lv):
            raise Unsupported('range iterator')
    s, e = I.proj(r, ('f', 0, None)), I.proj(r, ('f', 1, None))
    c = b.NOT(I.ge0(st, W.add(s, e, -1)))
    new = W.mk('agg', None, W.ite(c, W.add(s, W.I(1)), s), e)
    I.storep(st, args[0], new)
    return W.ite(c, some(W, s), none(W)) if c != F else none(W)


PATTERNS.append((re.compile(r'^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$|^<std::ops::Range<T> as std::iter::range::RangeIteratorImpl>::spec_next$'), range_next))


@pattern(r'^std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next$|^<std::ops::RangeInclusive<T> as std::iter::range::RangeInclusiveIteratorImpl>::spec_next$')
def range_incl_next(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    r = I.load(st, args[0])
    s, e, x = (I.proj(r, ('f', i, None)) for i in range(3))
    empty = b.OR(x.args[0], b.NOT(le(I, st, s, e)))
    last = I.eq0(st, W.add(s, e, -1))
    adv = W.mk('agg', None, W.ite(last, s, W.add(s, W.I(1))), e, W.B(last))
    I.storep(st, args[0], W.ite(empty, r, adv))
    return W.ite(empty, none(W), some(W, s))


@pattern(r'::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$')
def range_next_back(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    r = I.load(st, args[0])
    s, e = (I.proj(r, ('f', i, None)) for i in range(2))
    c = b.NOT(I.ge0(st, W.add(s, e, -1)))
    e1 = W.add(e, W.I(1), -1)
    I.storep(st, args[0], W.mk('agg', None, s, W.ite(c, e1, e)))
    return W.ite(c, some(W, e1), none(W))


# enumerate / zip / rev / take / skip over concrete iterators are turned into value lists when possible
def to_list(I, st, it):
    """Items of an iterator value as a list, when its length is constant."""
    W = I.W
    if it.op == 'liter':
        return list(it.args)
    if it.op == 'siter':
        s, kind = it.args
        n = const_len(I, s)
        ps = [I.pmap(s, lambda x, i=i: I.index_ptr(st, x, W.I(i))) for i in range(n)]
        return ps if kind == 'ref' else [I.load(st, p) for p in ps]
    if it.op == 'agg' and it.args[0] is None and len(it.args) == 3 and it.args[1].op == 'i' and it.args[2].op == 'i':
        return [W.I(i) for i in range(it.args[1].args[0], it.args[2].args[0])]
    if it.op == 'agg' and it.args[0] is None and len(it.args) == 4 and it.args[1].op == 'i' and it.args[2].op == 'i' and it.args[3] is W.FALSE:
        return [W.I(i) for i in range(it.args[1].args[0], it.args[2].args[0] + 1)]
    raise Unsupported(f'iterator {it.op}')


@pattern(r'^std::iter::Iterator::(enumerate|rev|copied|cloned|skip|take|zip|chain|step_by|by_ref|peekable|fuse)$')
def iter_adapt(I, st, inst, args, at, dty, loc):
    W = I.W
    m = inst['item']
    try:
        if m == 'by_ref':
            return args[0]
        if m == 'fuse':
            return args[0]
        if args[0].op in ('lines',):
            raise Unsupported('adaptor on lines')
        xs = to_list(I, st, args[0])
        if m == 'enumerate':
            ys = [W.mk('agg', None, W.I(i), x) for i, x in enumerate(xs)]
        elif m == 'rev':
            ys = xs[::-1]
        elif m in ('copied', 'cloned'):
            ys = [I.load(st, x) for x in xs]
        elif m == 'skip' and args[1].op == 'i':
            ys = xs[args[1].args[0]:]
        elif m == 'take' and args[1].op == 'i':
            ys = xs[:args[1].args[0]]
        elif m == 'step_by' and args[1].op == 'i':
            ys = xs[::args[1].args[0]]
        elif m in ('zip', 'chain'):
            o = args[1]
            try:
                zs = to_list(I, st, o)
            except Unsupported:
                if I.tk(at[1])['k'] in ('ref',) or o.op in ('ptr', 'slice'):
                    s = as_slice(I, st, o)
                    zs = [I.pmap(s, lambda x, i=i: I.index_ptr(st, x, W.I(i))) for i in range(const_len(I, s))]
                elif o.op == 'agg':
                    zs = list(o.args[1:])
                else:
                    raise
            ys = xs + zs if m == 'chain' else [W.mk('agg', None, x, y) for x, y in zip(xs, zs)]
        else:
            raise Unsupported(m)
        return W.mk('liter', *ys)
    except Unsupported:
        return generic_body(I, st, inst, args, at, dty, loc)


def generic_body(I, st, inst, args, at, dty, loc):
    if inst.get('body') is None:
        return I.external(st, inst, args, at, dty, loc)
    for k, v in enumerate(I.P.insts):
        if v is inst or (v['name'] == inst['name'] and v['path'] == inst['path']):
            return I.exec_fn(st, k, args)
    raise Unsupported('body of ' + inst['name'])


@pattern(r'^<std::iter::(Enumerate|Rev|Copied|Cloned|Skip|Take|Zip|Chain|StepBy|Fuse)<.*> as std::iter::Iterator>::(next|fold|all|any|for_each|count|position|find)$')
def adapted(I, st, inst, args, at, dty, loc):
    a = args[0]
    it = I.load(st, a) if a.op == 'ptr' else a
    if it.op in ('liter', 'siter', 'ite'):
        if inst['item'] == 'next':
            return iter_next(I, st, inst, args, at, dty, loc)
        return iter_consume(I, st, inst, args, at, dty, loc)
    return generic_body(I, st, inst, args, at, dty, loc)


@pattern(r'^<std::iter::Map<.*> as std::iter::Iterator>::(fold|all|any|for_each|count)$|^std::iter::Iterator::(sum|product|collect|count|last|max|min|try_fold|try_for_each|max_by|min_by|nth)$|^<.* as std::iter::Iterator>::(sum|product|collect|nth|last)$')
def iter_terminal(I, st, inst, args, at, dty, loc):
    W = I.W
    m = inst['item']
    it = args[0]
    try:
        if m == 'nth' and args[1].op == 'i':
            r = None
            for _ in range(args[1].args[0] + 1):
                h, x = it_next(I, st, args[0])
                if r is not None:
                    h = I.b.AND(h, r)
                r = h
            return opt(I, h, x)
        if m == 'sum':
            xs = to_list(I, st, it)
            xs = [I.load(st, x) if x.op == 'ptr' else x for x in xs]
            if I.tk(dty)['k'] == 'float':
                acc = I.fconst(-0.0)
                acc = None
                for x in xs:
                    acc = x if acc is None else I.fl('fadd', acc, x)
                return acc if acc is not None else I.fconst(0.0)
            acc = W.I(0)
            lo, hi = I.int_range(dty)
            for x in xs:
                acc = W.add(acc, x)
            a, z = W.range_of(acc)
            if a < lo or z > hi:
                require(I, st, I.b.AND(I.ge0(st, W.add(W.I(hi), acc, -1)), I.ge0(st, W.add(acc, W.I(lo), -1))), 'sum-overflow', loc)
            return acc
        if m == 'count':
            return W.I(len(to_list(I, st, it)))
        if m == 'collect' and I.tk(dty).get('path', '').endswith('Vec'):
            return collect_vec(I, st, it, loc)
        if m == 'last':
            xs = to_list(I, st, it)
            return some(W, xs[-1]) if xs else none(W)
    except Unsupported:
        pass
    return generic_body(I, st, inst, args, at, dty, loc)


def collect_vec(I, st, it, loc, limit=24):
    """Collect an iterator into a Vec value; line iterators are followed for a bounded number of items."""
    W = I.W
    try:
        return W.mk('vec', *to_list(I, st, it))
    except Unsupported:
        pass
    if it.op != 'lines':
        raise Unsupported('collect')
    acc = tmp_ptr(I, st, W.mk('vec'))
    p = tmp_ptr(I, st, it)
    cnt = [0]
    maxl = getattr(I, 'max_lines', 8)

    def body(s, x):
        cnt[0] += 1
        if cnt[0] > maxl:
            return T
        I.storep(s, acc, vec_push_val(I, I.load(s, acc), x))
        return F
    if not drive(I, st, None, p, body, loc):
        return W.mk('vec')
    return I.load(st, acc)


def vec_push_val(I, v, x):
    W = I.W
    if v.op == 'ite':
        return W.ite(v.args[0], vec_push_val(I, v.args[1], x), vec_push_val(I, v.args[2], x))
    if v.op != 'vec':
        raise Unsupported('push on opaque Vec')
    return W.mk('vec', *v.args, x)


# ------------------------------------------------------------------ Vec
@pattern(r'^std::vec::Vec::<T>::(new|with_capacity)$|^<std::vec::Vec<T> as std::default::Default>::default$')
def vec_new(I, st, inst, args, at, dty, loc):
    return I.W.mk('vec')


@pattern(r'^std::vec::Vec::<T, A>::push$')
def vec_push(I, st, inst, args, at, dty, loc):
    I.storep(st, args[0], vec_push_val(I, I.load(st, args[0]), args[1]))
    return I.W.UNIT


def own_next(I, t):
    """Instance of Iterator::next for the iterator type, when the program contains it."""
    for k, v in enumerate(I.P.insts):
        if v.get('item') == 'next' and v.get('body') and v['body']['argc'] == 1:
            d = I.tk(v['body']['locals'][1])
            if d['k'] == 'ref' and d['e'] == t:
                return k
    return None


def extend_vec(I, st, vp, it, t, inst, loc):
    """Push every item of the iterator value onto the Vec at vp."""
    try:
        for x in to_list(I, st, it):
            I.storep(st, vp, vec_push_val(I, I.load(st, vp), x))
        return True
    except Unsupported:
        pass

    def body(s, x):
        I.storep(s, vp, vec_push_val(I, I.load(s, vp), x))
        return F
    k = own_next(I, t)
    p = tmp_ptr(I, st, it)
    if it.op in ('siter', 'liter', 'lines', 'ite'):
        return drive(I, st, inst, p, body, loc)
    if k is not None:
        return drive(I, st, inst, p, body, loc, limit=400, nxt=k)
    # iterators of known length push through for_each
    for v in I.P.insts:
        if v.get('item') == 'extend_trusted' and v.get('body') and v['body']['locals'][2] == t:
            for bl in v['body']['blocks']:
                f = bl['t'].get('f') if isinstance(bl.get('t'), dict) else None
                if f and f[0] == 'c' and isinstance(f[1], dict) and str(f[1].get('path', '')).endswith('::for_each'):
                    I.collectors = getattr(I, 'collectors', []) + [vp]
                    try:
                        r = I.call_inst(st, f[1]['fn'], [it, I.W.mk('agg', None, I.W.UNDEF, I.W.UNDEF)], bl['t']['at'], bl['t']['dt'], f[1]['path'], loc)
                    finally:
                        I.collectors = I.collectors[:-1]
                    return r is not None
    raise Unsupported('collecting ' + inst['name'])


@pattern(r'::extend_trusted::\{closure#0\}$')
def extend_trusted_push(I, st, inst, args, at, dty, loc):
    vp = I.collectors[-1]
    I.storep(st, vp, vec_push_val(I, I.load(st, vp), args[-1]))
    return I.W.UNIT


@pattern(r'^<std::vec::Vec<T> as std::vec::spec_from_iter(_nested)?::SpecFromIter(Nested)?<.*>>::from_iter$|^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$')
def vec_from_iter(I, st, inst, args, at, dty, loc):
    vp = tmp_ptr(I, st, I.W.mk('vec'))
    return I.load(st, vp) if extend_vec(I, st, vp, args[0], at[0], inst, loc) else None


@pattern(r'^std::vec::Vec::<T, A>::(extend_desugared|extend_trusted)$|^<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<.*>>::spec_extend$')
def vec_extend(I, st, inst, args, at, dty, loc):
    return I.W.UNIT if extend_vec(I, st, args[0], args[1], at[1], inst, loc) else None


@pattern(r'::slice::<impl \[T\]>::reverse$')
def slice_reverse(I, st, inst, args, at, dty, loc):
    s = as_slice(I, st, args[0])
    n = const_len(I, s)
    ps = [I.pmap(s, lambda x, i=i: I.index_ptr(st, x, I.W.I(i))) for i in range(n)]
    for p, v in zip(ps, [I.load(st, p) for p in ps][::-1]):
        I.storep(st, p, v)
    return I.W.UNIT


@pattern(r'^std::vec::Vec::<T, A>::(clear)$')
def vec_clear(I, st, inst, args, at, dty, loc):
    I.storep(st, args[0], I.W.mk('vec'))
    return I.W.UNIT


@pattern(r'^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$')
def vec_reserve(I, st, inst, args, at, dty, loc):
    return I.W.UNIT


@pattern(r'^std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$|^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<std::vec::Vec<.*> as std::(convert::AsRef|borrow::Borrow)')
def vec_slice(I, st, inst, args, at, dty, loc):
    return as_slice(I, st, args[0])


@pattern(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$')
def vec_index(I, st, inst, args, at, dty, loc):
    s = as_slice(I, st, args[0])
    return slice_index(I, st, dict(inst, path='', item='index'), [args[1], s], [at[1], at[0]], dty, loc)


@pattern(r'::slice::<impl \[T\]>::(chunks|chunks_exact|windows)$')
def slice_chunks(I, st, inst, args, at, dty, loc):
    W = I.W
    s = as_slice(I, st, args[0])
    if args[1].op != 'i':
        raise Unsupported('chunks of unknown size')
    k = args[1].args[0]
    if k == 0:
        require(I, st, F, 'chunk-size-zero', loc)
        return None
    m = inst['item']

    def g(ln, base):
        n = ln
        if m == 'chunks_exact':
            return [(i, i + k) for i in range(0, n - k + 1, k)]
        if m == 'windows':
            return [(i, i + k) for i in range(0, n - k + 1)]
        return [(i, min(i + k, n)) for i in range(0, n, k)]
    ln = I.slice_len(s)
    outs = []
    for c, l in lin_leaves(I, st, ln):
        if l.op != 'i':
            raise Unsupported('chunks of unknown length')
        outs.append((c, W.mk('liter', *[sub_slice(I, s, W.I(a), W.I(z)) for a, z in g(l.args[0], s)])))
    return W.select(outs)


@pattern(r'^<std::slice::(Chunks|ChunksExact|Windows)<.*> as std::iter::Iterator>::next$')
def chunks_next(I, st, inst, args, at, dty, loc):
    return iter_next(I, st, inst, args, at, dty, loc)


# ------------------------------------------------------------------ strings and formatting
@pattern(r'<impl std::borrow::ToOwned for str>::to_owned$|^<std::string::String as std::convert::From<&.*str>>::from$|^<str as std::string::(ToString|SpecToString)>|^<std::string::String as std::clone::Clone>::clone$|::<impl str>::(to_string|into_string)$')
def str_to_owned(I, st, inst, args, at, dty, loc):
    a = args[0]
    if a.op == 'ptr':
        return I.load(st, a)
    if a.op == 'slice' and a.args[0].op == 'ptr' and a.args[0].args[0][0] == 'symarr' and a.args[0].args[0][1].op == 'strof' and not a.args[0].args[1]:
        n = a.args[0].args[0][1]
        if a.args[1] is I.W.I(0) and a.args[2].op == 'len' and a.args[2].args[0] is n:
            return n.args[0]                        # the whole of a text
    return I.W.mk('text', *text_pieces_of_str(I, st, a))


def text_pieces_of_str(I, st, s):
    W = I.W
    c = I.content(st, s)
    if c.op == 'slc' and all(x.op == 'i' for x in c.args):
        return [bytes(x.args[0] for x in c.args).decode('utf8', 'replace')]
    return [W.mk('disp', c)]


@pattern(r'^std::string::String::(new|with_capacity)$')
def string_new(I, st, inst, args, at, dty, loc):
    return I.W.mk('text')


@pattern(r'^std::string::String::(as_str|as_bytes|as_mut_str)$|^<std::string::String as std::ops::Deref>::deref$|^<std::string::String as std::(convert::AsRef|borrow::Borrow)<.*>>::')
def string_as_str(I, st, inst, args, at, dty, loc):
    W = I.W
    v = I.load(st, args[0])
    n = W.mk('strof', v)
    return W.mk('slice', W.mk('ptr', ('symarr', n), ()), W.I(0), W.mk('len', n, rng=(0, 1 << 62), ty='int'))


@pattern(r'^std::string::String::(push_str|push)$')
def string_push(I, st, inst, args, at, dty, loc):
    W = I.W
    v = I.load(st, args[0])
    ps = text_pieces_of_str(I, st, args[1]) if inst['item'] == 'push_str' else ([chr(args[1].args[0])] if args[1].op == 'i' else [W.mk('disp', args[1])])
    I.storep(st, args[0], text_cat(I, v, ps))
    return W.UNIT


@pattern(r'^<std::string::String as std::ops::Add<&.*str>>::add$')
def string_add(I, st, inst, args, at, dty, loc):
    return text_cat(I, args[0], text_pieces_of_str(I, st, args[1]))


def text_cat(I, v, ps):
    W = I.W
    if v.op == 'ite':
        return W.ite(v.args[0], text_cat(I, v.args[1], ps), text_cat(I, v.args[2], ps))
    if v.op != 'text':
        v = W.mk('text', W.mk('disp', v))
    return W.mk('text', *norm_text(list(v.args) + list(ps)))


def norm_text(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


@pattern(r'^core::fmt::rt::Argument::<.*>::new_(display|debug|lower_exp|lower_hex|upper_hex|upper_exp)$')
def new_display(I, st, inst, args, at, dty, loc):
    W = I.W
    k = inst['item'][4:]
    v = args[0]
    t = at[0]
    # through references to the shown value
    while I.tk(t)['k'] == 'ref' and v.op == 'ptr' and I.tk(I.tk(t)['e'])['k'] in ('ref',):
        v = I.load(st, v)
        t = I.tk(t)['e']
    own = own_display(I, t) if k == 'display' else None
    if own is not None:
        # the implementation of the crate, into a formatter of its own
        I.nframe += 1
        cell = ('arg', 'fmt', I.nframe)
        base = W.mk('sym', f'fmt#{I.nframe}')
        st.store[cell] = base
        I.exec_fn(st, own, [v, W.mk('ptr', cell, ())])
        return W.mk('fmtarg', k, written(I, st.store.pop(cell, base), base))
    return W.mk('fmtarg', k, disp_value(I, st, v, t))


def own_display(I, t):
    d = I.tk(t)
    if d['k'] != 'ref' or I.tk(d['e'])['k'] != 'adt':
        return None
    p = f'<{I.tk(d["e"])["s"]} as std::fmt::Display>::fmt'
    for i, x in enumerate(I.P.insts):
        if x.get('crate') == 'sgp4' and x.get('body') and p in (x['path'], x['name']):
            return i
    return None


def written(I, v, base):
    """What was written to a formatter, as a text (writing is taken to succeed)."""
    W = I.W
    if v is base:
        return W.mk('text')
    if v.op == 'ite':
        if all(W.atoms[x].op == 'fmterr' for x in I.b.support(v.args[0])):
            no = T
            for x in I.b.support(v.args[0]):
                no = I.b.AND(no, I.b.NOT(I.b.atom(x)))
            return written(I, W.restrict(v, no), base)
        return W.ite(v.args[0], written(I, v.args[1], base), written(I, v.args[2], base))
    if v.op == 'out':
        r = written(I, v.args[0], base)
        if r.op == 'text':
            return W.mk('text', *norm_text(list(r.args) + list(v.args[1:])))
    raise Unsupported('text of a nested value')


def disp_value(I, st, v, t):
    W = I.W
    d = I.tk(t)
    if d['k'] == 'ref':
        e = I.tk(d['e'])
        if e['k'] == 'str':
            ps = text_pieces_of_str(I, st, v) if v.op == 'slice' else None
            if v.op == 'ite':
                return W.ite(v.args[0], disp_value(I, st, v.args[1], t), disp_value(I, st, v.args[2], t))
            if ps and isinstance(ps[0], str):
                return W.mk('lit', ps[0])
            return I.content(st, v)
        x = I.load(st, v)
        return I.content(st, x)
    return I.content(st, v)


def decode_template(bs):
    """Pieces of a fmt::Arguments template: str literals and ('arg', index, plain)."""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]).decode('utf8', 'replace'))
            i += ln
        else:
            plain = []
            if n & 1:
                plain.append(('flags', tuple(bs[i:i + 4])))
                i += 4
            if n & 2:
                plain.append(('width', tuple(bs[i:i + 2]), bool(n & 16)))
                i += 2
            if n & 4:
                plain.append(('prec', tuple(bs[i:i + 2]), bool(n & 32)))
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('arg', nxt, tuple(plain)))
            nxt += 1
    return out


@pattern(r'^std::fmt::Arguments::<.*>::(new|new_v1|new_const|from_str|from_str_nonconst)$|^core::fmt::rt::<impl std::fmt::Arguments')
def arguments_new(I, st, inst, args, at, dty, loc):
    W = I.W
    if inst['item'].startswith('from_str'):
        return W.mk('text', *text_pieces_of_str(I, st, args[0]))
    t = args[0]
    t = I.load(st, t) if t.op == 'ptr' else t
    if t.op != 'agg' or any(x.op != 'i' for x in t.args[1:]):
        return I.external(st, inst, args, at, dty, loc)
    bs = [x.args[0] for x in t.args[1:]]
    fa = I.load(st, args[1])
    xs = fa.args[1:]
    out = []
    for p in decode_template(bs):
        if isinstance(p, str):
            out.append(p)
        else:
            a = xs[p[1]]
            if a.op == 'fmtarg':
                v = a.args[1]
                if v.op == 'lit' and not p[2]:
                    out.append(v.args[0])
                elif v.op == 'text' and not p[2]:
                    out += list(v.args)
                else:
                    out.append(W.mk('disp' if a.args[0] == 'display' and not p[2] else 'disp:' + a.args[0] + str(p[2]), v))
            else:
                out.append(W.mk('disp', a))
    return W.mk('text', *norm_text(out))


def text_of(I, st, v):
    if v.op == 'text':
        return ''.join(p if isinstance(p, str) else '{}' for p in v.args)
    if v.op == 'slice':
        return ''.join(p if isinstance(p, str) else '{}' for p in text_pieces_of_str(I, st, v))
    return ''


@native('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner')
def fmt_format(I, st, inst, args, at, dty, loc):
    return args[0]


@pattern(r'^<T as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)$')
def to_string(I, st, inst, args, at, dty, loc):
    v = I.content(st, I.load(st, args[0])) if args[0].op == 'ptr' else I.content(st, args[0])
    return I.W.mk('text', I.W.mk('disp', v))


def write_piece(I, st, p, pieces, dty):
    W = I.W
    old = I.load(st, p)
    new = W.mk('out', old, *pieces)
    I.storep(st, p, new)
    e = W.atom(W.mk('fmterr', new))
    return W.ite(e, err(W, W.UNIT), ok(W, W.UNIT))


@pattern(r'^std::fmt::Formatter::<.*>::(write_fmt|write_str|pad|write_char)$|^<std::fmt::Formatter<.*> as std::fmt::Write>::(write_fmt|write_str|write_char)$')
def fmt_write(I, st, inst, args, at, dty, loc):
    W = I.W
    a = args[1]
    if inst['item'] == 'write_fmt':
        def g(v):
            if v.op == 'ite':
                return W.ite(v.args[0], g(v.args[1]), g(v.args[2]))
            return v
        a = g(a)
        pieces = list(a.args) if a.op == 'text' else [a]
    elif inst['item'] == 'write_char':
        pieces = [chr(a.args[0])] if a.op == 'i' else [W.mk('disp', a)]
    else:
        pieces = text_pieces_of_str(I, st, a) if a.op == 'slice' else [W.mk('disp', disp_value(I, st, a, at[1]) if a.op == 'ite' else I.content(st, a))]
    return write_piece(I, st, args[0], norm_text(pieces), dty)


@pattern(r'^std::fmt::write$')
def fmt_write_free(I, st, inst, args, at, dty, loc):
    p = args[0]
    if p.op != 'ptr':
        return I.external(st, inst, args, at, dty, loc)
    a = args[1]
    return write_piece(I, st, p, list(a.args) if a.op == 'text' else [a], dty)


@pattern(r'as std::fmt::Display>::fmt$|<impl std::fmt::Display for .*>::fmt$')
def display_fmt(I, st, inst, args, at, dty, loc):
    if inst.get('own') and inst.get('body'):
        return generic_body(I, st, inst, args, at, dty, loc)
    W = I.W
    t = at[0]
    v = args[0]
    if I.tk(I.tk(t)['e'])['k'] == 'str':
        ps = text_pieces_of_str(I, st, v)
    else:
        ps = [W.mk('disp', I.content(st, I.load(st, v)) if v.op == 'ptr' else I.content(st, v))]
    return write_piece(I, st, args[1], ps, dty)


# ------------------------------------------------------------------ chrono
@pattern(r'chrono::NaiveDate::and_time$|chrono::NaiveDateTime::new$')
def chrono_datetime(I, st, inst, args, at, dty, loc):
    return I.mat(dty, I.W.mk('app', 'datetime', *[I.load(st, a) if a.op == 'ptr' else a for a in args]))


@pattern(r'chrono::NaiveDate::from_yo_opt$')
def chrono_date_yo(I, st, inst, args, at, dty, loc):
    return I.mat(dty, I.W.mk('app', 'date_yo', *args))


@pattern(r'chrono::NaiveTime::from_num_seconds_from_midnight_opt$')
def chrono_time_sn(I, st, inst, args, at, dty, loc):
    return I.mat(dty, I.W.mk('app', 'time_sn', *args))


@pattern(r'chrono::(Naive(DateTime|Date|Time)) as .*(Datelike|Timelike)>::(year|month|day|hour|minute|second|nanosecond|ordinal|month0|day0|ordinal0|num_seconds_from_midnight)$|chrono::(Timelike|Datelike)::(num_seconds_from_midnight|year|month|day|hour|minute|second|nanosecond)$')
def chrono_part(I, st, inst, args, at, dty, loc):
    W = I.W
    v = I.load(st, args[0])
    return chrono_field(I, v, inst['item'])


CHRONO_RANGE = {'year': (-262143, 262142), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59), 'nanosecond': (0, 1999999999), 'ordinal': (1, 366)}


def chrono_field(I, v, item):
    W = I.W
    if v.op == 'ite':
        return W.ite(v.args[0], chrono_field(I, v.args[1], item), chrono_field(I, v.args[2], item))
    if item == 'num_seconds_from_midnight':
        h, m, s = (chrono_field(I, v, x) for x in ('hour', 'minute', 'second'))
        return W.add(W.add(W.scale(h, 3600), m, 60), s)
    if item.endswith('0'):
        return W.add(chrono_field(I, v, item[:-1]), W.I(1), -1)
    n = W.mk('chrono', item, v, rng=CHRONO_RANGE[item])
    n.ty = 'int'
    return n


@pattern(r'chrono::NaiveDateTime as std::ops::Sub>::sub$|chrono::NaiveDateTime::signed_duration_since$')
def chrono_sub(I, st, inst, args, at, dty, loc):
    a, c = ((I.load(st, x) if x.op == 'ptr' else x) for x in args)
    return I.W.mk('dtdiff', a, c)


def delta_ns(I, d):
    """(fits 64 bits, nanoseconds) of a chrono duration."""
    W = I.W
    if d.op == 'td_ns':
        return T, d.args[0]
    n = W.mk('tdns', d, rng=(-(1 << 63), (1 << 63) - 1))
    n.ty = 'int'
    return W.atom(W.mk('tdfits', d)), n


def dt_add(I, dt, d):
    """(in range, date) of a date plus a chrono duration."""
    W = I.W
    return W.atom(W.mk('dtfits', dt, d)), W.mk('dtadd', dt, d)


@pattern(r'chrono::TimeDelta::num_nanoseconds$')
def td_num_ns(I, st, inst, args, at, dty, loc):
    W = I.W
    d = I.load(st, args[0]) if args[0].op == 'ptr' else args[0]
    fits, n = delta_ns(I, d)
    return W.ite(fits, W.mk('agg', 1, n), W.mk('agg', 0))


@pattern(r'chrono::TimeDelta::nanoseconds$')
def td_ns(I, st, inst, args, at, dty, loc):
    return I.W.mk('td_ns', args[0])


@pattern(r'chrono::NaiveDateTime::checked_(add|sub)_signed$')
def dt_checked(I, st, inst, args, at, dty, loc):
    W = I.W
    d = args[1]
    if inst['item'] == 'checked_sub_signed':
        d = W.mk('tdneg', d)
    ok, v = dt_add(I, args[0], d)
    return W.ite(ok, W.mk('agg', 1, v), W.mk('agg', 0))


# ------------------------------------------------------------------ small core helpers that use raw memory
@pattern(r'^std::option::Option::<T>::(as_mut|as_ref)$')
def option_as(I, st, inst, args, at, dty, loc):
    W = I.W
    p = args[0]
    if p.op != 'ptr':
        raise Unsupported('as_mut on conditional pointer')
    v = I.load(st, p)

    t = I.tk(I.tk(at[0])['e'])
    ft = t['variants'][1]['fields'][0][1]

    def g(x):
        if x.op == 'ite':
            return W.ite(x.args[0], g(x.args[1]), g(x.args[2]))
        if x is W.UNDEF:
            return x
        if x.op == 'agg' and x.args[0] == 1:
            return some(W, W.mk('ptr', p.args[0], p.args[1] + (('v', 1), ('f', 0, ft))))
        if x.op == 'agg':
            return none(W)
        raise Unsupported('as_mut on opaque option')
    return g(v)


@pattern(r'^std::option::Option::<T>::take$')
def option_take(I, st, inst, args, at, dty, loc):
    v = I.load(st, args[0])
    I.storep(st, args[0], none(I.W))
    return v


@pattern(r'^<.* as std::clone::Clone>::clone$')
def clone(I, st, inst, args, at, dty, loc):
    if inst.get('body') is not None and inst.get('own'):
        return generic_body(I, st, inst, args, at, dty, loc)
    return I.load(st, args[0])


@pattern(r'std::clone::impls::<impl std::clone::Clone for .*>::clone$')
def clone_prim(I, st, inst, args, at, dty, loc):
    return I.load(st, args[0])


@pattern(r'(num|convert::num)::<impl std::convert::(From|Into)<.*> for .*>::(from|into)$')
def num_from(I, st, inst, args, at, dty, loc):
    W = I.W
    d, s = I.tk(dty), I.tk(at[0])
    if d['k'] == 'float':
        if s['k'] == 'float':
            return args[0]
        v = args[0]
        if v.op == 'B':
            v = W.ite(v.args[0], W.I(1), W.I(0))
        return I.fl('i2f', v)
    v = args[0]
    if v.op == 'B':
        v = W.ite(v.args[0], W.I(1), W.I(0))
    return v


@pattern(r'convert::num::.*<impl std::convert::TryFrom<.*> for .*>::try_from$')
def num_try_from(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    t = I.tk(dty)['variants'][0]['fields'][0][1]
    lo, hi = I.int_range(t)
    v = args[0]
    c = b.AND(I.ge0(st, W.add(v, W.I(lo), -1)), I.ge0(st, W.add(W.I(hi), v, -1)))
    return W.ite(c, ok(W, v), err(W, W.mk('tryfromint_err')))


@pattern(r'core::num::<impl [ui](8|16|32|64|128|size)>::(wrapping_add|wrapping_sub|wrapping_mul|saturating_sub|saturating_add|checked_add|checked_sub|checked_mul|abs|unsigned_abs|rem_euclid|div_euclid|pow|abs_diff|overflowing_sub|overflowing_add|checked_div|checked_rem|signum)$')
def int_method(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    m = inst['item']
    t = at[0]
    lo, hi = I.int_range(t)
    a = args[0]
    c = args[1] if len(args) > 1 else None
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(m.split('_')[-1])
    if m.startswith('wrapping'):
        return I.wrap(st, I.int_bin(st, op, a, c, t), t)
    if m.startswith(('checked', 'saturating', 'overflowing')) and op:
        r = I.int_bin(st, op, a, c, t)
        ge, le_ = I.ge0(st, W.add(r, W.I(lo), -1)), I.ge0(st, W.add(W.I(hi), r, -1))
        if m.startswith('checked'):
            return W.ite(b.AND(ge, le_), some(W, r), none(W))
        if m.startswith('overflowing'):
            return W.mk('agg', None, I.wrap(st, r, t), W.B(b.NOT(b.AND(ge, le_))))
        return W.ite(ge, W.ite(le_, r, W.I(hi)), W.I(lo))
    if m == 'abs' or m == 'unsigned_abs':
        neg = b.NOT(I.ge0(st, a))
        if m == 'abs':
            require(I, st, b.NOT(I.eq0(st, W.add(a, W.I(lo), -1))), 'abs-overflow', loc)
        return W.ite(neg, W.scale(a, -1), a)
    if m == 'abs_diff':
        d = W.add(a, c, -1)
        return W.ite(I.ge0(st, d), d, W.scale(d, -1))
    if m in ('rem_euclid', 'div_euclid') and c.op == 'i' and c.args[0] > 0:
        k = c.args[0]
        r = W.map_int(a, (lambda x: x % k) if m == 'rem_euclid' else (lambda x: x // k), m)
        if r is not None:
            return r
        if I.rng(st, a)[0] >= 0:
            return I.int_bin(st, 'Rem' if m == 'rem_euclid' else 'Div', a, c, t)
        al, ah = I.rng(st, a)
        return W.mk('i' + m, a, k, rng=(0, k - 1) if m == 'rem_euclid' else (al // k, ah // k), ty='int')
    if m == 'pow' and c.op == 'i':
        r = W.I(1)
        for _ in range(c.args[0]):
            r = I.int_bin(st, 'Mul', r, a, t)
        l, h = I.rng(st, r)
        if l < lo or h > hi:
            require(I, st, b.AND(I.ge0(st, W.add(r, W.I(lo), -1)), I.ge0(st, W.add(W.I(hi), r, -1))), 'pow-overflow', loc)
        return r
    return generic_body(I, st, inst, args, at, dty, loc)


@pattern(r'^std::cmp::(min|max)$|^std::cmp::Ord::(min|max|clamp)$|cmp::impls::<impl std::cmp::Ord for [ui].*>::(min|max|clamp|cmp)$|intrinsics::(integer_max|integer_min)$')
def ord_minmax(I, st, inst, args, at, dty, loc):
    W, b = I.W, I.b
    if I.tk(at[0])['k'] != 'int':
        if inst['item'] == 'cmp' and I.tk(at[0])['k'] == 'ref':
            return I.binop(st, 'Cmp', I.load(st, args[0]), I.load(st, args[1]), dty, I.tk(at[0])['e'])
        return generic_body(I, st, inst, args, at, dty, loc)
    m = inst['item'].split('_')[-1]
    if m == 'clamp':
        a, lo, hi = args
        r = W.ite(le(I, st, a, lo), lo, a)
        return W.ite(le(I, st, hi, r), hi, r)
    a, c = args
    l = le(I, st, a, c)
    return W.ite(l, a, c) if m == 'min' else W.ite(l, c, a)


def find(inst):
    h = float_path(inst)
    if h is not None:
        return h
    return lookup(inst)
