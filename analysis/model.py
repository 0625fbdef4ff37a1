"""Models of the external functions reached from the repository, as transformers of the value terms.

They state what the Rust standard library, rayon, and concrete-core (the pinned, audited dependency)
do at the granularity the properties speak about.
"""
import re
import terms as X
from terms import (T, mk, INT, ZERO, ONE, UNIT, UNDEF, N, TAU, add, sub, mul, scale, neg, div, rem, pow2, xpow, EQ, LT,
                   LE, NOT, AND, OR, ge0, eq0, proj, merge, weak, opq, mk_arr, close_arr, mk_struct, length, discr,
                   payload, subst, simp, is_ring, poly, mk_sum, close_sum, coef, fc, fresh, app)
from engine import (ref, rproj, tup, some, ok, opt, NONE, GLWE, GGSW, FGGSW, POLY, RING, push, put, upd, is_arrayish,
                    Diverge, shape, State)

CC = 'concrete_core::'
X.POLY_TYPES |= {
    'poly',
    CC + 'commons::math::tensor::tensor::Tensor',
    CC + 'commons::crypto::encoding::plaintext::PlaintextList',
    CC + 'commons::crypto::secret::glwe::GlweSecretKey',
    CC + 'commons::crypto::secret::lwe::LweSecretKey',
    CC + 'commons::math::polynomial::polynomial::Polynomial',
}
X.NF_EXTRA.update({GLWE[1]: 2, GGSW[1]: 3, FGGSW[1]: 3})
X.FIELD_NAMES.update({GLWE[1]: ('mask', 'body'), GGSW[1]: ('rows', 'bl', 'lc'), FGGSW[1]: ('rows', 'bl', 'lc')})


def _ggsw_field(ty, name, variant):
    if name == 'rows':
        return ('slice', GLWE)
    return RING


X.FIELD_EXTRA[GGSW[1]] = _ggsw_field
X.FIELD_EXTRA[FGGSW[1]] = _ggsw_field
X.FIELD_EXTRA['core::option::Option'] = lambda ty, n, v: ty[2][0] if ty[2] else None
X.FIELD_EXTRA['core::result::Result'] = lambda ty, n, v: ty[2][v] if len(ty[2]) > v else None


def newtype(path, val):
    X.EXTRA[path] = lambda t, ty: mk('struct', path, ((0, val),))


newtype(CC + 'specification::parameters::PolynomialSize', N)
newtype(CC + 'specification::parameters::PlaintextCount', N)
newtype(CC + 'specification::parameters::GlweDimension', ONE)


FPOLY = CC + 'backends::fft::private::math::polynomial::FourierPolynomial'
X.EXTRA[FPOLY] = lambda t, ty: mk('struct', FPOLY, ((0, mk('fvec', mk('pol', t))),))
for _p in ('commons::crypto::encoding::plaintext::Plaintext', 'commons::crypto::encoding::cleartext::Cleartext'):
    X.NF_EXTRA[CC + _p] = 1
    X.FIELD_EXTRA[CC + _p] = lambda ty, n, v: RING


def nt(path, v):
    return mk('struct', path, ((0, v),))


PSIZE = nt(CC + 'specification::parameters::PolynomialSize', N)
X.PS_APPS |= {'Zm', 'Zb', 'closest', 'dec', 'genpoly', 'evalxk', 'polyfn'}


def setup_terms(lib):
    """types of the local data structures"""
    from ir import conv_ty
    for p, a in lib.adts.items():
        X.ADT[p] = {'enum': a['enum'],
                    'variants': [(v['n'], [(f['n'], conv_ty(f['ty'])) for f in v['fields']]) for v in a['variants']]}
    # GlweSecretKey, Tensor, Polynomial, PlaintextList contents
    for p, d in lib.adts.items():
        X.ADT['panacea::' + p] = X.ADT[p]
    X.FIELD_RULE.clear()
    for p in ('codec::Codec', 'panacea::codec::Codec'):
        # invariant of the codec, established by its constructor (obligations of C26)
        ns = [n for n, _ in X.ADT[p]['variants'][0][1]] if p in X.ADT else []
        if 'delta' in ns and 'decomposer' in ns:
            dec, ty = ns.index('decomposer'), X.ADT[p]['variants'][0][1][ns.index('decomposer')][1]
            X.FIELD_RULE[p, ns.index('delta')] = lambda v, d=dec: pow2(sub(INT(64), proj(proj(v, d), 'bl')))
            X.FIELD_RULE[p, dec] = lambda v, d=dec, ty=ty: mk_struct('Decomposer', (('bl', proj(X.sel('fld', v, d, ty=ty), 'bl')), ('lc', ONE)))


def short(path):
    out = []
    d = 0
    cur = ''
    # drop balanced <...>
    i = 0
    while i < len(path):
        ch = path[i]
        if ch == '<':
            d += 1
        elif ch == '>' and not (i and path[i - 1] == '-'):
            d -= 1
        elif d == 0:
            cur += ch
        i += 1
    segs = [s for s in cur.split('::') if s]
    return '::'.join(segs[-2:]) if len(segs) >= 2 else (segs[0] if segs else path)


M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def install(E):
    memo = {}

    def by_name(fn):
        if fn.path in memo:
            return memo[fn.path]
        s = short(fn.path)
        if 'bitvec::' in fn.path:
            s = 'bitvec::' + s.split('::')[-1]
        f = M.get(s) or M.get('*::' + s.split('::')[-1])
        memo[fn.path] = f
        return f
    E.model_by_name = by_name


# ------------------------------------------------------------------ identity-like
def ident(E, st, a, fn, dty):
    return a[0]


def newloc(E, st, a, fn, dty):
    """as_view / deref / borrow style: a reference to the content"""
    v = a[0]
    if v.op in ('ref', 'iteref'):
        return E.norm(st, v, True)
    return v


for n in ('FromResidual::from_residual', 'ToString::to_string', 'IntoIterator::into_iter_', 'Box::new', 'Arc::new', 'Rc::new',
          'Mutex::new', 'RwLock::new', 'RefCell::new', 'Cell::new', 'vec::into_boxed_slice', 'Vec::into_boxed_slice', 'convert::identity', 'identity',
          'From::from_', 'hint::black_box', 'hint::must_use', 'Vec::into_iter_', 'Result::expect_', 'ManuallyDrop::new', 'Some', 'Vec::from', 'Box::from', 'slice::into_vec',
          'Duration::from_', 'Mutex::into_inner_', 'Pin::new', 'DynStack::new', 'ReborrowMut::rb_mut', 'GlobalMemBuffer::new', 'StackReq::and', 'Reborrow::rb'):
    M[n.rstrip('_')] = ident

for n in ('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
          'Vec::as_slice', 'Vec::as_mut_slice', 'AsMutTensor::as_mut_tensor', 'AsRefTensor::as_tensor',
          'AsMutSlice::as_mut_slice', 'AsRefSlice::as_slice', 'Tensor::as_slice', 'Tensor::as_mut_slice', 'Tensor::as_container',
          'PlaintextList::as_mut_polynomial', 'PlaintextList::as_polynomial',
          'GlweBody::as_mut_polynomial', 'GlweBody::as_polynomial',
          'GlweMask::as_mut_polynomial_list', 'GlweMask::as_polynomial_list',
          'GlweSecretKey::as_polynomial_list',
          'GlweCiphertext::as_mut_view', 'GlweCiphertext::as_view', 'Polynomial::as_view', 'Polynomial::as_mut_view',
          'StandardGgswCiphertext::as_view', 'StandardGgswCiphertext::as_mut_view',
          'FourierGgswCiphertext::as_view', 'FourierGgswCiphertext::as_mut_view',
          'FourierPolynomial::as_view', 'FourierPolynomial::as_mut_view', 'FourierPolynomial::into_uninit',
          'Polynomial::into_uninit', 'polynomial::into_uninit', 'Fft::as_view', 'Box::as_mut', 'Box::as_ref', 'Arc::as_ref', 'String::as_str',
          'GgswLevelRow::into_glwe', 'Mutex::get_mut', 'RwLock::get_mut'):
    M[n] = newloc


def unit(E, st, a, fn, dty):
    return UNIT


for n in ('mem::drop', 'drop', 'Vec::reserve', 'Vec::shrink_to_fit', '_eprint', 'Vec::reserve_exact', 'mem::forget'):
    M[n] = unit


def diverge(E, st, a, fn, dty):
    raise Diverge()


for n in ('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'panicking::panic_display', 'panicking::unreachable_display',
          'process::exit', 'rt::begin_panic', 'panicking::panic_explicit', 'panicking::panic_str_2015', 'option::expect_failed', 'option::unwrap_failed'):
    M[n] = diverge


@model('fmt::format', 'panicking::todo_default_msg', 'todo_default_msg', 'fmt::format::format_inner')
def m_fmt(E, st, a, fn, dty):
    if E.out is not None and a:
        ts = fmt_args_tokens(a[0])
        return weak('formatted text') if ts is None else mk_struct('Text', (('t', mk('list', *ts)),))
    return mk('cst', 'fmt', '')


def fmt_args_tokens(x):
    return fmt_tokens(proj(x, 't'), proj(x, 'a')) if x.op == 'struct' and x.a[0] == 'FmtArgs' else None


def text_tokens(v):
    """the pieces a string value consists of"""
    if v.op == 'str':
        return [v]
    if v.op == 'struct' and v.a[0] == 'Text':
        return list(proj(v, 't').a)


@model('ToString::to_string')
def m_to_string(E, st, a, fn, dty):
    if E.out is None:
        return a[0]
    return mk_struct('Text', (('t', mk('list', *shown(E, st, a[0], fn, 'new_display', ''))),))


@model('String::new', 'String::with_capacity')
def m_string_new(E, st, a, fn, dty):
    return mk_struct('Text', (('t', mk('list')),)) if E.out is not None else opq('string', None)


@model('String::push_str', 'String::push', 'fmt::Write::write_str', 'String::write_str')
def m_push_str(E, st, a, fn, dty):
    if E.out is not None:
        r = E.at(st, a[0])
        x = E.val(st, a[1])
        o, s = text_tokens(E.read(st, r)), text_tokens(x)
        if fn.name == 'push':
            s = [mk('str', chr(x.a[0]))] if x.op == 'int' and x.a[0] < 0x110000 else None
        E.write(st, r, weak('string contents') if o is None or s is None else mk_struct('Text', (('t', mk('list', *(o + s))),)))
    return UNIT if fn.name != 'write_str' else ok(UNIT)


@model('slice::join', 'Join::join', 'slice::concat', 'Concat::concat')
def m_join(E, st, a, fn, dty):
    if E.out is None:
        return weak('joined slices')
    l = E.val(st, a[0])
    n = length(l)
    if n.op == 'int' and n.a[0] <= 64:
        xs = [text_tokens(E.val(st, proj(l, ('i', INT(i))))) for i in range(n.a[0])]
        sep = text_tokens(E.val(st, a[1])) if len(a) > 1 else []
        if sep is not None and all(x is not None for x in xs):
            return mk_struct('Text', (('t', mk('list', *[t for i, x in enumerate(xs) for t in (sep if i else []) + x])),))
    return weak('joined strings')


def shown(E, st, x, fn, how, opts):
    """the pieces of one formatted value"""
    v = E.val(st, x)
    t = fn.args[0] if fn is not None and fn.args else None
    while t is not None and t[0] == 'ref':
        t = t[1]
    s = text_tokens(v)
    if s is not None:
        return s if how == 'new_display' and not opts else [weak('formatted string')]
    if v.op == 'int' and not opts and how in ('new_display', 'new_debug') and t is not None and t[0] == 'prim' and t[1] != 'char':
        return [mk('str', str(v.a[0]))]
    if t is None or t[0] == 'param' or t in (('prim', 'str'), ('prim', 'char')) or t[0] == 'adt' and t[1].endswith('string::String') or t[0] in ('other', 'dyn'):
        return [weak('text of a string value')]
    return [mk_struct('Out', (('v', v), ('how', mk('str', how[4:] + opts))))]


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_exp', 'Argument::new_lower_hex', 'Argument::new_binary')
def m_fmtarg(E, st, a, fn, dty):
    if E.out is None:
        return mk('cst', 'fmt', '')
    return mk_struct('FmtArg', tuple((n, mk('list', *shown(E, st, a[0], fn, fn.name, n))) for n in ('', 'opts')))


@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::new_v1')
def m_fmtargs(E, st, a, fn, dty):
    if E.out is None:
        return mk('cst', 'fmt', '')
    return mk_struct('FmtArgs', (('t', E.val(st, a[0])), ('a', E.val(st, a[1]) if len(a) > 1 else mk('list'))))


def fmt_tokens(t, args):
    """the pieces of a format template (see core::fmt::Arguments)"""
    if t.op == 'str':
        return [t]
    if t.op != 'bytes' or args.op != 'list':
        return None
    b, i, nxt, out = bytes(t.a[0]), 0, 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80 or n == 0x80:
            if n == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(mk('str', b[i:i + n].decode('utf-8', 'replace')))
            i += n
            continue
        if n < 0xc0 or n & 0x30:
            return None
        opts = b''
        for f, w in ((1, 4), (2, 2), (4, 2)):
            if n & f:
                opts += bytes([f]) + b[i:i + w]
                i += w
        if n & 8:
            nxt = b[i] | b[i + 1] << 8
            i += 2
        if nxt >= len(args.a):
            return None
        x = args.a[nxt]
        nxt += 1
        if not (x.op == 'struct' and x.a[0] == 'FmtArg'):
            return None
        out.extend(proj(x, 'opts' if opts else '').a)
    return out


@model('stdio::_print', 'io::_print', '_print')
def m_print(E, st, a, fn, dty):
    if E.out is not None:
        ts = fmt_args_tokens(a[0])
        for t in [weak('printed text')] if ts is None else ts:
            E.push(st, ref(E.out), t)
    return UNIT


# clone
@model('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Option::cloned', 'Option::copied', 'clone::Clone::clone')
def m_clone(E, st, a, fn, dty):
    t = fn.args[0] if fn.args else None
    x = a[0]
    if t is not None and t[0] == 'adt' and t[1] in X.TRANSPARENT and ('Arc' in t[1] or 'Rc' in t[1]):
        # a new handle to the same object
        r = E.norm(st, x)
        v = E.read(st, r) if r.op == 'ref' else r
        if v.op in ('ref', 'iteref'):
            return v
        if r.op == 'ref':
            E.pinned.add(r.a[0])
        return r
    if fn.name in ('cloned', 'copied'):
        v = E.val(st, x)
        d = discr(v)
        return opt(d, E.val(st, payload(v, 1, 0)))
    v = E.val(st, x)
    return v


@model('Clone::clone_from', 'Tensor::fill_with_copy', 'slice::clone_from_slice', 'slice::copy_from_slice', 'LweCiphertext::fill_with_copy')
def m_copyfrom(E, st, a, fn, dty):
    v = E.val(st, a[1])
    assign_content(E, st, a[0], v)
    return UNIT


def assign_content(E, st, dst, v):
    r = E.at(st, dst)
    if r is None:
        E.note('assign through value')
        E.havoc(st)
        return
    old = E.read(st, r)
    kind_old, kind_new = ckind(old), ckind(v)
    if kind_old == kind_new or v.op == 'weak' or old.op in ('weak', 'undef'):
        E.write(st, r, v)
        return
    if kind_old == 'poly' and kind_new == 'arr':
        E.write(st, r, arr_to_poly(v, st.f))
        return
    if kind_old == 'arr' and kind_new == 'poly':
        E.write(st, r, mk_arr(length(old), lambda i: coef(v, i)))
        return
    if kind_old == 'glwe' and kind_new == 'arr':
        m = mk_sum(N, lambda t: mul(proj(v, ('i', t)), xpow(t)), st.f)
        b = mk_sum(N, lambda t: mul(proj(v, ('i', add(t, N))), xpow(t)), st.f)
        E.write(st, r, mk_struct('Glwe', (('mask', m), ('body', b))))
        return
    E.write(st, r, weak('content copy %s <- %s' % (kind_old, kind_new)))


def ckind(v):
    if v.op == 'weak':
        return 'weak'
    if (v.op == 'struct' and v.a[0] == 'Glwe') or X.is_glwe(v):
        return 'glwe'
    if v.op == 'fvec':
        return 'fvec'
    if v.op in ('arr', 'list') or is_arrayish(v):
        return 'arr'
    if is_ring(v):
        return 'poly'
    return v.op


def arr_to_poly(v, f=X.NOFACTS):
    if is_ring(v) and not is_arrayish(v):
        return v
    if v.op == 'weak':
        return v
    return mk_sum(N, lambda t: mul(proj(v, ('i', t)), xpow(t)), f)


def as_poly(E, st, x):
    v = E.val(st, x)
    if v.op in ('arr', 'list') or is_arrayish(v):
        return arr_to_poly(v, st.f)
    if v.op == 'struct' and len(v.a[1]) == 1 and v.a[0] != 'Glwe':
        return as_poly(E, st, v.a[1][0][1])
    return v


# ------------------------------------------------------------------ Option / Result
@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def m_unwrap(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if v.op == 'weak':
        return v
    d = discr(v)
    if is_ring(d):
        if d is ZERO:
            raise Diverge()
        E.guard(d)
        st.f = st.f.plus_cond(d)
    return payload(v, 1, 0)


@model('Result::unwrap', 'Result::expect')
def m_runwrap(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if v.op == 'enum' or (v.op not in ('struct', 'arr') and X.ty_of(v) and X.ty_of(v)[0] == 'adt' and X.ty_of(v)[1].endswith('Result')):
        return payload(v, 0, 0)
    return a[0]


@model('RwLock::read', 'RwLock::write', 'Mutex::lock', 'RwLock::try_read', 'RwLock::try_write', 'Mutex::try_lock')
def m_lock(E, st, a, fn, dty):
    return ok(newloc(E, st, a, fn, dty))


@model('Option::is_some')
def m_is_some(E, st, a, fn, dty):
    return discr(E.val(st, a[0]))


@model('Option::is_none')
def m_is_none(E, st, a, fn, dty):
    d = discr(E.val(st, a[0]))
    return NOT(d) if is_ring(d) else d


@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref')
def m_opt_ref(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.val(st, a[0])
    if r is None or r.op != 'ref':
        return v
    d = discr(v)
    return opt(d, rproj(rproj(r, ('v', 1)), 0)) if is_ring(d) else d


def gated(E, st, c, ft, ff):
    """run ft under c and ff otherwise, join"""
    c = simp(c, st.f) if is_ring(c) else c
    if c is ONE:
        return ft(st)
    if c is ZERO:
        return ff(st)
    if not is_ring(c):
        return weak('choice on unknown')
    s1, s2 = st.copy(), st.copy()
    s1.f = s1.f.plus_cond(c)
    s2.f = s2.f.plus_cond(NOT(c))
    r1 = r2 = None
    try:
        r1 = ft(s1)
    except Diverge:
        r1 = None
    try:
        r2 = ff(s2)
    except Diverge:
        r2 = None
    if r1 is None and r2 is None:
        raise Diverge()
    if r1 is None:
        st.c = s2.c
        st.f = s2.f
        return r2
    if r2 is None:
        st.c = s1.c
        st.f = s1.f
        return r1
    j = E.join(c, s1, s2)
    st.c = j.c
    return merge(c, r1, r2)


@model('Option::map', 'Option::and_then', 'Option::map_or', 'Option::map_or_else', 'Option::unwrap_or', 'Option::unwrap_or_else',
       'Option::or', 'Option::ok_or', 'Option::ok_or_else', 'Option::is_some_and', 'Option::filter')
def m_opt(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if v.op == 'weak':
        return E.unknown_call(st, fn.name, a[1:]) if False else v
    d = discr(v)
    n = fn.name
    if not is_ring(d):
        return weak('option')
    if n == 'map':
        return gated(E, st, d, lambda s: some(E.call_value(s, a[1], [payload(v, 1, 0)])), lambda s: NONE)
    if n == 'and_then':
        return gated(E, st, d, lambda s: E.call_value(s, a[1], [payload(v, 1, 0)]), lambda s: NONE)
    if n == 'map_or':
        return gated(E, st, d, lambda s: E.call_value(s, a[2], [payload(v, 1, 0)]), lambda s: a[1])
    if n == 'map_or_else':
        return gated(E, st, d, lambda s: E.call_value(s, a[2], [payload(v, 1, 0)]), lambda s: E.call_value(s, a[1], []))
    if n == 'unwrap_or':
        return gated(E, st, d, lambda s: payload(v, 1, 0), lambda s: a[1])
    if n == 'unwrap_or_else':
        return gated(E, st, d, lambda s: payload(v, 1, 0), lambda s: E.call_value(s, a[1], []))
    if n == 'or':
        return gated(E, st, d, lambda s: v, lambda s: a[1])
    if n in ('ok_or', 'ok_or_else'):
        return mk('enum', NOT(d), ((0, ((0, payload(v, 1, 0)),)), (1, ((0, mk('cst', 'err', '')),))))
    if n == 'is_some_and':
        return gated(E, st, d, lambda s: E.call_value(s, a[1], [payload(v, 1, 0)]), lambda s: ZERO)
    return weak('Option::' + n)


@model('Option::unwrap_or_default')
def m_unwrap_default(E, st, a, fn, dty):
    v = E.val(st, a[0])
    d = discr(v)
    if v.op == 'weak' or not is_ring(d):
        return weak('option')
    return gated(E, st, d, lambda s: payload(v, 1, 0), lambda s: m_default(E, s, [], fn, dty))


@model('Result::map', 'Result::ok', 'Result::err', 'Result::unwrap_or', 'Result::unwrap_or_else', 'Result::map_err', 'Result::is_ok', 'Result::is_err',
       'Result::and_then', 'Result::map_or')
def m_res(E, st, a, fn, dty):
    v = E.val(st, a[0])
    d = discr(v) if v.op != 'weak' else v
    n = fn.name
    if not is_ring(d):
        return weak('Result::' + n)
    okv, errv = (lambda s: payload(v, 0, 0)), (lambda s: payload(v, 1, 0))
    if n in ('is_ok', 'is_err'):
        return d if n == 'is_err' else NOT(d)
    if n == 'ok':
        return gated(E, st, d, lambda s: NONE, lambda s: some(okv(s)))
    if n == 'err':
        return gated(E, st, d, lambda s: some(errv(s)), lambda s: NONE)
    if n == 'unwrap_or':
        return gated(E, st, d, lambda s: a[1], okv)
    if n == 'unwrap_or_else':
        return gated(E, st, d, lambda s: E.call_value(s, a[1], [errv(s)]), okv)
    if n == 'map_or':
        return gated(E, st, d, lambda s: a[1], lambda s: E.call_value(s, a[2], [okv(s)]))
    if n == 'and_then':
        return gated(E, st, d, lambda s: v, lambda s: E.call_value(s, a[1], [okv(s)]))
    if n == 'map':
        return gated(E, st, d, lambda s: v, lambda s: ok(E.call_value(s, a[1], [okv(s)])))
    if n == 'map_err' and d is ZERO:
        return v
    return weak('Result::' + n)


@model('Try::branch')
def m_branch(E, st, a, fn, dty):
    v = E.val(st, a[0])
    ty = fn.args[0] if fn.args else None
    d = discr(v)
    if ty and ty[0] == 'adt' and ty[1].endswith('Option') and is_ring(d):
        # ControlFlow: 0 Continue, 1 Break
        return mk('enum', NOT(d), ((0, ((0, payload(v, 1, 0)),)), (1, ((0, NONE),))))
    if is_ring(d):
        return mk('enum', d, ((0, ((0, payload(v, 0, 0)),)), (1, ((0, v),))))
    return weak('?')


# ------------------------------------------------------------------ integers
def ring1(E, st, x):
    return E.val(st, x)


@model('num::wrapping_add', 'Add::add', 'num::unchecked_add')
def m_add(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    if isfloat(fn):
        return E.binop(st, 'Add', x, y, ('prim', 'f64'))
    if not (is_ring(x) and is_ring(y)):
        return weak('add')
    return add(x, y)


def isfloat(fn):
    return bool(fn.args) and fn.args[0] in (('prim', 'f64'), ('prim', 'f32'))


@model('num::wrapping_sub', 'Sub::sub')
def m_sub(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    if isfloat(fn):
        return E.binop(st, 'Sub', x, y, ('prim', 'f64'))
    if not (is_ring(x) and is_ring(y)):
        return weak('sub')
    return sub(x, y)


@model('num::wrapping_mul', 'Mul::mul')
def m_mul(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    if isfloat(fn):
        return E.binop(st, 'Mul', x, y, ('prim', 'f64'))
    if not (is_ring(x) and is_ring(y)):
        return weak('mul')
    return mul(x, y)


@model('Div::div')
def m_div(E, st, a, fn, dty):
    t = fn.args[0] if fn.args else None
    while t and t[0] == 'ref':
        t = t[1]
    return E.binop(st, 'Div', ring1(E, st, a[0]), ring1(E, st, a[1]), t)


@model('Rem::rem')
def m_rem(E, st, a, fn, dty):
    return rem(ring1(E, st, a[0]), ring1(E, st, a[1]))


@model('Neg::neg', 'num::wrapping_neg')
def m_neg(E, st, a, fn, dty):
    return neg(ring1(E, st, a[0]))


@model('AddAssign::add_assign')
def m_adda(E, st, a, fn, dty):
    o = E.val(st, a[0])
    if o.op == 'struct' and o.a[0] == 'Text':
        return m_push_str(E, st, a, fn, dty)
    E.write(st, E.at(st, a[0]), m_add(E, st, [o, a[1]], fn, None))
    return UNIT


@model('SubAssign::sub_assign')
def m_suba(E, st, a, fn, dty):
    o = E.val(st, a[0])
    E.write(st, E.at(st, a[0]), m_sub(E, st, [o, a[1]], fn, None))
    return UNIT


@model('MulAssign::mul_assign')
def m_mula(E, st, a, fn, dty):
    o = E.val(st, a[0])
    E.write(st, E.at(st, a[0]), m_mul(E, st, [o, a[1]], fn, None))
    return UNIT


@model('num::wrapping_shl', 'num::unbounded_shl', 'Shl::shl')
def m_shl(E, st, a, fn, dty):
    return mul(ring1(E, st, a[0]), pow2(ring1(E, st, a[1])))


@model('num::wrapping_shr', 'Shr::shr')
def m_shr(E, st, a, fn, dty):
    return div(ring1(E, st, a[0]), pow2(ring1(E, st, a[1])))


@model('num::leading_zeros')
def m_lz(E, st, a, fn, dty):
    x = ring1(E, st, a[0])
    if x.op == 'int':
        return INT(64 - (x.a[0] & (X.M64 - 1)).bit_length())
    return sub(INT(63), app('log2', x)) if is_ring(x) else x


@model('num::ilog2')
def m_il2(E, st, a, fn, dty):
    x = ring1(E, st, a[0])
    return mklog2(x)


@model('num::trailing_zeros')
def m_tz(E, st, a, fn, dty):
    # equals log2 for powers of two, the only use the session makes of it on N
    x = ring1(E, st, a[0])
    return app('log2', x) if x is N else app('tz', x)


@model('num::count_ones')
def m_popcnt(E, st, a, fn, dty):
    x = ring1(E, st, a[0])
    if x.op == 'int':
        return INT((x.a[0] & (X.M64 - 1)).bit_count())
    return app('popcnt', x) if is_ring(x) else x


def mklog2(x):
    if x.op == 'int' and x.a[0] > 0:
        return INT(x.a[0].bit_length() - 1)
    return app('log2', x)


@model('num::is_power_of_two')
def m_ip2(E, st, a, fn, dty):
    x = ring1(E, st, a[0])
    if x is N:
        return ONE
    t = app('ispow2', x)
    t.ind = True
    return t


@model('num::pow')
def m_pow(E, st, a, fn, dty):
    x, e = ring1(E, st, a[0]), ring1(E, st, a[1])
    if x.op == 'int' and x.a[0] > 0 and x.a[0] & (x.a[0] - 1) == 0:
        return pow2(scale(e, x.a[0].bit_length() - 1))
    if e.op == 'int' and 0 <= e.a[0] <= 8:
        return mul(*([x] * e.a[0])) if e.a[0] else ONE
    return app('pow', x, e)


@model('cmp::max', 'Ord::max', 'num::max')
def m_max(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    if isfloat(fn) or not (is_ring(x) and is_ring(y)):
        return app('fmax', *sorted((x, y), key=lambda t: t.id))
    return X.MAX(x, y, st.f)


@model('cmp::min', 'Ord::min')
def m_min(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    return X.MIN(x, y, st.f)


@model('num::saturating_sub')
def m_satsub(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    return X.MAX(sub(x, y), ZERO, st.f)


@model('num::checked_sub')
def m_chsub(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    return opt(simp(LE(y, x), st.f), sub(x, y))


@model('num::checked_add', 'num::checked_mul')
def m_chadd(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    return some(add(x, y) if fn.name == 'checked_add' else mul(x, y))


@model('num::div_ceil')
def m_divceil(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    return div(sub(add(x, y), ONE), y)


@model('num::abs_diff')
def m_absdiff(E, st, a, fn, dty):
    x, y = ring1(E, st, a[0]), ring1(E, st, a[1])
    return merge(LE(y, x), sub(x, y), sub(y, x))


@model('num::abs', 'num::unsigned_abs', 'num::wrapping_abs')
def m_abs(E, st, a, fn, dty):
    x = ring1(E, st, a[0])
    return app('abs', x)


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(E, st, a, fn, dty):
    x, y = E.val(st, a[0]), E.val(st, a[1])
    r = veq(E, st, x, y)
    return r if fn.name == 'eq' else (NOT(r) if is_ring(r) else r)


def scalarty(x):
    t = X.ty_of(x)
    return t is None or t[0] == 'prim' and t[1] != 'f64'


def veq(E, st, x, y):
    f = st.f
    x, y = (E.val(st, v) if v.op in ('ref', 'iteref') else v for v in (x, y))
    if x is y and x.op != 'weak':
        return ONE
    if is_ring(x) and is_ring(y) and (scalarty(x) and scalarty(y) or x.op == 'int' or y.op == 'int'):
        if x.ps or y.ps:
            t = app('eqv', *sorted((x, y), key=lambda t: t.id))
            t.ind = True
            return t
        return simp(EQ(x, y), f)
    if x.op == 'struct' and y.op == 'struct' and x.a[0] == y.a[0]:
        r = ONE
        for (n, u), (_, v) in zip(x.a[1], y.a[1]):
            e = veq(E, st, u, v)
            if not is_ring(e):
                return e
            r = mul(r, e)
        return r
    if x.op == 'enum' or y.op == 'enum':
        dx, dy = discr(x), discr(y)
        if is_ring(dx) and is_ring(dy):
            both = simp(EQ(dx, dy), f)
            parts = {}
            for e in (x, y):
                if e.op == 'enum':
                    for v, fs in e.a[1]:
                        for n, _ in fs:
                            parts.setdefault(v, set()).add(n)
            for v, ns in sorted(parts.items()):
                if simp(mul(EQ(dx, INT(v)), EQ(dy, INT(v))), f) is ZERO:
                    continue
                g = ONE
                for n in sorted(ns, key=str):
                    p = [payload(z, v, n) for z in (x, y)]
                    if any(z.op in ('undef', 'weak') for z in p):
                        return weak('eq')
                    e = veq(E, st, *p)
                    if not is_ring(e):
                        return e
                    g = mul(g, e)
                both = mul(both, merge(EQ(dx, INT(v)), g, ONE))
            return both
    if x.op == 'str' and y.op == 'str':
        return ONE if x is y else ZERO
    if x.op == 'weak' or y.op == 'weak':
        return weak('eq')
    ids = sorted((x, y), key=lambda t: t.id)
    t = app('eqv', *ids)
    t.ind = True
    return t


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_cmp(E, st, a, fn, dty):
    t = fn.args[0] if fn.args else None
    while t and t[0] == 'ref':
        t = t[1]
    return E.binop(st, fn.name.capitalize(), E.val(st, a[0]), E.val(st, a[1]), t)


@model('f64::log2', 'f64::ceil', 'f64::powf', 'f64::powi', 'f64::abs', 'f64::sqrt', 'f64::round', 'f64::floor', 'f64::ln', 'f64::log10', 'f64::max', 'f64::exp2')
def m_float(E, st, a, fn, dty):
    return app('f_' + fn.name, *[E.val(st, x) for x in a])


@model('mem::size_of')
def m_sizeof(E, st, a, fn, dty):
    t = fn.args[0] if fn.args else None
    sz = {'usize': 8, 'u64': 8, 'i64': 8, 'u32': 4, 'u8': 1, 'f64': 8}
    if t and t[0] == 'prim' and t[1] in sz:
        return INT(sz[t[1]])
    return app('size_of', mk('cst', str(t), ''))


@model('mem::swap')
def m_swap(E, st, a, fn, dty):
    x, y = E.read(st, E.norm(st, a[0])), E.read(st, E.norm(st, a[1]))
    ra, rb = E.norm(st, a[0]), E.norm(st, a[1])
    vx, vy = E.read(st, ra), E.read(st, rb)
    E.write(st, ra, vy)
    E.write(st, rb, vx)
    return UNIT


@model('mem::replace')
def m_replace(E, st, a, fn, dty):
    r = E.norm(st, a[0])
    v = E.read(st, r)
    E.write(st, r, a[1])
    return v


@model('Option::take')
def m_take_opt(E, st, a, fn, dty):
    r = E.norm(st, a[0])
    v = E.read(st, r)
    E.write(st, r, NONE)
    return v


@model('From::from', 'Into::into', 'TryFrom::try_from', 'TryInto::try_into')
def m_from(E, st, a, fn, dty):
    if fn.name.startswith('try'):
        return ok(a[0])
    return a[0]


@model('Default::default')
def m_default(E, st, a, fn, dty):
    t = fn.args[0] if fn.args else None
    if t is None:
        return weak('default')
    if t[0] == 'prim':
        return ZERO if t[1] != 'f64' else mk('flt', '0.0')
    if t[0] == 'adt' and t[1] == 'alloc::vec::Vec':
        return mk('list')
    if t[0] == 'adt' and 'Complex' in t[1]:
        return ZERO
    if t[0] == 'adt' and t[1].endswith('Option'):
        return NONE
    return weak('default of %s' % (t,))


# ------------------------------------------------------------------ sequences
@model('Box::new_uninit')
def m_boxuninit(E, st, a, fn, dty):
    return mk_struct('MaybeUninit', ((1, mk_struct('ManuallyDrop', ((0, UNDEF),))),))


@model('boxed::box_assume_init_into_vec_unsafe')
def m_boxinit(E, st, a, fn, dty):
    v = a[0]
    if v.op == 'struct' and v.a[0] == 'MaybeUninit':
        return proj(proj(v, 1), 0)
    return v


@model('Vec::new', 'Vec::with_capacity')
def m_vecnew(E, st, a, fn, dty):
    return mk('list')


@model('vec::from_elem')
def m_from_elem(E, st, a, fn, dty):
    v, n = a[0], E.val(st, a[1])
    if not is_ring(n):
        return weak('from_elem')
    return mk_arr(n, lambda x: v)


@model('Vec::len', 'slice::len', 'PlaintextList::count_', 'String::len', 'ExactSizeIterator::len', 'HashMap::len')
def m_len(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if is_iter(v):
        return X.MAX(sub(fget(v, 'len'), fget(v, 'pos')), ZERO, st.f)
    return simp(length(v), st.f) if is_ring(length(v)) else length(v)


@model('Vec::is_empty', 'slice::is_empty')
def m_isempty(E, st, a, fn, dty):
    n = length(E.val(st, a[0]))
    return simp(EQ(n, ZERO), st.f) if is_ring(n) else n


@model('Vec::push')
def m_push(E, st, a, fn, dty):
    E.push(st, a[0], a[1])
    return UNIT


@model('Vec::pop')
def m_pop(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.read(st, r)
    n = length(v)
    if not is_ring(n):
        return weak('pop')
    c = simp(LE(ONE, n), st.f)
    if v.op == 'list' and v.a:
        E.write(st, r, mk('list', *v.a[:-1]))
        return some(v.a[-1])
    n2 = sub(n, c)
    E.write(st, r, mk_arr(n2, lambda i: proj(v, ('i', i))))
    return opt(c, proj(v, ('i', sub(n, ONE))))


@model('Vec::append')
def m_append(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    rb = E.at(st, a[1])
    b = E.read(st, rb)
    E.write(st, r, concat(o, b))
    E.write(st, rb, mk('list'))
    return UNIT


def concat(o, b):
    if o.op == 'weak' or b.op == 'weak':
        return o if o.op == 'weak' else b
    if o.op == 'list' and b.op == 'list':
        return mk('list', *(o.a + b.a))
    if o.op == 'list' and not o.a:
        return b
    if b.op == 'list' and not b.a:
        return o
    n, m = length(o), length(b)
    if not (is_ring(n) and is_ring(m)):
        return weak('concat')
    return mk_arr(add(n, m), lambda i: merge(LT(i, n), proj(o, ('i', i)), proj(b, ('i', sub(i, n)))))


@model('Vec::extend_from_slice')
def m_efs(E, st, a, fn, dty):
    r = E.at(st, a[0])
    E.write(st, r, concat(E.read(st, r), E.val(st, a[1])))
    return UNIT


@model('Extend::extend')
def m_extend(E, st, a, fn, dty):
    r = E.at(st, a[0])
    it = to_iter(E, st, a[1])
    if it is None:
        E.write(st, r, weak('extend'))
        return UNIT
    v = collect_vec(E, st, it)
    E.write(st, r, concat(E.read(st, r), v))
    return UNIT


@model('Vec::resize')
def m_resize(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    n = E.val(st, a[1])
    m = length(o)
    if not (is_ring(n) and is_ring(m)):
        E.write(st, r, weak('resize'))
        return UNIT
    E.write(st, r, mk_arr(n, lambda i: merge(simp(LT(i, m), st.f), proj(o, ('i', i)), a[2])))
    return UNIT


@model('Vec::truncate')
def m_trunc(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    n = X.MIN(E.val(st, a[1]), length(o), st.f)
    E.write(st, r, mk_arr(n, lambda i: proj(o, ('i', i))))
    return UNIT


@model('Vec::remove')
def m_remove(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    i = E.val(st, a[1])
    v = proj(o, ('i', i))
    n = length(o)
    if o.op == 'list' and i.op == 'int':
        E.write(st, r, mk('list', *(o.a[:i.a[0]] + o.a[i.a[0] + 1:])))
    elif is_ring(n):
        E.write(st, r, mk_arr(sub(n, ONE), lambda x: proj(o, ('i', add(x, LE(i, x))))))
    else:
        E.write(st, r, weak('remove'))
    return v


@model('Vec::swap_remove')
def m_swap_remove(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    i = E.val(st, a[1])
    n = length(o)
    v = proj(o, ('i', i))
    E.write(st, r, mk_arr(sub(n, ONE), lambda x: merge(EQ(x, i), proj(o, ('i', sub(n, ONE))), proj(o, ('i', x)))))
    return v


@model('Vec::insert')
def m_insert(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    i = E.val(st, a[1])
    n = length(o)
    x = a[2]
    if o.op == 'list' and i.op == 'int' and i.a[0] <= len(o.a):
        E.write(st, r, mk('list', *(o.a[:i.a[0]] + (x,) + o.a[i.a[0]:])))
    else:
        E.write(st, r, mk_arr(add(n, ONE), lambda y: merge(EQ(y, i), x, proj(o, ('i', sub(y, LT(i, y)))))))
    return UNIT


@model('slice::swap')
def m_sswap(E, st, a, fn, dty):
    r = E.at(st, a[0])
    i, j = E.val(st, a[1]), E.val(st, a[2])
    ri, rj = rproj(r, ('i', i)), rproj(r, ('i', j))
    vi, vj = E.read(st, ri), E.read(st, rj)
    E.write(st, ri, vj)
    E.write(st, rj, vi)
    return UNIT


@model('slice::reverse')
def m_reverse(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    n = length(o)
    if o.op == 'list':
        E.write(st, r, mk('list', *o.a[::-1]))
    else:
        E.write(st, r, mk_arr(n, lambda i: proj(o, ('i', sub(sub(n, ONE), i)))))
    return UNIT


@model('slice::fill')
def m_fill(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o = E.read(st, r)
    v = E.val(st, a[1])
    if ckind(o) == 'poly':
        E.write(st, r, ZERO if v is ZERO else mk_sum(N, lambda t: mul(v, xpow(t))))
    elif ckind(o) == 'glwe':
        z = ZERO if v is ZERO else mk_sum(N, lambda t: mul(v, xpow(t)))
        E.write(st, r, mk_struct('Glwe', (('mask', z), ('body', z))))
    elif ckind(o) == 'fvec' and v is ZERO:
        E.write(st, r, mk('fvec', ZERO))
    else:
        E.write(st, r, mk_arr(length(o), lambda i: v))
    return UNIT


@model('slice::first', 'slice::last', 'slice::get', 'slice::get_mut', 'slice::first_mut', 'slice::last_mut')
def m_get(E, st, a, fn, dty):
    r = E.at(st, a[0])
    if r is None:
        return weak('get')
    n = length(E.read(st, r))
    if not is_ring(n):
        return weak('get')
    if fn.name.startswith('first'):
        i = ZERO
    elif fn.name.startswith('last'):
        i = sub(n, ONE)
    else:
        i = E.val(st, a[1])
        if not is_ring(i):
            return weak('get range')
    c = simp(LT(i, n), st.f) if not fn.name.startswith('last') else simp(LE(ONE, n), st.f)
    return opt(c, rproj(r, ('i', i)))


@model('slice::split_at', 'slice::split_at_mut')
def m_split_at(E, st, a, fn, dty):
    r = E.at(st, a[0])
    n = length(E.read(st, r))
    m = E.val(st, a[1])
    return tup(rproj(r, ('sl', ZERO, m)), rproj(r, ('sl', m, sub(n, m))))


@model('slice::contains')
def m_contains(E, st, a, fn, dty):
    v, x = E.val(st, a[0]), E.val(st, a[1])
    if v.op == 'list' and len(v.a) <= 6:
        r = ONE
        for y in v.a:
            e = veq(E, st, E.val(st, y), x)
            if not is_ring(e):
                return weak('contains')
            r = mul(r, NOT(e))
        return simp(NOT(r), st.f)
    t = app('contains', v, x)
    t.ind = True
    return t


def range_of(E, st, v, n):
    """(lo, len) of a range value used as index"""
    if v.op == 'struct' and isinstance(v.a[0], str):
        tag = v.a[0]
        if tag.endswith('::Range'):
            lo, hi = proj(v, 0), proj(v, 1)
            return lo, sub(hi, lo)
        if tag.endswith('::RangeFrom'):
            lo = proj(v, 0)
            return lo, sub(n, lo)
        if tag.endswith('::RangeTo'):
            return ZERO, proj(v, 0)
        if tag.endswith('::RangeFull'):
            return ZERO, n
        if tag.endswith('::RangeToInclusive'):
            return ZERO, add(proj(v, 0), ONE)
    if is_iter(v):
        s = fget(v, 'src')
        if s.op == 'isrc' and s.a[0] == 'range':
            return add(s.a[1], fget(v, 'pos')), sub(fget(v, 'len'), fget(v, 'pos'))
    return None


@model('Index::index', 'IndexMut::index_mut')
def m_index(E, st, a, fn, dty):
    r = E.at(st, a[0])
    i = E.val(st, a[1])
    if r is None:
        return weak('index of value')
    v = E.read(st, r)
    if fn.args and fn.args[0][0] == 'adt' and 'HashMap' in fn.args[0][1]:
        return rproj(r, ('k', i))
    if is_ring(i):
        n = length(v)
        if is_ring(n):
            E.guard(LT(i, n))
        return rproj(r, ('i', i))
    rg = range_of(E, st, i, length(v))
    if rg is None:
        return weak('index by %s' % i.op)
    if rg[0] is ZERO and rg[1] is length(v):
        return r
    return rproj(r, ('sl', rg[0], rg[1]))


# ------------------------------------------------------------------ iterators
def mkit(src, ln, pos=ZERO):
    return mk('struct', 'Iter', (('pos', pos), ('len', ln), ('src', src)))


def is_iter(v):
    return v.op == 'struct' and v.a[0] == 'Iter'


def fget(v, n):
    return proj(v, n)


def isrc(*a):
    return mk('isrc', *a)


def to_iter(E, st, x, mode=None):
    """iterator value of x, or None"""
    if x.op in ('ref', 'iteref'):
        r = E.at(st, x)
        v = E.read(st, r)
        if is_iter(v):
            return v
        if v.op == 'struct' and isinstance(v.a[0], str) and v.a[0].endswith('ops::range::Range'):
            return to_iter(E, st, v)
        n = length(v)
        if not is_ring(n) or v.op == 'weak':
            return None
        return mkit(isrc('slice', r), simp(n, st.f))
    v = x
    if is_iter(v):
        return v
    if v.op == 'weak':
        return None
    if v.op == 'struct':
        if isinstance(v.a[0], str) and v.a[0].endswith('::Range'):
            lo, hi = E.val(st, proj(v, 0)), E.val(st, proj(v, 1))
            if not (is_ring(lo) and is_ring(hi)):
                return None
            n = X.MAX(sub(hi, lo), ZERO, st.f)
            return mkit(isrc('range', lo), n)
        if isinstance(v.a[0], str) and v.a[0].endswith('::RangeFrom'):
            return mkit(isrc('range', proj(v, 0)), mk('inf'))
        return None
    if v.op in ('arr', 'list', 'fvec') or is_arrayish(v):
        n = length(v)
        return mkit(isrc('vals', v), n) if is_ring(n) else None
    if v.op == 'enum' and v.a[0].op != 'int' and is_ring(v.a[0]) and [i for i, fs in v.a[1] if fs] == [1]:
        return mkit(isrc('vals', mk_arr(v.a[0], lambda i: payload(v, 1, 0))), v.a[0])       # an option
    if v.op == 'enum' and v.a[0].op == 'int':
        if v.a[0] is ONE:
            return mkit(isrc('vals', mk('list', payload(v, 1, 0))), ONE)
        return mkit(isrc('vals', mk('list')), ZERO)
    return None


INF = mk('inf')


def elem(E, st, src, i):
    k = src.a[0]
    if k == 'range':
        return add(src.a[1], i)
    if k == 'slice':
        return rproj(src.a[1], ('i', i))
    if k == 'mono':
        return rproj(src.a[1], ('c', i))
    if k == 'digits':
        bl, lc, top, x = src.a[1:]
        return mk_struct('Term', (('lvl', sub(top, i)), ('val', app('dec1', bl, lc, sub(top, i), x))))
    if k == 'levels':
        return rproj(src.a[1], ('lv', i))
    if k == 'vals':
        return proj(src.a[1], ('i', i))
    if k == 'map':
        return E.call_value(st, src.a[2], [elem(E, st, src.a[1], i)])
    if k == 'inspect':
        x = elem(E, st, src.a[1], i)
        E.call_value(st, src.a[2], [E.box(st, x)])
        return x
    if k == 'zip':
        x = elem(E, st, src.a[1], add(i, src.a[2]))
        return tup(x, elem(E, st, src.a[3], add(i, src.a[4])))
    if k == 'enum':
        return tup(add(i, src.a[2]), elem(E, st, src.a[1], i))
    if k == 'off':
        return elem(E, st, src.a[1], add(i, src.a[2]))
    if k == 'perm':
        return elem(E, st, src.a[1], proj(src.a[2], ('i', i)))
    if k == 'rev':
        return elem(E, st, src.a[1], sub(sub(src.a[2], ONE), i))
    if k == 'step':
        return elem(E, st, src.a[1], mul(i, src.a[2]))
    if k == 'deref':
        return E.val(st, elem(E, st, src.a[1], i))
    if k == 'chunks':
        r, sz, total = src.a[1], src.a[2], src.a[3]
        lo = mul(i, sz)
        return rproj(r, ('sl', lo, X.MIN(sz, sub(total, lo), st.f)))
    if k == 'windows':
        r, sz = src.a[1], src.a[2]
        return rproj(r, ('sl', i, sz))
    if k == 'repeat':
        return src.a[1]
    if k == 'chain':
        c = LT(i, src.a[2])
        return gated(E, st, c, lambda s: elem(E, s, src.a[1], i), lambda s: elem(E, s, src.a[3], sub(i, src.a[2])))
    if k == 'gen':
        return E.call_value(st, src.a[1], [])
    return weak('iterator')


def remaining(E, st, it):
    ln, pos = fget(it, 'len'), fget(it, 'pos')
    if ln is INF:
        return INF
    if pos is ZERO:
        return ln
    return X.MAX(sub(ln, pos), ZERO, st.f)


def base(E, st, it):
    """(src, remaining length) with the position folded in"""
    pos = fget(it, 'pos')
    src = fget(it, 'src')
    if pos is not ZERO:
        src = isrc('off', src, pos)
    return src, remaining(E, st, it)


@model('IntoIterator::into_iter', 'IntoParallelIterator::into_par_iter', 'IntoParallelRefIterator::par_iter', 'IntoParallelRefMutIterator::par_iter_mut',
       'slice::iter', 'slice::iter_mut', 'Vec::iter', 'Iterator::by_ref', 'Vec::drain', 'vec::into_iter', 'iter_::into_iter', 'ParallelIterator::into_par_iter', 'ParallelIterator::with_min_len', 'IndexedParallelIterator::with_min_len', 'Iterator::fuse', 'HashMap::iter_')
def m_into_iter(E, st, a, fn, dty):
    x = a[0]
    if fn.name == 'by_ref':
        return x
    it = to_iter(E, st, x)
    if it is None:
        return weak('iterator source')
    return it


@model('Tensor::iter', 'Tensor::iter_mut', 'Polynomial::coefficient_iter', 'Polynomial::coefficient_iter_mut', 'PlaintextList::plaintext_iter', 'PlaintextList::plaintext_iter_mut')
def m_tensor_iter(E, st, a, fn, dty):
    r = E.at(st, a[0])
    if r is None:
        v = a[0]
        n = length(v)
        return mkit(isrc('vals', mk_arr(n, lambda i: proj(v, ('c', i)))), n) if is_ring(n) else weak('iter')
    v = E.read(st, r)
    n = length(v)
    if not is_ring(n):
        return weak('iter')
    if 'plaintext_iter' in fn.name:
        return mkit(isrc('ptx', r), n)
    return mkit(isrc('mono', r), n)


def _ptx(E, st, src, i):
    return nt(CC + 'commons::crypto::encoding::plaintext::Plaintext', E.read(st, rproj(src.a[1], ('c', i))))


_elem0 = elem


def elem(E, st, src, i):   # noqa: F811
    if src.a[0] == 'ptx':
        return _ptx(E, st, src, i)
    return _elem0(E, st, src, i)


globals()['_elem0'].__globals__['elem'] = elem


@model('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(E, st, a, fn, dty):
    r = E.at(st, a[0])
    if r is None:
        return weak('next of value')
    v = E.read(st, r)
    it = to_iter(E, st, v) if not is_iter(v) else v
    if it is None:
        E.clobber(st, a[0], 'next')
        return weak('next of %s' % v.op)
    ln, pos, src = fget(it, 'len'), fget(it, 'pos'), fget(it, 'src')
    if fn.name == 'next_back':
        c = simp(LT(pos, ln), st.f)
        E.write(st, r, mkit(src, sub(ln, ONE), pos))
        return gated_some(E, st, c, lambda s: elem(E, s, src, sub(ln, ONE)))
    c = ONE if ln is INF else simp(LT(pos, ln), st.f)
    # positions past the end keep growing: harmless, the iterator stays exhausted
    E.write(st, r, mkit(src, ln, add(pos, ONE)))
    return gated_some(E, st, c, lambda s: elem(E, s, src, pos))


def pure_src(src):
    k = src.a[0]
    if k in ('map', 'gen'):
        return False
    return all(pure_src(x) for x in src.a[1:] if isinstance(x, T) and x.op == 'isrc')


def gated_some(E, st, c, f):
    if c is ZERO:
        return NONE
    if c is ONE:
        return some(f(st))
    if not is_ring(c):
        return weak('next')
    s1 = st.copy()
    s1.f = s1.f.plus_cond(c)
    try:
        v = f(s1)
    except Diverge:
        return NONE
    j = E.join(c, s1, st)
    st.c = j.c
    return opt(c, v)


def adapter(name):
    def deco(f):
        def g(E, st, a, fn, dty):
            it = to_iter(E, st, a[0])
            if it is None:
                for x in a[1:]:
                    E.clobber(st, x, fn.name)
                return weak('iterator')
            if a[0].op == 'ref':
                pass
            return f(E, st, it, a, fn)
        for n in name:
            for p in ('Iterator::', 'ParallelIterator::', 'IndexedParallelIterator::', 'DoubleEndedIterator::'):
                M[p + n] = g
        return g
    return deco


@adapter(['map'])
def m_map(E, st, it, a, fn):
    src, n = base(E, st, it)
    return mkit(isrc('map', src, a[1]), n)


PLAIN = ('range', 'digits', 'slice', 'mono', 'levels', 'vals', 'zip', 'enum', 'off', 'rev', 'step', 'deref', 'chunks', 'windows', 'perm')


def plain_src(src):
    """producing an element runs no code of the program"""
    return src.op == 'isrc' and src.a[0] in PLAIN and all(plain_src(x) for x in src.a[1:] if isinstance(x, T) and x.op == 'isrc')


def gather(E, st, n, body):
    """list to which iteration k of n appends what  body(st, k, put)  puts"""
    acc = E.new_cell(st, mk('list'))
    E.foreach(st, n, lambda s, k: body(s, k, lambda s2, v: E.push(s2, ref(acc), v)))
    return st.c.pop(acc)


def vals_iter(v):
    n = length(v)
    return mkit(isrc('vals', v), n) if is_ring(n) and v.op != 'weak' else weak('filtered iterator')


def put_if(E, s, c, put, f):
    if not is_ring(c):
        put(s, weak('condition of a filter'))
        return
    c = simp(c, s.f)
    if c is ZERO:
        return
    s1 = s.copy()
    s1.f = s1.f.plus_cond(c)
    try:
        put(s1, f(s1))
    except Diverge:
        return
    s.c = (s1 if c is ONE else E.join(c, s1, s)).c


@adapter(['filter'])
def m_filter(E, st, it, a, fn):
    src, n = base(E, st, it)
    if n is INF:
        return weak('filter of an endless iterator')
    if plain_src(src):
        v = gather(E, st, n, lambda s, k, put: put_if(E, s, E.val(s, E.call_value(s, a[1], [E.box(s, elem(E, s, src, k))])), put, lambda s1: k))
        r = vals_iter(v)
        return r if r.op == 'weak' else mkit(isrc('perm', src, v), length(v))

    def body(s, k, put):
        x = elem(E, s, src, k)
        put_if(E, s, E.val(s, E.call_value(s, a[1], [E.box(s, x)])), put, lambda s1: x)
    return vals_iter(gather(E, st, n, body))


@adapter(['filter_map'])
def m_filter_map(E, st, it, a, fn):
    src, n = base(E, st, it)
    if n is INF:
        return weak('filter of an endless iterator')

    def body(s, k, put):
        v = E.val(s, E.call_value(s, a[1], [elem(E, s, src, k)]))
        put_if(E, s, X.discr(v), put, lambda s1: payload(v, 1, 0))
    return vals_iter(gather(E, st, n, body))


def flat(E, st, it, f):
    src, n = base(E, st, it)
    if n is INF:
        return weak('flattened endless iterator')
    acc = E.new_cell(st, mk('list'))

    def body(s, k):
        x = to_iter(E, s, f(s, elem(E, s, src, k)))
        v = collect_vec(E, s, x) if x is not None and fget(x, 'len') is not INF else weak('flattened iterator')
        s.c[acc] = concat(s.c[acc], v)
    E.foreach(st, n, body)
    return vals_iter(st.c.pop(acc))


@adapter(['flat_map', 'flat_map_iter'])
def m_flat_map(E, st, it, a, fn):
    return flat(E, st, it, lambda s, x: E.call_value(s, a[1], [x]))


@adapter(['flatten', 'flatten_iter'])
def m_flatten(E, st, it, a, fn):
    return flat(E, st, it, lambda s, x: x)


@adapter(['enumerate'])
def m_enum(E, st, it, a, fn):
    src, n = base(E, st, it)
    return mkit(isrc('enum', src, ZERO), n)


def zipit(E, st, x, y):
    s1, n1 = base(E, st, x)
    s2, n2 = base(E, st, y)
    n = n2 if n1 is INF else n1 if n2 is INF else X.MIN(n1, n2, st.f)
    return mkit(isrc('zip', s1, ZERO, s2, ZERO), n)


@adapter(['zip', 'zip_eq'])
def m_zip(E, st, it, a, fn):
    y = to_iter(E, st, a[1])
    if y is None:
        return weak('zip')
    return zipit(E, st, it, y)


@model('zip::zip', 'iter::zip', 'adapters::zip')
def m_zipfn(E, st, a, fn, dty):
    x, y = to_iter(E, st, a[0]), to_iter(E, st, a[1])
    if x is None or y is None:
        return weak('zip')
    return zipit(E, st, x, y)


@adapter(['rev'])
def m_rev(E, st, it, a, fn):
    src, n = base(E, st, it)
    return mkit(isrc('rev', src, n), n)


@adapter(['skip'])
def m_skip(E, st, it, a, fn):
    src, n = base(E, st, it)
    k = E.val(st, a[1])
    if n is INF:
        return mkit(isrc('off', src, k), n)
    k2 = X.MIN(k, n, st.f)
    return mkit(isrc('off', src, k2) if k2 is not ZERO else src, simp(sub(n, k2), st.f))


@adapter(['take'])
def m_take(E, st, it, a, fn):
    src, n = base(E, st, it)
    k = E.val(st, a[1])
    return mkit(src, k if n is INF else X.MIN(k, n, st.f))


@adapter(['step_by'])
def m_step(E, st, it, a, fn):
    src, n = base(E, st, it)
    k = E.val(st, a[1])
    if n is INF:
        return mkit(isrc('step', src, k), n)
    return mkit(isrc('step', src, k), div(sub(add(n, k), ONE), k))


@adapter(['cloned', 'copied'])
def m_cloned(E, st, it, a, fn):
    src, n = base(E, st, it)
    return mkit(isrc('deref', src), n)


@adapter(['chain'])
def m_chain(E, st, it, a, fn):
    y = to_iter(E, st, a[1])
    if y is None:
        return weak('chain')
    s1, n1 = base(E, st, it)
    s2, n2 = base(E, st, y)
    return mkit(isrc('chain', s1, n1, s2), INF if n2 is INF else add(n1, n2))


@model('slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut', 'ParallelSlice::par_chunks', 'slice::chunks_exact_mut')
def m_chunks(E, st, a, fn, dty):
    r = E.at(st, a[0])
    n = length(E.read(st, r))
    k = E.val(st, a[1])
    if not is_ring(n):
        return weak('chunks')
    cnt = div(n, k) if 'exact' in fn.name else div(sub(add(n, k), ONE), k)
    return mkit(isrc('chunks', r, k, n), cnt)


@model('slice::windows')
def m_windows(E, st, a, fn, dty):
    r = E.at(st, a[0])
    n = length(E.read(st, r))
    k = E.val(st, a[1])
    return mkit(isrc('windows', r, k), X.MAX(add(sub(n, k), ONE), ZERO, st.f))


@model('RangeInclusive::new')
def m_rincl(E, st, a, fn, dty):
    lo, hi = E.val(st, a[0]), E.val(st, a[1])
    if not (is_ring(lo) and is_ring(hi)):
        return weak('range')
    n = add(sub(hi, lo), ONE)
    return mkit(isrc('range', lo), X.MAX(n, ZERO, st.f))


@model('sources::repeat', 'iter::repeat', 'repeat::repeat')
def m_repeat(E, st, a, fn, dty):
    return mkit(isrc('repeat', a[0]), INF)


@model('sources::repeat_n', 'repeat_n::repeat_n')
def m_repeat_n(E, st, a, fn, dty):
    return mkit(isrc('repeat', a[0]), a[1])


@model('once::once', 'sources::once')
def m_once(E, st, a, fn, dty):
    return mkit(isrc('vals', mk('list', a[0])), ONE)


@model('repeat_with::repeat_with')
def m_repeat_with(E, st, a, fn, dty):
    return mkit(isrc('gen', a[0]), INF)


# consumers
def consume(E, st, a, f, what):
    it = to_iter(E, st, a[0])
    if it is None or fget(it, 'len') is INF:
        E.note('consumer %s of an unknown iterator' % what)
        E.havoc(st)       # its closures may write anywhere
        return None
    return it


def collect_vec(E, st, it):
    src, n = base(E, st, it)
    if n is INF:
        return weak('infinite')
    k = src.a[0]
    if k == 'range':
        return mk_arr(n, lambda i: add(src.a[1], i))
    if k == 'vals' and length(src.a[1]) is n:
        return src.a[1]
    return E.build_array(st, n, lambda s, i: elem(E, s, src, i))


@model('Iterator::collect', 'ParallelIterator::collect', 'FromIterator::from_iter', 'FromParallelIterator::from_par_iter')
def m_collect(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'collect')
    if it is None:
        return weak('collect')
    t = dty
    tgt = fn.args[-1] if fn.name == 'collect' and fn.args else t
    name = tgt[1] if tgt and tgt[0] == 'adt' else (t[1] if t and t[0] == 'adt' else '')
    if name.endswith('::Vec') or name.endswith('Box') or name.endswith('VecDeque') or (tgt and tgt[0] in ('slice', 'array')):
        return collect_vec(E, st, it)
    src, n = base(E, st, it)
    if name in X.MAP_TYPES and (name.endswith('Map') or name.endswith('Set')):
        acc = E.new_cell(st, mk_map(ment(mk('app', 'mnil'))))

        def body(s, i):
            x = E.val(s, elem(E, s, src, i))
            k, v = (E.val(s, proj(x, 0)), E.val(s, proj(x, 1))) if name.endswith('Map') else (x, UNIT)
            m = s.c[acc]
            s.c[acc] = mk_map(mput(proj(m, 'ent'), k, v)) if built(m) and is_ring(k) else weak('collect into a map')
        E.foreach(st, n, body)
        return st.c.pop(acc)
    v = collect_vec(E, st, it)
    return weak('collect into ' + str(name))


@model('Iterator::unzip', 'ParallelIterator::unzip')
def m_unzip(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'unzip')
    if it is None:
        return weak('unzip')
    v = collect_vec(E, st, it)
    n = length(v)
    if not is_ring(n):
        return weak('unzip')
    return tup(mk_arr(n, lambda i: proj(proj(v, ('i', i)), 0)), mk_arr(n, lambda i: proj(proj(v, ('i', i)), 1)))


@model('Iterator::for_each', 'ParallelIterator::for_each')
def m_for_each(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'for_each')
    if it is None:
        return UNIT
    src, n = base(E, st, it)
    clo = E.box(st, a[1]) if a[1].op == 'struct' else a[1]
    E.foreach(st, n, lambda s, i: E.call_value(s, a[1], [elem(E, s, src, i)]))
    return UNIT


def fold(E, st, it, init, step):
    src, n = base(E, st, it)
    acc = E.new_cell(st, init)

    def body(s, i):
        x = elem(E, s, src, i)
        v = step(s, s.c[acc], x)
        s.c[acc] = v
    E.foreach(st, n, body)
    return st.c.pop(acc)


@model('Iterator::fold')
def m_fold(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'fold')
    if it is None:
        return weak('fold')
    return fold(E, st, it, a[1], lambda s, acc, x: E.call_value(s, a[2], [acc, x]))


@model('ParallelIterator::reduce')
def m_reduce(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'reduce')
    if it is None:
        return weak('reduce')
    init = E.call_value(st, a[1], [])
    return fold(E, st, it, init, lambda s, acc, x: E.call_value(s, a[2], [acc, x]))


@model('Iterator::reduce')
def m_reduce1(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'reduce')
    if it is None:
        return weak('reduce')
    src, n = base(E, st, it)
    c = simp(LE(ONE, n), st.f)
    if c is ZERO:
        return NONE
    first = elem(E, st, src, ZERO)
    r = fold(E, st, mkit(isrc('off', src, ONE), sub(n, ONE)), first, lambda s, acc, x: E.call_value(s, a[1], [acc, x]))
    return opt(c, r)


@model('Iterator::sum', 'ParallelIterator::sum')
def m_sum(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'sum')
    if it is None:
        return weak('sum')
    if dty == ('prim', 'f64'):
        src, n = base(E, st, it)
        v = collect_vec(E, st, it)
        return app('fsum', v) if v.op != 'weak' else v
    return fold(E, st, it, ZERO, lambda s, acc, x: add(acc, E.val(s, x)))


@model('Iterator::max', 'Iterator::min', 'ParallelIterator::max', 'ParallelIterator::min')
def m_itmax(E, st, a, fn, dty):
    it = consume(E, st, a, None, fn.name)
    ty = dty[2][0] if dty and dty[0] == 'adt' and dty[2] else None
    isref = ty is not None and ty[0] == 'ref'
    while ty is not None and ty[0] == 'ref':
        ty = ty[1]
    if it is None or ty not in (('prim', 'usize'), ('prim', 'i64'), ('prim', 'i32'), ('prim', 'u32')):
        return weak(fn.name)
    src, n = base(E, st, it)
    if n is INF:
        return weak('infinite')
    v = E.build_array(st, n, lambda s, i: E.val(s, elem(E, s, src, i)))
    if v.op == 'weak':
        return v
    x = app(fn.name + 'over', proj(v, ('i', ZERO)), v)
    return opt(simp(LE(ONE, n), st.f), E.box(st, x) if isref else x)


@model('Iterator::product')
def m_product(E, st, a, fn, dty):
    it = consume(E, st, a, None, 'product')
    if it is None or dty == ('prim', 'f64'):
        return weak('product')
    return fold(E, st, it, ONE, lambda s, acc, x: mul(acc, E.val(s, x)))


def search(E, st, it, pred):
    """(found, index of the first element that satisfies pred, source)"""
    src, n = base(E, st, it)
    cnt = E.new_cell(st, ZERO)

    def run(s):
        kk = s.c[cnt]
        s0 = s.copy()
        more = simp(LT(kk, n), s.f)
        s.f = s.f.plus_cond(LT(kk, n))
        c = pred(s, elem(E, s, src, kk))
        c = E.val(s, c)
        hit = s.copy()
        s.c[cnt] = add(kk, ONE)
        return (mul(more, NOT(c)), s), {'end': (NOT(more), s0), 'hit': (mul(more, c), hit)}
    r = E.loop(st, run)
    if 'hit' not in r or 'end' not in r:
        return None
    c, s1 = r['hit']
    i = s1.c[cnt]
    s2 = E.join(c, s1, r['end'][1])
    st.c = s2.c
    st.c.pop(cnt, None)
    return c, i, src


def search_model(*names):
    def deco(f):
        def g(E, st, a, fn, dty):
            it = consume(E, st, a, None, 'search')
            if it is None:
                return weak('search')
            r = search(E, st, it, lambda s, x: f[0](E, s, a, x))
            if r is None or r[0].op == 'weak':
                return weak('search')
            return f[1](E, st, a, *r)
        for n in names:
            M[n] = g
    return deco


search_model('Iterator::any')((lambda E, s, a, x: E.val(s, E.call_value(s, a[1], [x])), lambda E, st, a, c, i, src: c))
search_model('Iterator::all')((lambda E, s, a, x: NOT(E.val(s, E.call_value(s, a[1], [x]))), lambda E, st, a, c, i, src: NOT(c)))
search_model('Iterator::position')((lambda E, s, a, x: E.val(s, E.call_value(s, a[1], [x])), lambda E, st, a, c, i, src: opt(c, i)))
search_model('Iterator::find')((lambda E, s, a, x: E.val(s, E.call_value(s, a[1], [E.box(s, x)])),
                                lambda E, st, a, c, i, src: opt(c, elem(E, st, src, i))))


@model('Iterator::count')
def m_count(E, st, a, fn, dty):
    it = to_iter(E, st, a[0])
    return remaining(E, st, it) if it is not None else weak('count')


@model('Iterator::nth')
def m_nth(E, st, a, fn, dty):
    r = E.at(st, a[0])
    it = to_iter(E, st, a[0])
    if it is None:
        return weak('nth')
    ln, pos, src = fget(it, 'len'), fget(it, 'pos'), fget(it, 'src')
    i = add(pos, E.val(st, a[1]))
    if r is not None:
        E.write(st, r, mkit(src, ln, add(i, ONE)))
    c = ONE if ln is INF else simp(LT(i, ln), st.f)
    return gated_some(E, st, c, lambda s: elem(E, s, src, i))


@model('Iterator::last')
def m_last(E, st, a, fn, dty):
    it = to_iter(E, st, a[0])
    if it is None:
        return weak('last')
    src, n = base(E, st, it)
    return gated_some(E, st, simp(LE(ONE, n), st.f), lambda s: elem(E, s, src, sub(n, ONE)))


@model('ParallelIterator::all', 'ParallelIterator::any')
def m_all(E, st, a, fn, dty):
    it = consume(E, st, a, None, fn.name)
    if it is None:
        return weak(fn.name)
    src, n = base(E, st, it)
    v = E.build_array(st, n, lambda s, i: E.call_value(s, a[1], [elem(E, s, src, i)]))
    t = app(fn.name, v)
    if t.op != 'weak':
        t.ind = True
    return t


@model('Iterator::max_by', 'Iterator::take_while', 'Iterator::skip_while', 'Iterator::scan', 'Iterator::peekable')
def m_weak_it(E, st, a, fn, dty):
    for x in a[1:]:
        E.clobber(st, x, fn.name)
        v = E.val(st, x)
        if v.op == 'struct':
            for _, y in v.a[1]:
                E.clobber(st, y, fn.name)
    return weak('Iterator::' + fn.name)


@model('Iterator::size_hint')
def m_size_hint(E, st, a, fn, dty):
    it = to_iter(E, st, a[0])
    if it is None:
        return weak('size_hint')
    n = remaining(E, st, it)
    return tup(n, some(n))


# closures
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_fncall(E, st, a, fn, dty):
    args = a[1]
    if args.op == 'struct':
        xs = [v for _, v in args.a[1]]
    elif args.op == 'unit':
        xs = []
    else:
        xs = [proj(args, i) for i in range(1)]
    f = a[0]
    v = E.val(st, f)
    if v.op == 'struct' and isinstance(v.a[0], tuple) and v.a[0][0] == 'clo':
        return E.call_closure(st, v.a[0][1], f if f.op == 'ref' else v, xs)
    return E.call_value(st, v, xs)


# ------------------------------------------------------------------ misc
@model('thread_pool::current_thread_index', 'rayon_core::current_thread_index', 'rayon::current_thread_index')
def m_tid(E, st, a, fn, dty):
    return opt(ONE, app('tid'))


@model('rayon_core::max_num_threads', 'rayon::max_num_threads', 'rayon_core::current_num_threads')
def m_maxthreads(E, st, a, fn, dty):
    return app('maxthreads')


@model('Instant::now')
def m_now(E, st, a, fn, dty):
    if E.out is not None:
        return app('instant', INT(E.tick()))
    return mk('cst', 'instant', '')


@model('Instant::elapsed')
def m_elapsed(E, st, a, fn, dty):
    if E.out is not None:
        return app('elapsed', E.val(st, a[0]), INT(E.tick()))
    return mk('cst', 'duration', '')


# ------------------------------------------------------------------ concrete-core: containers
def glwe(m, b):
    return mk_struct('Glwe', (('mask', m), ('body', b)))


def ggsw(rows, bl, lc):
    return mk_struct('Ggsw', (('rows', rows), ('bl', bl), ('lc', lc)))


@model('Polynomial::allocate', 'PlaintextList::allocate')
def m_polyalloc(E, st, a, fn, dty):
    v = a[0]
    return ZERO if v is ZERO else mk_sum(N, lambda t: mul(v, xpow(t)))


@model('Tensor::allocate')
def m_tensoralloc(E, st, a, fn, dty):
    n = E.val(st, a[1])
    if n is N:
        return ZERO if a[0] is ZERO else mk_sum(N, lambda t: mul(a[0], xpow(t)))
    return mk_arr(n, lambda i: a[0])


@model('Polynomial::from_container', 'PlaintextList::from_container', 'Tensor::from_container')
def m_polyfrom(E, st, a, fn, dty):
    return as_poly(E, st, a[0])


@model('GlweCiphertext::allocate')
def m_glwealloc(E, st, a, fn, dty):
    return glwe(ZERO, ZERO) if a[0] is ZERO else weak('glwe allocate')


@model('GlweCiphertext::from_container')
def m_glwefrom(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if v.op == 'weak':
        return v
    if not (v.op in ('arr', 'list') or is_arrayish(v)):
        return weak('glwe from %s' % v.op)
    n = length(v)
    if n is not scale(N, 2):
        return mk('opq', ('badglwe', n))
    m = mk_sum(N, lambda t: mul(proj(v, ('i', t)), xpow(t)), st.f)
    b = mk_sum(N, lambda t: mul(proj(v, ('i', add(t, N))), xpow(t)), st.f)
    return glwe(m, b)


@model('*::polynomial_size')
def m_psize(E, st, a, fn, dty):
    if fn.local:
        return NotImplemented
    return PSIZE


@model('PolynomialList::polynomial_count')
def m_pcount(E, st, a, fn, dty):
    return nt(CC + 'specification::parameters::PolynomialCount', ONE)


@model('PlaintextList::count')
def m_ptcount(E, st, a, fn, dty):
    return nt(CC + 'specification::parameters::PlaintextCount', N)


@model('PolynomialList::get_polynomial', 'PolynomialList::get_mut_polynomial')
def m_getpoly(E, st, a, fn, dty):
    i = E.val(st, a[1])
    if i is not ZERO:
        return weak('polynomial %s of a rank one list' % X.show(i))
    return newloc(E, st, a, fn, dty)


def field_view(name):
    def f(E, st, a, fn, dty):
        r = E.at(st, a[0])
        if r is None:
            return proj(a[0], name)
        return rproj(r, name)
    return f


for n in ('GlweCiphertext::get_mut_mask', 'GlweCiphertext::get_mask', 'LweCiphertext::get_mask', 'LweCiphertext::get_mut_mask'):
    M[n] = field_view('mask')
for n in ('GlweCiphertext::get_mut_body', 'GlweCiphertext::get_body', 'LweCiphertext::get_body', 'LweCiphertext::get_mut_body'):
    M[n] = field_view('body')
for n in ('StandardGgswCiphertext::as_glwe_list', 'StandardGgswCiphertext::as_mut_glwe_list'):
    M[n] = field_view('rows')


@model('Polynomial::get_mut_monomial', 'Polynomial::get_monomial')
def m_monomial(E, st, a, fn, dty):
    r = E.at(st, a[0])
    d = E.val(st, proj(E.val(st, a[1]), 0))
    return rproj(r, ('c', d)) if r is not None else coef(a[0], d)


for n in ('Monomial::get_mut_coefficient', 'Monomial::get_coefficient'):
    M[n] = newloc


@model('Monomial::set_coefficient')
def m_setcoef(E, st, a, fn, dty):
    E.write(st, E.at(st, a[0]), E.val(st, a[1]))
    return UNIT


@model('Tensor::first', 'Tensor::first_mut')
def m_tfirst(E, st, a, fn, dty):
    return rproj(E.at(st, a[0]), ('c', ZERO))


@model('Tensor::get_element', 'Tensor::get_element_mut')
def m_tget(E, st, a, fn, dty):
    return rproj(E.at(st, a[0]), ('c', E.val(st, a[1])))


@model('Tensor::set_element')
def m_tset(E, st, a, fn, dty):
    E.write(st, rproj(E.at(st, a[0]), ('c', E.val(st, a[1]))), E.val(st, a[2]))
    return UNIT


@model('Tensor::len')
def m_tlen(E, st, a, fn, dty):
    return length(E.val(st, a[0]))


@model('Tensor::fill_with', 'Tensor::fill_with_element')
def m_tfill(E, st, a, fn, dty):
    v = E.val(st, a[1]) if fn.name.endswith('element') else E.call_value(st, a[1], [])
    return m_fill(E, st, [a[0], v], fn, dty)


def tens_bin(sign):
    def f(E, st, a, fn, dty):
        r = E.at(st, a[0])
        if r is None:
            E.note('tensor update of a value')
            E.havoc(st)
            return UNIT
        o, x = E.read(st, r), E.val(st, a[1])
        ko, kx = ckind(o), ckind(x)

        def comb(p, q):
            return add(p, scale(q, sign))
        if ko == 'poly' and kx == 'arr':
            x, kx = arr_to_poly(x, st.f), 'poly'
        if ko != kx:
            E.write(st, r, weak('tensor update %s with %s' % (ko, kx)))
        elif ko == 'glwe':
            E.write(st, r, glwe(comb(proj(o, 'mask'), proj(x, 'mask')), comb(proj(o, 'body'), proj(x, 'body'))))
        elif ko == 'poly':
            E.write(st, r, comb(o, x))
        elif ko == 'arr':
            E.write(st, r, mk_arr(length(o), lambda i: elt(comb, proj(o, ('i', i)), proj(x, ('i', i)))))
        elif o.op == 'struct' and o.a[0] == 'Ggsw' or kx == 'struct':
            ro, rx = proj(o, 'rows'), proj(x, 'rows')
            E.write(st, r, ggsw(mk_arr(length(ro), lambda i: elt(comb, proj(ro, ('i', i)), proj(rx, ('i', i)))),
                                proj(o, 'bl'), proj(o, 'lc')))
        else:
            E.write(st, r, weak('tensor update of ' + ko))
        return UNIT

    def elt(comb, p, q):
        if ckind(p) == 'glwe' or ckind(q) == 'glwe':
            return glwe(comb(proj(p, 'mask'), proj(q, 'mask')), comb(proj(p, 'body'), proj(q, 'body')))
        return comb(p, q)
    return f


def is_ggsw(v):
    t = X.ty_of(v)
    return (v.op == 'struct' and v.a[0] == 'Ggsw') or (t is not None and t[0] == 'adt' and t[1] == GGSW[1])


_ck = ckind


def ckind(v):   # noqa: F811
    if is_ggsw(v):
        return 'struct'
    return _ck(v)


M['Tensor::update_with_wrapping_add'] = M['Polynomial::update_with_wrapping_add'] = tens_bin(1)
M['Tensor::update_with_wrapping_sub'] = M['Polynomial::update_with_wrapping_sub'] = tens_bin(-1)


@model('Tensor::update_with_wrapping_scalar_mul')
def m_tscal(E, st, a, fn, dty):
    r = E.at(st, a[0])
    o, c = E.read(st, r), E.val(st, a[1])
    if ckind(o) == 'poly':
        E.write(st, r, mul(o, c))
    elif ckind(o) == 'glwe':
        E.write(st, r, glwe(mul(proj(o, 'mask'), c), mul(proj(o, 'body'), c)))
    else:
        E.write(st, r, mk_arr(length(o), lambda i: mul(proj(o, ('i', i)), c)))
    return UNIT


@model('Tensor::update_with_wrapping_neg')
def m_tneg(E, st, a, fn, dty):
    return m_tscal(E, st, [a[0], INT(-1)], fn, dty)


@model('Polynomial::update_with_wrapping_unit_monomial_div', 'Polynomial::update_with_wrapping_unit_monomial_mul')
def m_monodiv(E, st, a, fn, dty):
    r = E.at(st, a[0])
    d = E.val(st, proj(E.val(st, a[1]), 0))
    E.write(st, r, mul(E.read(st, r), xpow(neg(d) if fn.name.endswith('div') else d)))
    return UNIT


@model('Polynomial::fill_with_wrapping_mul')
def m_fillmul(E, st, a, fn, dty):
    E.write(st, E.at(st, a[0]), mul(as_poly(E, st, a[1]), as_poly(E, st, a[2])))
    return UNIT


# GGSW
@model('StandardGgswCiphertext::allocate')
def m_ggswalloc(E, st, a, fn, dty):
    # allocate(value, poly_size, glwe_size, decomp_level, decomp_base_log)
    lc = proj(E.val(st, a[3]), 0)
    bl = proj(E.val(st, a[4]), 0)
    if a[0] is not ZERO:
        return weak('ggsw allocate')
    return ggsw(mk_arr(scale(lc, 2), lambda i: glwe(ZERO, ZERO)), bl, lc)


def g_field(n, ty):
    def f(E, st, a, fn, dty):
        return nt(CC + 'specification::parameters::' + ty, E.val(st, proj(E.val(st, a[0]), n)))
    return f


M['StandardGgswCiphertext::decomposition_base_log'] = g_field('bl', 'DecompositionBaseLog')
M['StandardGgswCiphertext::decomposition_level_count'] = g_field('lc', 'DecompositionLevelCount')


@model('GlweList::ciphertext_count')
def m_ctcount(E, st, a, fn, dty):
    return nt(CC + 'specification::parameters::CiphertextCount', length(E.val(st, a[0])))


@model('GlweList::ciphertext_iter', 'GlweList::ciphertext_iter_mut')
def m_ctiter(E, st, a, fn, dty):
    return m_into_iter(E, st, a, fn, dty)


@model('StandardGgswCiphertext::level_matrix_iter')
def m_lviter(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.read(st, r)
    return mkit(isrc('levels', rproj(r, 'rows')), proj(v, 'lc'))


@model('GgswLevelMatrix::row_iter')
def m_rowiter(E, st, a, fn, dty):
    v = E.val(st, a[0])
    r = E.at(st, a[0])
    if r is not None:
        return mkit(isrc('slice', r), INT(2))
    return mkit(isrc('vals', v), INT(2))


@model('FourierGgswCiphertext::new')
def m_fggsw(E, st, a, fn, dty):
    bl, lc = proj(E.val(st, a[3]), 0), proj(E.val(st, a[4]), 0)
    return mk_struct('FGgsw', (('rows', mk_arr(scale(lc, 2), lambda i: glwe(ZERO, ZERO))), ('bl', bl), ('lc', lc)))


@model('FourierGgswCiphertext::fill_with_forward_fourier')
def m_fillfourier(E, st, a, fn, dty):
    r = E.at(st, a[0])
    s = E.val(st, a[1])
    E.write(st, rproj(r, 'rows'), proj(s, 'rows'))
    return UNIT


@model('ggsw::external_product')
def m_extprod(E, st, a, fn, dty):
    r = E.at(st, a[0])
    g = E.val(st, a[1])
    c = E.val(st, a[2])
    o = E.read(st, r)
    op = ggsw(proj(g, 'rows'), proj(g, 'bl'), proj(g, 'lc'))
    m, b = X.ext(op, proj(c, 'mask'), proj(c, 'body'))
    E.write(st, r, glwe(add(proj(o, 'mask'), m), add(proj(o, 'body'), b)))
    return UNIT


# FFT.  A Fourier polynomial holds the transform of a ring element; the torus view is scaled by tau.
def floc(E, st, x):
    r = E.at(st, x)
    if r is None:
        return None
    v = E.read(st, r)
    if v.op == 'struct' and v.a[0] not in ('Glwe',) and len(v.a[1]) == 1:
        r2 = rproj(r, v.a[1][0][0])
        return E.norm(st, r2, True)
    return r


def fpoly(v, f=X.NOFACTS):
    if v.op == 'weak':
        return v
    if v.op == 'fvec':
        return v.a[0]
    if v.op == 'struct' and len(v.a[1]) == 1:
        return fpoly(v.a[1][0][1], f)
    if v.op in ('arr', 'list') or is_arrayish(v):
        return mk_sum(div(N, INT(2)), lambda t: mul(proj(v, ("i", t)), mk("fslot", t)), f)
    return weak('fourier data %s' % v.op)


def fval(E, st, x):
    r = floc(E, st, x)
    return fpoly(E.read(st, r), st.f) if r is not None else fpoly(E.val(st, x), st.f)


@model('FftView::forward_as_torus', 'FftView::forward_as_integer')
def m_fwd(E, st, a, fn, dty):
    r = floc(E, st, a[1])
    p = as_poly(E, st, a[2])
    E.fft_log.append((tuple(E.stack), fn.name, E.read(st, r), E.val(st, a[0]), E.val(st, a[2])))
    E.write(st, r, mk('fvec', mul(TAU, p) if fn.name.endswith('torus') else p))
    return UNIT


@model('FftView::backward_as_torus', 'FftView::add_backward_as_torus')
def m_bwd(E, st, a, fn, dty):
    r = E.at(st, a[1])
    p = fval(E, st, a[2])
    if p.op == 'weak':
        E.write(st, r, p)
        return UNIT
    v = mul(p, X.from_mono(((TAU, -1),)))
    if fn.name.startswith('add'):
        v = add(E.read(st, r), v)
    E.write(st, r, v)
    return UNIT


@model('Fft::new', 'FftView::forward_scratch', 'FftView::backward_scratch', 'ggsw::external_product_scratch', 'FourierGgswCiphertext::fill_with_forward_fourier_scratch')
def m_fft(E, st, a, fn, dty):
    if 'scratch' in fn.name:
        return ok(mk('cst', 'stackreq', ''))
    return mk('app', 'fft', E.val(st, proj(E.val(st, a[0]), 0)))


# secret keys, encryption
@model('GlweSecretKey::binary_from_container')
def m_keyfrom(E, st, a, fn, dty):
    return as_poly(E, st, a[0])


@model('GlweSecretKey::generate_binary', 'LweSecretKey::generate_binary')
def m_keygen(E, st, a, fn, dty):
    if 'Lwe' in short(fn.path) and 'Glwe' not in short(fn.path):
        return opq(('lwekey', E.val(st, proj(E.val(st, a[0]), 0))), ('slice', RING))
    t = opq(('glwekey', genid(E, st, a[-1], 'draw2')), POLY)
    t.ps = True
    return t


def genid(E, st, x, kind='draw'):
    """identity of the generator an encryption draws from (and its draw number in freshness mode)"""
    v = E.val(st, x)
    if not E.fresh_enc:
        return v
    k = ('g', kind)
    n = st.c.get(k, ZERO)
    E.pinned.add(k)
    st.c[k] = add(n, ONE)
    return mk('app', 'draw', v, n)


def sub_draw(g, i):
    """one of the several draws a gadget encryption makes"""
    if isinstance(g, T) and g.op == 'app' and g.a[0] == 'draw':
        return mk('app', 'draw', g.a[1], g.a[2], i)
    return g


def zenc(E, st, key, noise, gen):
    g = genid(E, st, gen)
    nz = E.val(st, noise)
    return mk('app', 'Zm', key, nz, g), mk('app', 'Zb', key, nz, g)


@model('GlweSecretKey::encrypt_glwe')
def m_encglwe(E, st, a, fn, dty):
    key = E.val(st, a[0])
    pt = as_poly(E, st, a[2])
    m, b = zenc(E, st, key, a[3], a[4])
    E.write(st, E.at(st, a[1]), glwe(m, add(b, pt)))
    return UNIT


@model('GlweSecretKey::decrypt_glwe')
def m_decglwe(E, st, a, fn, dty):
    key = E.val(st, a[0])
    c = E.val(st, a[2])
    E.write(st, E.at(st, a[1]), sub(proj(c, 'body'), mul(proj(c, 'mask'), key)))
    return UNIT


@model('GlweSecretKey::encrypt_constant_ggsw')
def m_encggsw(E, st, a, fn, dty):
    key = E.val(st, a[0])
    r = E.at(st, a[1])
    o = E.read(st, r)
    pt = E.val(st, proj(E.val(st, a[2]), 0))
    bl, lc = proj(o, 'bl'), proj(o, 'lc')
    g0, nz = genid(E, st, a[4]), E.val(st, a[3])

    def row(i):
        g1 = sub_draw(g0, i)
        m, b = mk('app', 'Zm', key, nz, g1), mk('app', 'Zb', key, nz, g1)
        # row i: level i/2+1, column i%2
        g = mul(pt, pow2(sub(INT(64), mul(bl, add(div(i, INT(2)), ONE)))))
        c = eq0(rem(i, INT(2)))
        return glwe(add(m, mul(c, g)), add(b, mul(NOT(c), g)))
    E.write(st, r, ggsw(mk_arr(scale(lc, 2), row), bl, lc))
    return UNIT


@model('GlweSecretKey::trivial_encrypt_constant_ggsw', 'GlweSecretKey::trivial_encrypt_glwe')
def m_trivial(E, st, a, fn, dty):
    E.write(st, E.at(st, a[1]), opq(('trivial', fn.name), None))
    return UNIT


# LWE
@model('LweCiphertext::allocate')
def m_lwealloc(E, st, a, fn, dty):
    n = proj(E.val(st, a[1]), 0)
    return mk_struct('Lwe', (('mask', mk_arr(sub(n, ONE), lambda i: a[0])), ('body', a[0])))


# decomposition
@model('SignedDecomposer::new')
def m_decnew(E, st, a, fn, dty):
    return mk_struct('Decomposer', (('bl', proj(E.val(st, a[0]), 0)), ('lc', proj(E.val(st, a[1]), 0))))


M['SignedDecomposer::base_log'] = g_field('bl', 'DecompositionBaseLog')
M['SignedDecomposer::level_count'] = g_field('lc', 'DecompositionLevelCount')
X.FIELD_EXTRA[CC + 'commons::math::decomposition::decomposer::SignedDecomposer'] = lambda ty, n, v: RING


def dparams(E, st, x):
    d = E.val(st, x)
    return proj(d, 'bl'), proj(d, 'lc')


@model('SignedDecomposer::closest_representable')
def m_closest(E, st, a, fn, dty):
    bl, lc = dparams(E, st, a[0])
    return app('closest1', bl, lc, E.val(st, a[1]))


@model('SignedDecomposer::fill_tensor_with_closest_representable')
def m_fillclosest(E, st, a, fn, dty):
    bl, lc = dparams(E, st, a[0])
    r = E.at(st, a[1])
    v = E.val(st, a[2])
    if ckind(v) == 'poly':
        E.write(st, r, app('closest', bl, lc, v))
    else:
        E.write(st, r, mk_arr(length(v), lambda i: app('closest1', bl, lc, proj(v, ('i', i)))))
    return UNIT


@model('SignedDecomposer::decompose_tensor', 'SignedDecomposer::decompose')
def m_decompose(E, st, a, fn, dty):
    bl, lc = dparams(E, st, a[0])
    v = E.val(st, a[1])
    if fn.name == 'decompose':      # digits of one value, highest level first
        return mkit(isrc('digits', bl, lc, lc, v), lc)
    return mk('struct', 'Dec', (('pos', ZERO), ('bl', bl), ('lc', lc), ('val', v)))


@model('TensorSignedDecompositionIter::next_term')
def m_nextterm(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.read(st, r)
    if v.op != 'struct' or v.a[0] != 'Dec':
        return weak('next_term')
    pos, bl, lc, x = proj(v, 'pos'), proj(v, 'bl'), proj(v, 'lc'), proj(v, 'val')
    E.write(st, rproj(r, 'pos'), add(pos, ONE))
    c = simp(LT(pos, lc), st.f)
    # terms come from the highest level down
    lvl = sub(lc, pos)
    if ckind(x) == 'poly':
        t = app('dec', bl, lc, lvl, x)
    else:
        t = mk_arr(length(x), lambda i: app('dec1', bl, lc, lvl, proj(x, ('i', i))))
    return opt(c, mk_struct('Term', (('lvl', lvl), ('val', t))))


@model('DecompositionTermTensor::as_tensor', 'DecompositionTerm::value')
def m_termval(E, st, a, fn, dty):
    v = E.val(st, a[0])
    return proj(v, 'val')


# random plaintexts and tensors
# maps built by the code: a term  mput(mput(mnil, k1, v1), k2, v2)
MAPENT = ('adt', 'MapEnt', ())


def ment(t):
    if t.op != 'weak':
        X.TY[t] = MAPENT
    return t


def mput(e, k, v):
    return ment(app('mput', e, k, v))


def mhas(e, k):
    if e.op == 'weak' or k.op == 'weak':
        return weak('map lookup')
    if e.op == 'app' and e.a[0] == 'mnil':
        return ZERO
    if e.op == 'app' and e.a[0] == 'mput':
        return X.OR(EQ(e.a[2], k), mhas(e.a[1], k)) if is_ring(k) and is_ring(e.a[2]) else weak('map key')
    if e.op == 'ite':
        return merge(e.a[0], mhas(e.a[1], k), mhas(e.a[2], k))
    h = app('mapHas', e, k)
    h.ind = True
    return h


def mget(e, k, ty=None):
    if e.op == 'weak' or k.op == 'weak':
        return weak('map lookup')
    if e.op == 'app' and e.a[0] == 'mnil':
        return UNDEF
    if e.op == 'app' and e.a[0] == 'mput':
        if e.a[2] is k:
            return e.a[3]
        return merge(EQ(e.a[2], k), e.a[3], mget(e.a[1], k, ty)) if is_ring(k) and is_ring(e.a[2]) else weak('map key')
    if e.op == 'ite':
        return merge(e.a[0], mget(e.a[1], k, ty), mget(e.a[2], k, ty))
    return typed_app('mapGet', ty, e, k)


def typed_app(f, ty, *a):
    t = app(f, *a)
    if ty is not None and t.op != 'weak':
        X.TY[t] = ty
        X.note_sort(t, ty)
    return t


def built(m):
    return m.op == 'struct' and m.a[0] == 'Map'


def mk_map(e):
    return e if e.op == 'weak' else mk('struct', 'Map', (('ent', e),))


@model('HashMap::new', 'HashMap::with_capacity', 'HashSet::new', 'HashSet::with_capacity', 'BTreeMap::new', 'BTreeSet::new')
def m_mapnew(E, st, a, fn, dty):
    return mk_map(ment(mk('app', 'mnil')))


def val_ty(fn):
    for x in fn.args:
        if x[0] == 'adt' and x[1] in X.MAP_TYPES and len(x[2]) > 1:
            return x[2][1]
    return None


@model('HashMap::insert', 'BTreeMap::insert')
def m_mapins(E, st, a, fn, dty):
    r = E.at(st, a[0])
    m = E.val(st, E.read(st, r))
    k = E.val(st, a[1])
    if built(m):
        e = proj(m, 'ent')
        E.write(st, r, mk_map(mput(e, k, E.val(st, a[2]))))
        h = mhas(e, k)
        return h if h.op == 'weak' else opt(h, mget(e, k, shape(E.val(st, a[2]))))
    E.write(st, r, weak('map insert'))
    return weak('previous entry')


@model('HashSet::insert', 'BTreeSet::insert')
def m_setins(E, st, a, fn, dty):
    r = E.at(st, a[0])
    m = E.val(st, E.read(st, r))
    k = E.val(st, a[1])
    if built(m):
        e = proj(m, 'ent')
        E.write(st, r, mk_map(mput(e, k, UNIT)))
        h = mhas(e, k)
        return h if h.op == 'weak' else NOT(h)
    E.write(st, r, weak('set insert'))
    return weak('previous entry')


@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get')
def m_mapget(E, st, a, fn, dty):
    r = E.at(st, a[0])
    m = E.val(st, E.read(st, r))
    k = E.val(st, a[1])
    if m.op == 'weak' or k.op == 'weak':
        return weak('map get')
    if built(m):
        if fn.name.endswith('mut'):
            return weak('map get_mut of a built map')
        h = mhas(proj(m, 'ent'), k)
        v = mget(proj(m, 'ent'), k)
        return weak('map get') if h.op == 'weak' else opt(h, E.box(st, v))
    h = app('mapHas', m, k)
    h.ind = True
    return opt(h, rproj(r, ('k', k)))


@model('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains')
def m_maphas(E, st, a, fn, dty):
    m, k = E.val(st, a[0]), E.val(st, a[1])
    return mhas(proj(m, 'ent') if built(m) else m, k)


@model('HashMap::entry')
def m_mapentry(E, st, a, fn, dty):
    r = E.at(st, a[0])
    m = E.val(st, E.read(st, r))
    k = E.val(st, a[1])
    if not built(m):
        return weak('map entry')
    h = mhas(proj(m, 'ent'), k)
    if h.op == 'weak':
        return h
    e = mk('struct', 'MapSlot', (('map', r), ('key', k)))
    return mk('enum', NOT(h), ((0, ((0, e),)), (1, ((0, e),))))


def slot(E, st, v):
    v = E.val(st, v)
    if v.op == 'struct' and v.a[0] == 'MapSlot':
        r = proj(v, 'map')
        m = E.val(st, E.read(st, r))
        if built(m):
            return r, proj(m, 'ent'), proj(v, 'key')
    return None


@model('VacantEntry::insert', 'OccupiedEntry::insert')
def m_slotins(E, st, a, fn, dty):
    s = slot(E, st, a[0])
    if s is None:
        E.havoc(st)
        return weak('entry insert')
    v = E.val(st, a[1])
    E.write(st, s[0], mk_map(mput(s[1], s[2], v)))
    return E.box(st, v)


@model('Entry::or_insert')
def m_orins(E, st, a, fn, dty):
    e = E.val(st, a[0])
    s = slot(E, st, X.payload(e, 0, 0)) if e.op == 'enum' else None
    if s is None:
        E.havoc(st)
        return weak('entry or_insert')
    v = E.val(st, a[1])
    h = mhas(s[1], s[2])
    E.write(st, s[0], mk_map(merge(h, s[1], mput(s[1], s[2], v))))
    return weak('reference into a map')


# random generators: in the erased mode every draw of one generator is the same atom
def draw(kind, poly):
    def f(E, st, a, fn, dty):
        g = genid(E, st, a[0], 'draw2')
        extra = [E.val(st, x) for x in a[2:]]
        t = app('genpoly' if poly else 'genval', mk('cst', kind, ''), g, *extra)
        if not poly:
            return t
        r = E.at(st, a[1])
        v = E.val(st, a[1])
        if ckind(v) == 'poly':
            E.write(st, r, t)
        else:
            E.write(st, r, mk_arr(length(v), lambda i: app('genval', mk('cst', kind, ''), g, i, *extra)))
        return UNIT
    return f


for n in ('uniform', 'uniform_binary', 'uniform_ternary', 'uniform_n_lsb', 'uniform_n_msb'):
    M['RandomGenerator::fill_tensor_with_random_' + n] = draw(n, True)
    M['RandomGenerator::random_' + n] = draw(n, False)


def osdraw(kind):
    """a draw from the operating system's entropy: every draw is a new value"""
    def f(E, st, a, fn, dty):
        c = ('g', 'osrand')
        n = st.c.get(c, ZERO)
        E.pinned.add(c)
        st.c[c] = add(n, ONE)
        return mk('app', 'osrand', mk('cst', kind, ''), n)
    return f


@model('thread::thread_rng', 'rand::thread_rng')
def m_trng(E, st, a, fn, dty):
    return mk('cst', 'thread_rng', '')


def rng_of(E, st, x):
    v = E.val(st, x)
    return v


@model('Rng::gen', 'RngCore::next_u64', 'RngCore::next_u32', 'Rng::gen_range')
def m_gen(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if v.op == 'weak':
        return weak('random')
    if v.op == 'cst' and v.a[0] == 'thread_rng' or v.op in ('struct', 'cst') and 'OsRng' in str(v.a):
        return osdraw('os:%s' % (dty[1] if dty and dty[0] == 'prim' else '?'))(E, st, a, fn, dty)
    r = E.at(st, a[0])
    if r is not None:
        E.write(st, r, app('advanced', v))
    return app('prngdraw', v)


@model('SeedableRng::from_entropy')
def m_fent(E, st, a, fn, dty):
    return osdraw('os:u128')(E, st, a, fn, dty)


@model('SeedableRng::seed_from_u64')
def m_seed64(E, st, a, fn, dty):
    return app('new:rng', E.val(st, a[0]))


@model('SliceRandom::shuffle')
def m_shuffle(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.read(st, r)
    k = osdraw('shuffle')(E, st, a, fn, dty)
    rng = E.val(st, a[1])
    E.write(st, r, mk_arr(length(v), lambda i: proj(v, ('i', app('perm', length(v), rng, k, i)))))
    return UNIT


def ctor(tag):
    def f(E, st, a, fn, dty):
        vs = [E.val(st, x) for x in a]
        w = [v for v in vs if v.op == 'weak']
        return w[0] if w else app('new:' + tag, *vs)
    return f


for n in ('RandomGenerator::new', 'SecretRandomGenerator::new', 'DeterministicSeeder::new', 'EncryptionRandomGenerator::new',
          'UnixSeeder::new'):
    M[n] = ctor(n.split('::')[0])


@model('Seeder::is_available')
def m_savail(E, st, a, fn, dty):
    t = app('seederAvailable')
    t.ind = True
    return t


@model('Seeder::seed')
def m_seed(E, st, a, fn, dty):
    v = E.val(st, a[0])
    c = ('g', 'seeds')
    n = st.c.get(c, ZERO)
    E.pinned.add(c)
    st.c[c] = add(n, ONE)
    return nt('concrete_csprng::seeders::Seed', app('seedof', v, n))


@model('LogStandardDev::from_log_standard_dev')
def m_lsd(E, st, a, fn, dty):
    return mk_struct(CC + 'specification::dispersion::LogStandardDev', ((0, E.val(st, a[0])),))


@model('DispersionParameter::get_log_standard_dev')
def m_getlsd(E, st, a, fn, dty):
    return proj(E.val(st, a[0]), 0)


# LWE
LWE = ('adt', CC + 'commons::crypto::lwe::ciphertext::LweCiphertext', ())
X.NF_EXTRA[LWE[1]] = 2
X.FIELD_NAMES[LWE[1]] = ('mask', 'body')
X.FIELD_EXTRA[LWE[1]] = lambda ty, n, v: ('slice', RING) if n == 'mask' else RING


@model('LweCiphertext::lwe_size')
def m_lwesize(E, st, a, fn, dty):
    return nt(CC + 'specification::parameters::LweSize', add(length(proj(E.val(st, a[0]), 'mask')), ONE))


@model('LweSecretKey::key_size')
def m_keysize(E, st, a, fn, dty):
    return nt(CC + 'specification::parameters::LweDimension', length(E.val(st, a[0])))


def lwe(m, b):
    return mk_struct('Lwe', (('mask', m), ('body', b)))


@model('LweSecretKey::encrypt_lwe')
def m_enclwe(E, st, a, fn, dty):
    key = E.val(st, a[0])
    pt = E.val(st, proj(E.val(st, a[2]), 0))
    o = E.val(st, a[1])
    g = genid(E, st, a[4])
    nz = E.val(st, a[3])
    E.write(st, E.at(st, a[1]), lwe(mk_arr(length(proj(o, 'mask')), lambda i: app('ZLm', key, nz, sub_draw(g, i), i)), add(app('ZLb', key, nz, g), pt)))
    return UNIT


@model('LweSecretKey::decrypt_lwe')
def m_declwe(E, st, a, fn, dty):
    key = E.val(st, a[0])
    c = E.val(st, a[2])
    m = proj(c, 'mask')
    s = mk_sum(length(m), lambda i: mul(proj(m, ('i', i)), proj(key, ('i', i))))
    r = rproj(E.at(st, a[1]), 0)
    E.write(st, r, sub(proj(c, 'body'), s))
    return UNIT


@model('LweCiphertext::fill_with_glwe_sample_extraction')
def m_sext(E, st, a, fn, dty):
    r = E.at(st, a[0])
    c = E.val(st, a[1])
    n = E.val(st, proj(E.val(st, a[2]), 0))
    m, b = proj(c, 'mask'), proj(c, 'body')

    def el(i):
        return merge(LE(i, n), coef(m, sub(n, i)), neg(coef(m, sub(add(N, n), i))))
    E.write(st, r, lwe(mk_arr(N, el), coef(b, n)))
    return UNIT


# ------------------------------------------------------------------ bit vectors
def bit_of(x, k):
    """bit k of an unsigned integer"""
    return NOT(EQ(rem(div(x, pow2(k)), INT(2)), ZERO))


def bit_width(E, st, x):
    return INT(64)


def msb0(fn):
    return any('Msb0' in str(t) for t in fn.args or ())


@model('bitvec::view_bits')
def m_viewbits(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if not is_ring(v) or v.op == 'weak' or v.ps:
        return weak('view_bits')
    w = 64
    t = fn.args[0] if fn.args else None
    if t and t[0] == 'prim' and t[1][0] in 'ui':
        w = {'size': 64}.get(t[1][1:]) or int(t[1][1:])
    if msb0(fn):
        return E.box(st, mk_arr(INT(w), lambda i: bit_of(v, sub(INT(w - 1), i))))
    return E.box(st, mk_arr(INT(w), lambda i: bit_of(v, i)))


@model('bitvec::to_bitvec', 'bitvec::clone', 'bitvec::to_owned')
def m_tobv(E, st, a, fn, dty):
    return E.val(st, a[0])


for n, o in (('reverse', 'slice::reverse'), ('len', 'Vec::len'), ('push', 'Vec::push'), ('new', 'Vec::new'), ('with_capacity', 'Vec::new'),
             ('pop', 'Vec::pop'), ('is_empty', 'Vec::is_empty'), ('iter', 'slice::iter'), ('index', 'Index::index'), ('truncate', 'Vec::truncate'),
             ('split_at', 'slice::split_at'), ('resize', 'Vec::resize'), ('get', 'slice::get'), ('first', 'slice::first'), ('last', 'slice::last')):
    if o in M:
        M['bitvec::' + n] = M[o]
M['bitvec::deref'] = M['bitvec::deref_mut'] = M['bitvec::as_bitslice'] = M['bitvec::as_mut_bitslice'] = newloc


@model('bitvec::into_iter')
def m_bvinto(E, st, a, fn, dty):
    return M['IntoIterator::into_iter'](E, st, a, fn, dty)


@model('bitvec::load', 'bitvec::load_le')
def m_bvload(E, st, a, fn, dty):
    v = E.val(st, a[0])
    n = length(v)
    if not is_ring(n) or v.op == 'weak' or msb0(fn) or 'Msb0' in str(fn.path):
        return weak('load %s %s' % (v.op, fn.args))
    return mk_sum(n, lambda i: mul(proj(v, ('i', i)), pow2(i)))


# ------------------------------------------------------------------ further library functions
@model('bool::then', 'bool::then_some')
def m_then(E, st, a, fn, dty):
    c = E.val(st, a[0])
    if not is_ring(c):
        return weak('bool::then')
    if fn.name == 'then_some':
        return gated(E, st, c, lambda s: some(a[1]), lambda s: NONE)
    return gated(E, st, c, lambda s: some(E.call_value(s, a[1], [])), lambda s: NONE)


@model('Option::or_else', 'Option::and', 'Option::zip', 'Option::flatten', 'Option::is_none_or', 'Option::xor')
def m_opt2(E, st, a, fn, dty):
    v = E.val(st, a[0])
    if v.op == 'weak':
        for x in a[1:]:
            E.clobber(st, x, fn.name)
        return v
    d = discr(v)
    n = fn.name
    if not is_ring(d):
        for x in a[1:]:
            E.clobber(st, x, fn.name)
        return weak('option')
    if n == 'or_else':
        return gated(E, st, d, lambda s: v, lambda s: E.call_value(s, a[1], []))
    if n == 'and':
        return gated(E, st, d, lambda s: a[1], lambda s: NONE)
    if n == 'is_none_or':
        return gated(E, st, d, lambda s: E.call_value(s, a[1], [payload(v, 1, 0)]), lambda s: ONE)
    if n == 'flatten':
        return gated(E, st, d, lambda s: payload(v, 1, 0), lambda s: NONE)
    if n == 'zip':
        w = E.val(st, a[1])
        e = discr(w)
        if w.op == 'weak' or not is_ring(e):
            return weak('option')
        return gated(E, st, mul(d, e), lambda s: some(tup(payload(v, 1, 0), payload(w, 1, 0))), lambda s: NONE)
    w = E.val(st, a[1])
    e = discr(w)
    if w.op == 'weak' or not is_ring(e):
        return weak('option')
    return gated(E, st, d, lambda s: merge(e, NONE, v), lambda s: w)


M['Option::as_deref_mut'] = M['Option::as_ref']


@model('Option::replace', 'Option::insert')
def m_opt_replace(E, st, a, fn, dty):
    r = E.norm(st, a[0])
    v = E.read(st, r)
    E.write(st, r, some(a[1]))
    if fn.name == 'replace':
        return v
    return rproj(rproj(E.at(st, a[0]), ('v', 1)), 0)


@model('Ord::clamp', 'num::clamp')
def m_clamp(E, st, a, fn, dty):
    x, lo, hi = (ring1(E, st, y) for y in a[:3])
    if isfloat(fn) or not (is_ring(x) and is_ring(lo) and is_ring(hi)):
        return app('fclamp', x, lo, hi)
    return X.MIN(X.MAX(x, lo, st.f), hi, st.f)


@model('num::is_multiple_of')
def m_multiple(E, st, a, fn, dty):
    return simp(EQ(X.rem(ring1(E, st, a[0]), ring1(E, st, a[1])), ZERO), st.f)


@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains')
def m_rcontains(E, st, a, fn, dty):
    v, x = E.val(st, a[0]), E.val(st, a[1])
    if not is_ring(x):
        return weak('range contains')
    if v.op == 'struct' and isinstance(v.a[0], str):
        tag = v.a[0].rsplit('::', 1)[-1]
        b = [E.val(st, y) for _, y in v.a[1]]
        if all(is_ring(y) for y in b):
            if tag == 'Range':
                return simp(mul(LE(b[0], x), LT(x, b[1])), st.f)
            if tag == 'RangeFrom':
                return simp(LE(b[0], x), st.f)
            if tag == 'RangeTo':
                return simp(LT(x, b[0]), st.f)
    return weak('range contains')


@model('Vec::clear')
def m_clear(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.read(st, r)
    E.write(st, r, mk_arr(ZERO, lambda i: proj(v, ('i', i))) if v.op != 'weak' else v)
    return UNIT


@model('Tensor::last', 'Tensor::last_mut')
def m_tlast(E, st, a, fn, dty):
    r = E.at(st, a[0])
    v = E.read(st, r)
    n = X.N if ckind(v) == 'poly' else length(v) if v.op in ('arr', 'list') or is_arrayish(v) else None
    return weak('last') if n is None else rproj(r, ('c', sub(n, ONE)))


@model('Polynomial::update_with_wrapping_add_mul', 'Polynomial::update_with_wrapping_sub_mul')
def m_upmul(E, st, a, fn, dty):
    r = E.at(st, a[0])
    p = mul(as_poly(E, st, a[1]), as_poly(E, st, a[2]))
    E.write(st, r, (add if 'add' in fn.name else sub)(as_poly(E, st, r), p))
    return UNIT


@model('mem::take')
def m_take(E, st, a, fn, dty):
    r = E.norm(st, a[0])
    v = E.read(st, r)
    E.write(st, r, m_default(E, st, [], fn, dty))
    return v


def found_value(E, st, a, c, i, src):
    s = st.copy()
    s.f = s.f.plus_cond(c)
    return opt(c, payload(E.call_value(s, a[1], [elem(E, s, src, i)]), 1, 0))


search_model('Iterator::find_map')((lambda E, s, a, x: discr(E.val(s, E.call_value(s, a[1], [x]))), found_value))


@model('iter::once')
def m_once(E, st, a, fn, dty):
    return mkit(isrc('vals', mk('list', a[0])), ONE)


@model('iter::empty')
def m_iempty(E, st, a, fn, dty):
    return mkit(isrc('vals', mk('list')), ZERO)


@adapter(['inspect'])
def m_inspect(E, st, it, a, fn):
    src, n = base(E, st, it)
    return mkit(isrc('inspect', src, a[1]), n)
