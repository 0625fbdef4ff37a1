"""Substitution X -> X^k, its keys and the trace; key switching in the Fourier domain."""
import terms as X
import model
import interp
import check
from terms import *
from check import *
from canon import canon
from specs import rlwe, mb, extp, radd, RLWE, evalxk
from props import obl
from obl_crypto import CTX, RGSW, SK, KSK, R, nt, cf, gad, fresh_ct, keyswitch, glwe

FKSK = 'rlwe::FourierRLWEKeyswitchKey'
FCT = 'rlwe::FourierRLWECiphertext'
U = 'utils::'
POLY = ('adt', 'poly', ())
TAU = model.TAU


def iterate(n, tys, inits, step):
    """iterates of step(k, states) -> states after n passes, one value per component"""
    out = []
    for j in range(len(inits)):
        order = [j] + [x for x in range(len(inits)) if x != j]
        k, S = fresh('k'), fresh('s')
        st = [None] * len(inits)
        for p, x in enumerate(order):
            st[x] = proj(S, ('st', p, tys[x], tys[x] == POLY))
        post = step(k, st)
        lam = X.close_lam(n, k, X.close_lam(X.UNIT, S, mk('list', *[post[x] for x in order])))
        t = mk('app', 'fold', ZERO, n, mk('list', *[inits[x] for x in order]), lam)
        if t not in X.TY:
            X.TY[t] = tys[j]
            X.note_sort(t, tys[j])
        t.ps = t.ps or tys[j] == POLY
        out.append(t)
    return out


def shape(C):
    """the functions these obligations take as building blocks"""
    for p in (U + 'eval_x_k', U + 'eval_x_k_in_memory'):
        C.private(p)


# ---------------------------------------------------------------- the substitution itself
@obl('C24', 'X^i goes to X^(ik) with the negacyclic sign')
def automorphism(C):
    r = C.run(C.private(U + 'eval_x_k_in_memory'))
    p, k = r.arg(1), r.arg(2)
    got = r.out(0)
    C.leaves += 1
    # the reference walks over the coefficients; for odd k every target is met once
    o = r.arg(0)
    n = X.MAX(sub(X.N, ONE), ZERO)

    def step(i, s):
        e = mul(k, add(i, ONE))
        j = X.rem(e, X.N)
        sign = sub(scale(EQ(X.rem(X.div(e, X.N), INT(2)), ZERO), 2), ONE)
        v = mul(sign, coef(p, add(i, ONE)))
        return [add(s[0], mul(sub(v, coef(s[0], j)), xpow(j)))]
    ref_, = iterate(n, [POLY], [add(o, sub(coef(p, ZERO), coef(o, ZERO)))], step)
    same = canon(ref_) is canon(got)
    adm, sep, note = interp.terms_differ(got, evalxk(p, k), r.assume())
    C.interps += adm
    if adm >= 4 and sep >= 2:
        C.results.append(check.Res(check.BAD, C.cur, 'not the substitution X -> X^k (%d of %d admissible interpretations)\n      computed %s'
                                   % (sep, adm, X.show(canon(got), 10)[:900]), 'coefficients', r.path, r.span))
    elif same:
        C.hold(r, 'coefficients', 'coefficient i is stored at ik mod N with the sign of ik div N')
    else:
        C.undecided(r, 'coefficients', 'organised differently; %d interpretations found no difference (%s)' % (adm, note))
    guards = r.assume()
    odd = EQ(X.rem(k, INT(2)), ONE)
    if any(g is odd for g in guards):
        C.hold(r, 'odd exponents only')
    else:
        C.undecided(r, 'odd exponents only', 'no assertion that k is odd')
    shape(C)
    r = C.run(U + 'eval_x_k')
    C.expect(r, 'allocating form', r.ret, evalxk(r.arg(0), r.arg(1)))


@obl('C24', 'subs switches the substituted ciphertext back with its own exponent')
def subs(C):
    shape(C)
    r = C.run(KSK + '::subs')
    k, after, before = (r.arg(i) for i in range(3))
    m, b = mb(before)
    e = C.fld(k, KSK, 'subs_k')
    C.expect(r, 'after', r.out(1), keyswitch(C, k, evalxk(m, e), evalxk(b, e)))
    r = C.run(FKSK + '::subs')
    k, after, before = (r.arg(i) for i in range(3))
    m, b = mb(before)
    e = C.fld(k, FKSK, 'subs_k')
    fexpect(C, r, 'fourier', r.out(1), fswitch(C, k, evalxk(m, e), evalxk(b, e)))


@obl('C24', 'the substitution key switches from s(X^k) to s')
def subskey(C):
    shape(C)
    r = C.run(KSK + '::fill_with_subs_keyswitch_key')
    key, before, after, k, std, gen = (r.arg(i) for i in range(6))
    bl, lc, ks = nt(C.fld(key, KSK, 'decomp_base_log')), nt(C.fld(key, KSK, 'decomp_level_count')), C.fld(key, KSK, 'ksks')
    i, f = var('l', lc, length(ks))
    got = proj(C.fld(r.out(0), KSK, 'ksks'), ('i', i))
    s = evalxk(nt(after), k)
    C.expect(r, 'level', got, rlwe(*fresh_ct(C, after, None, gen, std, mul(s, gad(bl, add(i, ONE))))), facts=f)
    C.expect(r, 'source key', nt(r.out(1)), s)
    C.expect(r, 'exponent', C.fld(r.out(0), KSK, 'subs_k'), k)
    for n in ('decomp_base_log', 'decomp_level_count'):
        C.expect(r, n, C.fld(r.out(0), KSK, n), C.fld(key, KSK, n))


def allkeys(C, path, key):
    shape(C)
    r = C.run(path)
    sk, ctx = r.arg(0), r.arg(1)
    if r.ret.wk or r.ret.op != 'struct' or r.ret.a[0] != 'Map':
        C.undecided(r, 'map', 'the returned map is not summarised')
        return
    ln = app('log2', X.N)

    def step(i, s):
        k = add(X.div(X.N, pow2(i)), ONE)
        return [model.mput(s[0], k, key(C, sk, ctx, k))]
    exp, = iterate(ln, [('adt', 'MapEnt', ())], [model.ment(mk('app', 'mnil'))], step)
    got = canon(proj(r.ret, 'ent'))
    exp = canon(exp)
    if got is exp:
        C.hold(r, 'keys', 'one key for every N/2^i + 1, 0 <= i < log2(N)')
        return
    C.leaves += 1
    adm, sep, note = interp.terms_differ(got, exp, r.assume())
    C.interps += adm
    # an exponent the trace asks for, and the key found there
    if adm >= 4 and sep >= 2:
        C.results.append(check.Res(check.BAD, C.cur, 'not the key set the trace uses (%d of %d admissible interpretations)\n      computed %s'
                                   % (sep, adm, X.show(got, 12)[:1500]), 'keys', r.path, r.span))
    else:
        C.undecided(r, 'keys', 'organised differently; %d interpretations found no difference (%s)' % (adm, note))


def plain_key(C, sk, ctx, k):
    bl, lc = cf(C, ctx, 'ks_base_log'), cf(C, ctx, 'ks_level_count')
    lv = mk_arr(nt(lc), lambda l: rlwe(*fresh_ct(C, sk, ctx, pt=mul(evalxk(nt(sk), k), gad(nt(bl), add(l, ONE))))))
    return kstruct(C, KSK, lv, bl, lc, k)


def kstruct(C, adt, lv, bl, lc, k):
    vals = {'ksks': lv, 'decomp_base_log': bl, 'decomp_level_count': lc, 'subs_k': k,
            'polynomial_size': mk_struct('concrete_commons::parameters::PolynomialSize', ((0, X.N),))}
    fs = []
    for i, (n, ty) in enumerate(X.ADT[adt]['variants'][0][1]):
        if n not in vals:
            raise Undecided('field %s of %s' % (n, adt))
        v = vals[n]
        if n == 'polynomial_size':
            v = mk_struct(X.struct_tag(ty), ((0, X.N),))
        fs.append((i, v))
    return mk_struct(adt, tuple(fs))


def tofourier(C, key):
    lv = C.fld(key, KSK, 'ksks')
    return kstruct(C, FKSK, mk_arr(length(lv), lambda l: fct(C, *[mul(TAU, x) for x in mb(proj(lv, ('i', l)))])),
                   C.fld(key, KSK, 'decomp_base_log'), C.fld(key, KSK, 'decomp_level_count'), C.fld(key, KSK, 'subs_k'))


def fpoly(x):
    return mk_struct(model.FPOLY, ((0, mk('fvec', x)),))


def fct(C, m, b):
    fs = {C.field(FCT, 'mask'): fpoly(m), C.field(FCT, 'body'): fpoly(b)}
    return mk_struct(FCT, tuple(sorted(fs.items())))


@obl('C24', 'the key set holds one key per automorphism of the trace')
def keyset(C):
    allkeys(C, 'rlwe::gen_all_subs_ksk', plain_key)
    allkeys(C, 'rlwe::gen_all_subs_ksk_fourier', lambda C, sk, ctx, k: tofourier(C, plain_key(C, sk, ctx, k)))


# ---------------------------------------------------------------- key switching in the Fourier domain
@obl('C23', 'conversion to the Fourier domain keeps every level')
def conv(C):
    r = C.run(KSK + '::into_fourier')
    C.expect(r, 'key', r.ret, tofourier(C, r.arg(0)))


def fpart(C, k, i, name):
    """polynomial behind a component of level i of a Fourier key"""
    return proj(proj(C.fld(proj(C.fld(k, FKSK, 'ksks'), ('i', i)), FCT, name), 0), 'fp')


def fswitch(C, k, m, b):
    """the plain sum, and the sum taken two levels at a time"""
    bl, lc = nt(C.fld(k, FKSK, 'decomp_base_log')), nt(C.fld(k, FKSK, 'decomp_level_count'))
    n = length(C.fld(k, FKSK, 'ksks'))

    def term(j, name):
        return mul(app('dec', bl, lc, sub(lc, j), app('closest', bl, lc, m)), fpart(C, k, sub(sub(n, ONE), j), name))

    def one(name):
        return mk_sum(n, lambda j: term(j, name))

    def two(name):
        h = X.div(add(n, ONE), INT(2))
        return mk_sum(h, lambda j: add(term(scale(j, 2), name), mul(LT(add(scale(j, 2), ONE), n), term(add(scale(j, 2), ONE), name))))
    return [fct(C, neg(s('mask')), sub(mul(TAU, b), s('body'))) for s in (two, one)]


def fexpect(C, r, leaf, got, alts):
    g = canon(got)
    for e in alts[1:]:
        if canon(e) is g and not g.wk:
            C.expect(r, leaf, got, e)
            return
    C.expect(r, leaf, got, alts[0])


@obl('C23', 'key switching in the Fourier domain subtracts digit_l(mask) * key_l')
def fks(C):
    r = C.run(FKSK + '::keyswitch_ciphertext')
    k, after, before = (r.arg(i) for i in range(3))
    fexpect(C, r, 'after', r.out(1), fswitch(C, k, *mb(before)))


# ---------------------------------------------------------------- trace and expansion
def subs_fn(C, adt, key, ct, ix):
    m, b = mb(ct)
    return app('polyfn', mk('cst', adt, str(ix)), key, m, b)


def run_trace(C, path, adt):
    C.private(adt + '::subs')

    def prepare(E, st, b, args):
        E.specs = dict(E.specs)

        def f(E, st, a, fn):
            key, before = E.val(st, a[0]), E.val(st, a[2])
            if key.wk or before.wk:
                v = X.weak('substitution arguments')
            else:
                v = [subs_fn(C, adt, key, before, j) for j in range(2)]
                v = rlwe(*v) if adt == KSK else fct(C, *[mul(TAU, x) for x in v])
            E.write(st, E.at(st, a[1]), v)
            return UNIT
        E.specs[adt + '::subs'] = f
        return args
    return C.run(path, prepare, 'trace')


def traced(C, adt, keys, ct):
    def step(i, s):
        k = add(X.div(X.N, pow2(i)), ONE)
        key = proj(keys, ('k', k))
        return [add(x, subs_fn(C, adt, key, rlwe(*s), j)) for j, x in enumerate(s)]
    return rlwe(*iterate(app('log2', X.N), [POLY, POLY], list(mb(ct)), step))


@obl('C24', 'the trace adds the image under every automorphism N/2^i + 1 in turn')
def trace(C):
    r = run_trace(C, R + 'trace1', KSK)
    C.expect(r, 'result', r.ret, traced(C, KSK, r.arg(1), r.arg(0)))
    r = run_trace(C, R + 'trace1_fourier', FKSK)
    C.expect(r, 'fourier', r.out(1), traced(C, FKSK, r.arg(2), r.arg(0)))


def trace_fn(keys, ct):
    m, b = mb(ct)
    return rlwe(*[app('polyfn', mk('cst', 'trace', str(j)), keys, m, b) for j in range(2)])


@obl('C24', 'expansion: rows of level l are neg_s * trace(c_l) and trace(c_l)')
def expansion(C):
    def prepare(E, st, b, args):
        E.specs = dict(E.specs)

        def plain(E, st, a, fn):
            c, k = E.val(st, a[0]), E.val(st, a[1])
            return X.weak('trace arguments') if c.wk or k.wk else trace_fn(k, c)

        def four(E, st, a, fn):
            c, k = E.val(st, a[0]), E.val(st, a[2])
            E.write(st, E.at(st, a[1]), X.weak('trace arguments') if c.wk or k.wk else trace_fn(k, c))
            return UNIT
        E.specs[R + 'trace1'], E.specs[R + 'trace1_fourier'] = plain, four
        return args
    for p in ('trace1', 'trace1_fourier'):
        C.private(R + p)
    for path, leaf in (('rlwe::expand', 'plain'), ('rlwe::expand_fourier', 'fourier')):
        r = C.run(path, prepare, 'expand')
        cs, keys, neg_s, ctx = (r.arg(i) for i in range(4))
        lc = nt(cf(C, ctx, 'level_count'))
        l, f = var('l', lc)
        rows = proj(nt(r.ret), 'rows')
        t = trace_fn(keys, proj(cs, ('i', l)))
        C.expect(r, leaf + ' secret row', proj(rows, ('i', scale(l, 2))), nt(extp(neg_s, t)), facts=f)
        C.expect(r, leaf + ' constant row', proj(rows, ('i', add(scale(l, 2), ONE))), nt(t), facts=f)
        C.expect(r, leaf + ' rows', length(rows), scale(lc, 2))
        for n, x in (('bl', 'base_log'), ('lc', 'level_count')):
            C.expect(r, leaf + ' ' + n, proj(nt(r.ret), n), nt(cf(C, ctx, x)))
