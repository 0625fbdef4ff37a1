"""Ciphertext algebra, encryption, key switching and codec obligations."""
import terms as X
from terms import *
from check import *
from specs import rlwe, mb, extp, radd, rsub, RLWE
from props import obl

CTX = 'context::Context'
RGSW = 'rgsw::RGSWCiphertext'
SK = 'rlwe::RLWESecretKey'
LCT = 'lwe::LWECiphertext'
KSK = 'rlwe::RLWEKeyswitchKey'
CODEC = 'codec::Codec'
R = 'rlwe::RLWECiphertext::'
S = 'rlwe::RLWESecretKey::'


# ---------------------------------------------------------------- shapes
def glwe(m, b):
    return mk_struct('Glwe', (('mask', m), ('body', b)))


def rgsw(row, bl, lc):
    """row(i, level, top) -> (mask, body)"""
    def r(i):
        lvl = add(X.div(i, INT(2)), ONE)
        return glwe(*row(i, lvl, EQ(X.rem(i, INT(2)), ZERO)))
    return mk_struct(RGSW, ((0, mk_struct('Ggsw', (('rows', mk_arr(scale(lc, 2), r)), ('bl', bl), ('lc', lc)))),))


def nt(v):
    return proj(v, 0)


def cf(C, ctx, n):
    v = C.fld(ctx, CTX, n)
    return v


def gad(bl, lvl):
    """2^(64 - bl*lvl)"""
    return pow2(sub(INT(64), mul(bl, lvl)))


def fresh_ct(C, sk, ctx, gen=None, std=None, pt=ZERO):
    """(mask, body) of a fresh encryption of pt with the context's noise and generator"""
    std = cf(C, ctx, 'std') if std is None else std
    gen = cf(C, ctx, 'encryption_generator') if gen is None else gen
    k = proj(sk, 0)
    return mk('app', 'Zm', k, std, gen), add(mk('app', 'Zb', k, std, gen), pt)


def codec_delta(C, cod):
    return C.fld(cod, CODEC, 'delta')


def codec_dec(C, cod, x):
    d = C.fld(cod, CODEC, 'decomposer')
    return X.div(app('closest1', proj(d, 'bl'), proj(d, 'lc'), x), codec_delta(C, cod))


def phase(key, ct):
    m, b = mb(ct)
    return sub(b, mul(m, key))


def polysum(f):
    return mk_sum(X.N, lambda i: mul(xpow(i), f(i)))


def guard(r):
    """condition under which the function returns"""
    g = []
    for stk, x, lp in r.E.guards:
        if x not in g and not lp:
            g.append(x)
    return mul(*g) if g else ONE


def args(r, n):
    return [r.arg(i) for i in range(n)]


# ---------------------------------------------------------------- C19 RLWE linear algebra
@obl('C19', 'allocation and clearing give the zero ciphertext')
def zero(C):
    z = rlwe(ZERO, ZERO)
    C.expect(*(lambda r: (r, 'result', r.ret, z))(C.run(R + 'allocate')))
    r = C.run(R + 'clear')
    C.expect(r, 'self', r.out(0), z)


@obl('C19', 'copying a ciphertext copies mask and body')
def copy(C):
    r = C.run(R + 'fill_with_copy')
    C.expect(r, 'self', r.out(0), rlwe(*mb(r.arg(1))))


@obl('C19', 'addition and subtraction act on mask and body')
def addsub(C):
    for f, g in (('update_with_add', radd), ('update_with_sub', rsub)):
        r = C.run(R + f)
        C.expect(r, f, r.out(0), g(r.arg(0), r.arg(1)))


@obl('C19', 'single component updates leave the other component alone')
def component(C):
    for part, ix in (('mask', 0), ('body', 1)):
        for f, g in (('add', add), ('sub', sub), ('mul', mul), ('mul_with_buf', mul)):
            r = C.run(R + 'update_%s_with_%s' % (part, f))
            v = list(mb(r.arg(0)))
            v[ix] = g(v[ix], r.arg(1))
            C.expect(r, 'update_%s_with_%s' % (part, f), r.out(0), rlwe(*v))


@obl('C19', 'monomial division multiplies mask and body by X^-m')
def monodiv(C):
    r = C.run(R + 'update_with_monomial_div')
    m, b = mb(r.arg(0))
    x = xpow(neg(nt(r.arg(1))))
    C.expect(r, 'self', r.out(0), rlwe(mul(m, x), mul(b, x)))


@obl('C19', 'naive polynomial products')
def naive(C):
    r = C.run('rlwe::naive_update_with_mul_acc')
    p1, p2, p3 = args(r, 3)
    C.expect(r, 'accumulator', r.out(0), add(p1, mul(p2, p3)))


# ---------------------------------------------------------------- C20 RGSW
@obl('C20', 'external product adds RGSW x RLWE to the output')
def extprod(C):
    for f in ('external_product', 'external_product_with_buf'):
        r = C.run('rgsw::RGSWCiphertext::' + f)
        g, o, d = args(r, 3)
        C.expect(r, f, r.out(1), radd(o, extp(g, d)))


@obl('C20', 'cmux selects ct0 + g*(ct1-ct0)')
def cmux(C):
    for f in ('cmux', 'cmux_with_buf'):
        r = C.run('rgsw::RGSWCiphertext::' + f)
        g, o, a, b = args(r, 4)
        C.expect(r, f, r.out(1), radd(a, extp(g, rsub(b, a))))


@obl('C20', 'RGSW addition is row-wise and keeps the decomposition')
def gadd(C):
    r = C.run('rgsw::RGSWCiphertext::update_with_add')
    a, b = nt(r.arg(0)), nt(r.arg(1))
    ra, rb = proj(a, 'rows'), proj(b, 'rows')

    def row(i):
        x, y = proj(ra, ('i', i)), proj(rb, ('i', i))
        return glwe(add(proj(x, 'mask'), proj(y, 'mask')), add(proj(x, 'body'), proj(y, 'body')))
    C.expect(r, 'self', nt(r.out(0)), mk_struct('Ggsw', (('rows', mk_arr(length(ra), row)), ('bl', proj(a, 'bl')), ('lc', proj(a, 'lc')))))


@obl('C20', 'row accessors return the requested row')
def rows_(C):
    r = C.run('rgsw::RGSWCiphertext::get_nth_row')
    row = proj(proj(nt(r.arg(0)), 'rows'), ('i', r.arg(1)))
    C.expect(r, 'nth row', r.ret, rlwe(proj(row, 'mask'), proj(row, 'body')))
    r = C.run('rgsw::RGSWCiphertext::get_last_row')
    g = nt(r.arg(0))
    row = proj(proj(g, 'rows'), ('i', sub(scale(proj(g, 'lc'), 2), ONE)))
    C.expect(r, 'last row', r.ret, rlwe(proj(row, 'mask'), proj(row, 'body')))


@obl('C20', 'allocation has two zero rows per level')
def galloc(C):
    r = C.run('rgsw::RGSWCiphertext::allocate')
    C.expect(r, 'result', r.ret, rgsw(lambda i, l, t: (ZERO, ZERO), nt(r.arg(1)), nt(r.arg(2))))


@obl('C20', 'size and decomposition accessors')
def gacc(C):
    for f, e in (('decomposition_base_log', lambda g: proj(g, 'bl')), ('decomposition_level_count', lambda g: proj(g, 'lc')),
                 ('ciphertext_count', lambda g: length(proj(g, 'rows')))):
        r = C.run('rgsw::RGSWCiphertext::' + f)
        C.expect(r, f, nt(r.ret), e(nt(r.arg(0))))


# ---------------------------------------------------------------- C21 encryption
@obl('C21', 'RLWE encryption adds the plaintext to an encryption of zero under the key')
def enc(C):
    r = C.run(S + 'encrypt_rlwe')
    sk, ct, pt, std, gen = args(r, 5)
    C.expect(r, 'ciphertext', r.out(1), rlwe(*fresh_ct(C, sk, None, gen, std, pt)))


@obl('C21', 'encode-encrypt scales by delta')
def enc2(C):
    r = C.run(S + 'encode_encrypt_rlwe')
    sk, ct, pt, ctx = args(r, 4)
    C.expect(r, 'ciphertext', r.out(1), rlwe(*fresh_ct(C, sk, ctx, pt=mul(pt, codec_delta(C, cf(C, ctx, 'codec'))))))


@obl('C21', 'constant encryption puts the scalar on the constant coefficient')
def enc3(C):
    r = C.run(S + 'encrypt_constant_rlwe')
    sk, ct, pt, ctx = args(r, 4)
    C.expect(r, 'ciphertext', r.out(1), rlwe(*fresh_ct(C, sk, ctx, pt=nt(pt))))


@obl('C21', 'decryption is body - mask*key, followed by decoding')
def dec(C):
    r = C.run(S + 'decrypt_rlwe')
    C.expect(r, 'plaintext', r.out(1), phase(nt(r.arg(0)), r.arg(2)))
    r = C.run(S + 'decrypt_decode_rlwe')
    ph = phase(nt(r.arg(0)), r.arg(2))
    cod = cf(C, r.arg(3), 'codec')
    C.expect(r, 'decoded plaintext', r.out(1), polysum(lambda i: codec_dec(C, cod, coef(ph, i))))


def enc_rgsw(C, sk, ctx, p, bl, lc):
    m, b = fresh_ct(C, sk, ctx)

    def row(i, lvl, top):
        g = mul(p, gad(bl, lvl))
        return add(m, mul(top, g)), add(b, mul(NOT(top), g))
    return rgsw(row, bl, lc)


@obl('C21', 'RGSW encryption of a constant and of a polynomial has the gadget layout of its own decomposition')
def rg(C):
    r = C.run(S + 'encrypt_constant_rgsw')
    sk, out, pt, ctx = args(r, 4)
    C.expect(r, 'constant', r.out(1), enc_rgsw(C, sk, ctx, nt(pt), proj(nt(out), 'bl'), proj(nt(out), 'lc')))
    r = C.run(S + 'encrypt_rgsw')
    sk, out, pt, ctx = args(r, 4)
    C.expect(r, 'polynomial', r.out(1), enc_rgsw(C, sk, ctx, pt, proj(nt(out), 'bl'), proj(nt(out), 'lc')))


@obl('C21', 'vector of RGSW encryptions follows the input order')
def rgv(C):
    r = C.run(S + 'encrypt_constant_rgsw_vec')
    sk, v, ctx = args(r, 3)
    C.expect(r, 'result', r.ret, mk_arr(length(v), lambda i: enc_rgsw(
        C, sk, ctx, nt(proj(v, ('i', i))), nt(cf(C, ctx, 'base_log')), nt(cf(C, ctx, 'level_count')))))


@obl('C21', 'RGSW of the negated key')
def negs(C):
    r = C.run(S + 'neg_gsw')
    sk, ctx = args(r, 2)
    C.expect(r, 'result', r.ret, enc_rgsw(C, sk, ctx, neg(nt(sk)), nt(cf(C, ctx, 'negs_base_log')), nt(cf(C, ctx, 'negs_level_count'))))


# ---------------------------------------------------------------- C22 conversion to RGSW
def to_rgsw(C, cs, neg_s, ctx):
    def row(i, lvl, top):
        c = proj(cs, ('i', sub(lvl, ONE)))
        e = extp(neg_s, c)
        (m, b), (m2, b2) = mb(c), mb(e)
        return merge(top, m2, m), merge(top, b2, b)
    return rgsw(row, nt(cf(C, ctx, 'base_log')), nt(cf(C, ctx, 'level_count')))


@obl('C22', 'decomposed RLWE to RGSW: rows 2l = RGSW(-s) x c_l, rows 2l+1 = c_l')
def conv(C):
    r = C.run('rlwe::decomposed_rlwe_to_rgsw')
    cs, neg_s, ctx = args(r, 3)
    C.expect(r, 'result', r.ret, to_rgsw(C, cs, neg_s, ctx))


@obl('C22', 'RGSW built from a key switching key')
def fromksk(C):
    r = C.run('rgsw::RGSWCiphertext::from_keyswitch_key')
    k = r.arg(0)
    ks, bl, lc = C.fld(k, KSK, 'ksks'), nt(C.fld(k, KSK, 'decomp_base_log')), nt(C.fld(k, KSK, 'decomp_level_count'))

    def row(i, lvl, top):
        m, b = mb(proj(ks, ('i', sub(lvl, ONE))))
        return mul(top, neg(m)), merge(top, neg(b), gad(bl, lvl))
    C.expect(r, 'result', r.ret, rgsw(row, bl, lc))


def ternary_random(C, ctx, c0):
    g = app('genpoly', mk('cst', 'uniform_ternary', ''), cf(C, ctx, 'random_generator'))
    return add(g, neg(coef(g, ZERO)), c0)


@obl('C22', 'client side decomposed ciphertexts carry bit*2^(64-bl*l-log N) and bit*2^(64-bl*l)')
def mkdec(C):
    for f, withn in (('make_decomposed_rlwe_ct', True), ('make_decomposed_rlwe_ct2', False)):
        r = C.run('rlwe::' + f)
        sk, bit, ctx = args(r, 3)
        bl, lc = nt(cf(C, ctx, 'base_log')), nt(cf(C, ctx, 'level_count'))
        ln = app('log2', X.N) if withn else ZERO
        got = C.run('rlwe::' + f).ret
        # the constant coefficient of the plaintext (the others are random)
        i, fct = var('l', lc)
        g = proj(got, ('i', i))
        m, b = mb(g)
        zm, zb = fresh_ct(C, sk, ctx)
        C.expect(r, f + '.mask', m, zm, facts=fct)
        C.expect(r, f + '.constant coefficient', coef(sub(b, zb), ZERO),
                 mul(bit, pow2(sub(sub(INT(64), mul(bl, add(i, ONE))), ln))), facts=fct)
        C.expect(r, f + '.count', length(got), lc)


# ---------------------------------------------------------------- C23 key switching
@obl('C23', 'key switching key: level l encrypts s_before * 2^(64-bl*l) under s_after')
def kskgen(C):
    def prep(E, st, b, a):
        return a
    r = C.run('rlwe::RLWEKeyswitchKey::fill_with_keyswitch_key')
    k, before, after, std, gen = args(r, 5)
    bl, lc, ks = nt(C.fld(k, KSK, 'decomp_base_log')), nt(C.fld(k, KSK, 'decomp_level_count')), C.fld(k, KSK, 'ksks')
    i, f = var('l', lc, length(ks))
    got = proj(C.fld(r.out(0), KSK, 'ksks'), ('i', i))
    C.expect(r, 'level', got, rlwe(*fresh_ct(C, after, None, gen, std, mul(nt(before), gad(bl, add(i, ONE))))), facts=f)
    C.expect(r, 'subs_k', C.fld(r.out(0), KSK, 'subs_k'), ZERO)
    for n in ('decomp_base_log', 'decomp_level_count'):
        C.expect(r, n, C.fld(r.out(0), KSK, n), C.fld(k, KSK, n))


@obl('C23', 'allocation: one ciphertext per level and the given decomposition')
def kskalloc(C):
    r = C.run('rlwe::RLWEKeyswitchKey::allocate')
    bl, lc, n = args(r, 3)
    C.expect(r, 'levels', C.fld(r.ret, KSK, 'ksks'), mk_arr(nt(lc), lambda i: rlwe(ZERO, ZERO)))
    C.expect(r, 'base', nt(C.fld(r.ret, KSK, 'decomp_base_log')), nt(bl))
    C.expect(r, 'level count', nt(C.fld(r.ret, KSK, 'decomp_level_count')), nt(lc))


def keyswitch(C, k, m, b, dec=None):
    bl, lc, ks = nt(C.fld(k, KSK, 'decomp_base_log')), nt(C.fld(k, KSK, 'decomp_level_count')), C.fld(k, KSK, 'ksks')
    n = length(ks)

    def term(j, ix):
        # the j-th digit produced is that of level lc-j; it meets key n-1-j
        c = mb(proj(ks, ('i', sub(sub(n, ONE), j))))[ix]
        return mul(app('dec', bl, lc, sub(lc, j), app('closest', bl, lc, m)), c)
    return rlwe(neg(mk_sum(n, lambda j: term(j, 0))), sub(b, mk_sum(n, lambda j: term(j, 1))))


@obl('C23', 'key switching subtracts digit_l(mask) * key_l')
def ksw(C):
    r = C.run('rlwe::RLWEKeyswitchKey::keyswitch_ciphertext')
    k, after, before = args(r, 3)
    C.expect(r, 'after', r.out(1), keyswitch(C, k, *mb(before)))


@obl('C23', 'RGSW based key switching is an external product')
def ksw2(C):
    r = C.run('rgsw::RGSWCiphertext::keyswitch_ciphertext')
    g, after, before = args(r, 3)
    C.expect(r, 'after', r.out(1), radd(after, extp(g, before)))


# ---------------------------------------------------------------- C25 comparison and gates
@obl('C25', 'less_eq_than multiplies by 1 - sum_{b<d} X^(N-d+b)')
def le(C):
    r = C.run(R + 'less_eq_than')
    ct, d = args(r, 2)
    t = sub(ONE, mk_sum(d, lambda b: xpow(add(sub(X.N, d), b))))
    m, b = mb(ct)
    f = Facts().plus_ge(d, sub(sub(X.N, d), ONE))
    C.expect(r, 'self', r.out(0), rlwe(mul(m, t), mul(b, t)), facts=f)


@obl('C25', 'eq_to multiplies by X^-d')
def eq(C):
    r = C.run(R + 'eq_to')
    ct, d = args(r, 2)
    t = sub(EQ(d, ZERO), mul(LT(ZERO, d), xpow(sub(X.N, d))))
    m, b = mb(ct)
    C.expect(r, 'self', r.out(0), rlwe(mul(m, t), mul(b, t)))


@obl('C25', 'not maps (a,b) to (-a, q/2-b)')
def not_(C):
    H = INT(1 << 63)
    r = C.run(R + 'not')
    m, b = mb(r.arg(0))
    C.expect(r, 'result', r.ret, rlwe(neg(m), sub(H, b)))
    r = C.run(R + 'not_in_place')
    m, b = mb(r.arg(0))
    C.expect(r, 'self', r.out(0), rlwe(neg(m), sub(H, b)))


# ---------------------------------------------------------------- C26 codec
@obl('C26', 'codec of modulus t: one decomposition level of log2 t bits and delta = 2^(64-log2 t)')
def cnew(C):
    r = C.run('codec::Codec::new')
    lt = app('log2', r.arg(0))
    d = C.fld(r.ret, CODEC, 'decomposer')
    C.expect(r, 'base', proj(d, 'bl'), lt)
    C.expect(r, 'levels', proj(d, 'lc'), ONE)
    C.expect(r, 'delta', C.fld(r.ret, CODEC, 'delta'), pow2(sub(INT(64), lt)))
    C.expect(r, 'accepted moduli', guard(r), app('ispow2', r.arg(0)))


@obl('C26', 'codecs are built by their constructor and never changed')
def cown(C):
    # the invariant delta = 2^(64 - bits), one level: what the other obligations read a codec with
    C.body('codec::Codec::new')
    ns = {C.field(CODEC, 'delta'), C.field(CODEC, 'decomposer')}
    n = 0
    for b in C.lib.bodies.values():
        for bl in b.blocks:
            for s in bl['s']:
                if 'rv' not in s:
                    continue
                if s['rv']['r'] == 'agg' and s['rv']['k'].get('path', '').endswith(CODEC):
                    n += 1
                    if b.path != 'codec::Codec::new':
                        C.undecided(None, 'constructor', 'another function builds codecs: %s at %s' % (b.path, s.get('ln', '')))
                        return
                p = s['p']
                for i, e in enumerate(p[1:], 1):
                    if e in ns and isinstance(e, int) and 'Codec' in repr(b.tys[p[0]]) and b.path.startswith('codec::') and i == len(p) - 1:
                        C.undecided(None, 'changed', '%s assigns a codec field at %s' % (b.path, s.get('ln', '')))
                        return
    C.hold(None, 'constructor', '%d construction site(s), all in Codec::new' % n)


@obl('C26', 'encode multiplies by delta, decode rounds and divides by delta')
def cenc(C):
    r = C.run('codec::Codec::encode')
    cod, x = args(r, 2)
    C.expect(r, 'encoded', r.out(1), mul(x, codec_delta(C, cod)))
    C.expect(r, 'range check', guard(r), app('ult', x, pow2(proj(C.fld(cod, CODEC, 'decomposer'), 'bl'))))
    r = C.run('codec::Codec::decode')
    cod, x = args(r, 2)
    C.expect(r, 'decoded', r.out(1), codec_dec(C, cod, x))
    r = C.run('codec::Codec::poly_encode')
    cod, x = args(r, 2)
    C.expect(r, 'encoded polynomial', r.out(1), mul(x, codec_delta(C, cod)))
    r = C.run('codec::Codec::poly_decode')
    cod, x = args(r, 2)
    C.expect(r, 'decoded polynomial', r.out(1), polysum(lambda i: codec_dec(C, cod, coef(x, i))))


@obl('C26', 'modulus and error accessors')
def cacc(C):
    r = C.run('codec::Codec::pt_modulus')
    bl = proj(C.fld(r.arg(0), CODEC, 'decomposer'), 'bl')
    C.expect(r, 'modulus', r.ret, pow2(bl))
    r = C.run('codec::Codec::pt_modulus_bits')
    C.expect(r, 'bits', r.ret, proj(C.fld(r.arg(0), CODEC, 'decomposer'), 'bl'))
    r = C.run('codec::Codec::largest_error')
    C.expect(r, 'largest error', r.ret, X.div(codec_delta(C, r.arg(0)), INT(2)))


THIRD = int(float(2 ** 64 - 1) / 3.0)
SIXTH = int(float(2 ** 64 - 1) / 6.0)
HALF = (2 ** 64 - 1) // 2


def tern_enc_legal(x):
    """encoding of a legal ternary value (the code rejects every other value)"""
    return add(mul(INT(2 * THIRD), sub(sub(ONE, EQ(x, ZERO)), EQ(x, ONE))), mul(INT(THIRD), EQ(x, ONE)))


def ule(c, x):
    """c < x, unsigned"""
    return app('ult', INT(c), x)


def tern_dec(x):
    one = mul(ule(SIXTH, x), NOT(ule(HALF, x)))
    m1 = mul(ule(HALF, x), NOT(ule(HALF + 2 * SIXTH, x)))
    return sub(one, m1)


@obl('C26', 'ternary encoding maps -1,0,1 to 2q/3,0,q/3 and decoding inverts it')
def tern(C):
    r = C.run('codec::Codec::ternary_encode')
    x = r.arg(0)
    C.expect(r, 'encode', r.out(0), tern_enc_legal(x))
    C.expect(r, 'legal inputs', guard(r), add(EQ(x, ZERO), EQ(x, ONE), EQ(x, INT(-1))))
    r = C.run('codec::Codec::ternary_decode')
    x = r.arg(0)
    C.expect(r, 'decode', r.out(0), tern_dec(x))
    r = C.run('codec::Codec::poly_ternary_decode')
    x = r.arg(0)
    C.expect(r, 'decode polynomial', r.out(0), polysum(lambda i: tern_dec(coef(x, i))))
    r = C.run('codec::Codec::poly_ternary_encode')
    x = r.arg(0)
    i, f = var('i', X.N)
    C.expect(r, 'encode polynomial', coef(r.out(0), i), tern_enc_legal(coef(x, i)), facts=f)


@obl('C26', 'ternary encryption and decryption of RLWE plaintexts')
def ternct(C):
    r = C.run(S + 'ternary_decrypt_rlwe')
    ph = phase(nt(r.arg(0)), r.arg(2))
    C.expect(r, 'decrypted', r.out(1), polysum(lambda i: tern_dec(coef(ph, i))))
    r = C.run(S + 'ternary_encrypt_rlwe')
    sk, ct, pt, ctx = args(r, 4)
    m, b = mb(r.out(1))
    zm, zb = fresh_ct(C, sk, ctx)
    C.expect(r, 'mask', m, zm)
    i, f = var('i', X.N)
    C.expect(r, 'coefficient', coef(sub(b, zb), i), tern_enc_legal(coef(pt, i)), facts=f)


# ---------------------------------------------------------------- C27 LWE
@obl('C27', 'LWE encryption, decryption and decoding')
def lwe(C):
    P = 'lwe::LWESecretKey::'

    def ph(sk, ct):
        k, c = nt(sk), nt(ct)
        return sub(proj(c, 'body'), mk_sum(X.N, lambda i: mul(proj(proj(c, 'mask'), ('i', i)), proj(k, ('i', i)))))
    r = C.run(P + 'decrypt_lwe')
    C.expect(r, 'phase', nt(r.out(1)), ph(r.arg(0), r.arg(2)))
    r = C.run(P + 'decode_decrypt_lwe')
    C.expect(r, 'decoded', nt(r.out(1)), codec_dec(C, cf(C, r.arg(3), 'codec'), ph(r.arg(0), r.arg(2))))
    r = C.run(P + 'encode_encrypt_lwe')
    sk, ct, pt, ctx = args(r, 4)
    zb = app('ZLb', nt(sk), cf(C, ctx, 'std'), cf(C, ctx, 'encryption_generator'))
    C.expect(r, 'body', proj(nt(r.out(1)), 'body'), add(mul(nt(pt), codec_delta(C, cf(C, ctx, 'codec'))), zb))
    r = C.run(P + 'encrypt_lwe')
    sk, ct, pt, std, gen = args(r, 5)
    C.expect(r, 'body', proj(nt(r.out(1)), 'body'), add(nt(pt), app('ZLb', nt(sk), std, gen)))


@obl('C27', 'the RLWE view of an LWE key has the same coefficients')
def lwekey(C):
    r = C.run('lwe::LWESecretKey::to_rlwe_sk')
    C.expect(r, 'key', r.ret if r.ret.op != 'struct' else nt(r.ret), r.arg(0) if r.ret.op != 'struct' else nt(r.arg(0)))


@obl('C27', 'sample extraction: coefficient n of c is the LWE phase under the same key')
def sext(C):
    r = C.run('lwe::LWECiphertext::fill_with_sample_extract')
    ct, nth = r.arg(1), nt(r.arg(2))
    samplex(C, r, ct, nth)
    r = C.run('lwe::LWECiphertext::fill_with_const_sample_extract')
    samplex(C, r, r.arg(1), ZERO)


def samplex(C, r, ct, nth):
    m, b = mb(ct)
    o = nt(r.out(0))
    C.expect(r, 'body', proj(o, 'body'), coef(b, nth))
    i, f = var('i', X.N)
    d = sub(nth, i)
    C.expect(r, 'mask', proj(proj(o, 'mask'), ('i', i)),
             merge(LE(i, nth), coef(m, d), neg(coef(m, add(X.N, d)))), facts=f)


@obl('C27', 'LWE to RLWE key: element i is the RGSW of key coefficient i')
def lweksk(C):
    r = C.run('lwe::LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key')
    k, sk, ctx = args(r, 3)
    bl, lc = nt(cf(C, ctx, 'ks_base_log')), nt(cf(C, ctx, 'ks_level_count'))
    C.expect(r, 'keys', C.fld(r.out(0), 'lwe::LWEtoRLWEKeyswitchKey', 'inner'),
             mk_arr(X.N, lambda i: enc_rgsw(C, sk, ctx, coef(nt(sk), i), bl, lc)))


@obl('C27', 'LWE to RLWE: the body minus the digits of each mask coefficient times the key of that coefficient')
def lwe2rlwe(C):
    P = 'lwe::LWEtoRLWEKeyswitchKey'

    def keys(ks, ctx):
        """keys as they are generated: one RGSW per coefficient with the decomposition of the context"""
        bl, lc = nt(cf(C, ctx, 'ks_base_log')), nt(cf(C, ctx, 'ks_level_count'))
        inner = C.fld(ks, P, 'inner')

        def one(i):
            rows = proj(nt(proj(inner, ('i', i))), 'rows')
            return mk_struct('rgsw::RGSWCiphertext', ((0, mk_struct('Ggsw', (
                ('bl', bl), ('lc', lc), ('rows', mk_arr(scale(lc, 2), lambda j: proj(rows, ('i', j))))))),))
        return mk_arr(X.N, one), bl, lc

    def prepare(E, st, b, args):
        k = E.val(st, args[0])
        v = mk_struct(P, ((C.field(P, 'inner'), keys(k, E.val(st, args[2]))[0]),))
        return [E.box(st, v)] + list(args[1:])
    r = C.run('lwe::conv_lwe_to_rlwe', prepare, 'ks')
    ks, ct, ctx = args(r, 3)
    inner, bl, lc = keys(ks, ctx)
    m, b = mb(ct)

    def total(ix):
        def outer(i):
            x = app('closest1', bl, lc, coef(m, i))
            rows = proj(nt(proj(inner, ('i', i))), 'rows')

            def term(j):
                lvl = sub(lc, j)
                row = proj(rows, ('i', sub(scale(lvl, 2), ONE)))
                return mul(app('dec1', bl, lc, lvl, x), proj(row, ('mask', 'body')[ix]))
            return mk_sum(lc, term)
        return mk_sum(X.N, outer)
    C.expect(r, 'result', r.ret, rlwe(neg(total(0)), sub(nt(b), total(1))), facts=Facts().plus_ge(sub(X.N, ONE)))


# ---------------------------------------------------------------- C28 noise
@obl('C28', 'noise is log2 of the largest absolute difference of phase and encoded plaintext')
def noise(C):
    r = C.run('rlwe::compute_noise')
    sk, ct, pt = args(r, 3)
    C.expect(r, 'result', r.ret, noise_of(lambda i: coef(sub(phase(nt(sk), ct), pt), i)))
    r = C.run('rlwe::compute_noise_encoded')
    sk, ct, pt, cod = args(r, 4)
    C.expect(r, 'encoded', r.ret, noise_of(lambda i: coef(sub(phase(nt(sk), ct), mul(pt, codec_delta(C, cod))), i)))


def noise_of(f):
    """f(i): the i-th error coefficient"""
    return app('f_log2', app('cast_IntToFloat_f64', app('maxover', ZERO, mk_arr(X.N, lambda i: app('abs', f(i))))))


@obl('C28', 'RGSW noise is the mean noise of the message rows against q/base^level')
def noise_rgsw(C):
    r = C.run('rgsw::compute_noise_rgsw1')
    sk, ct, ctx = args(r, 3)
    bl, lc = nt(cf(C, ctx, 'base_log')), nt(cf(C, ctx, 'level_count'))
    rows = proj(nt(ct), 'rows')

    def level(l):
        row = rlwe(*[proj(proj(rows, ('i', add(scale(l, 2), ONE))), n) for n in ('mask', 'body')])
        g = gad(bl, add(l, ONE))
        return noise_of(lambda i: coef(sub(phase(nt(sk), row), g), i))
    C.expect(r, 'result', r.ret, app('fdiv', app('fsum', mk_arr(lc, level)), app('cast_IntToFloat_f64', lc)))


@obl('C28', 'the ternary variant encodes the plaintext first')
def noise3(C):
    r = C.run('rlwe::compute_noise_ternary')
    sk, ct, pt = args(r, 3)
    ph = phase(nt(sk), ct)
    C.expect(r, 'ternary', r.ret, noise_of(lambda i: sub(coef(ph, i), tern_enc_legal(coef(pt, i)))))
