"""System-level obligations: parallel and batched processing, hashing, set-up, contexts, feature encryption, helpers."""
import terms as X
import check
import interp
import model
from canon import canon
from terms import *
from check import *
from specs import rlwe, mb, extp, radd, rsub, RLWE
from props import obl
from obl_oram import (CTX, SRV, QRY, RGSW, ctxf, selectors, rsum, server, query, rw_val)
from obl_crypto import (cf, gad, fresh_ct, nt, codec_delta, codec_dec, phase, polysum, guard, args, SK)

HASH = 'naive_hash::NaiveHash'
CLI = 'oram::Client'
PAR = 'params::TFHEParameters'


# ---------------------------------------------------------------- several queries
def gsum(n, f, C, ctx):
    """sum over i<n of the RGSW values f(i)"""
    lc = proj(ctxf(C, ctx, 'level_count'), 0)

    def row(k):
        g = lambda i: proj(proj(proj(f(i), 0), 'rows'), ('i', k))
        return mk_struct('Glwe', (('mask', mk_sum(n, lambda i: proj(g(i), 'mask'))),
                                  ('body', mk_sum(n, lambda i: proj(g(i), 'body')))))
    return mk_struct(RGSW, ((0, mk_struct('Ggsw', (('rows', mk_arr(scale(lc, 2), row)),
                                                   ('bl', proj(ctxf(C, ctx, 'base_log'), 0)), ('lc', lc)))),))


@obl('C03', 'parallel queries: response i is the answer of query i against the pre-state')
def multi_read(C):
    r = C.run('oram::Server::process_multi')
    data, neg_s, ctx, _ = server(C, r)
    qs = r.arg(1)
    D = proj(data, ('i', ZERO))

    def y(i):
        bits, op, new = query(C, proj(qs, ('i', i)))
        L = selectors(C, ctx, neg_s, bits, length(D))
        return rsum(length(D), lambda j: extp(L(j), proj(D, ('i', j))))
    C.expect(r, 'responses', proj(r.ret, 0), mk_arr(length(qs), y))


@obl('C03', 'parallel queries: the combined update of the first row')
def multi_write(C):
    r = C.run('oram::Server::process_multi')
    data, neg_s, ctx, out = server(C, r)
    qs = r.arg(1)
    D = proj(data, ('i', ZERO))

    def sel(i, j):
        bits, op, new = query(C, proj(qs, ('i', i)))
        return selectors(C, ctx, neg_s, bits, length(D))(j)

    def new(j):
        d = proj(D, ('i', j))

        def t(i):
            bits, op, nv = query(C, proj(qs, ('i', i)))
            return extp(sel(i, j), rw_val(op, nv, d))
        tot = rsum(length(qs), t)
        Ls = gsum(length(qs), lambda i: sel(i, j), C, ctx)
        return radd(d, extp(Ls, rsub(tot, d)))
    C.expect(r, 'first row', proj(out, ('i', ZERO)), mk_arr(length(D), new))
    row, f = var('r', length(data))
    f = f.plus_ge(sub(row, ONE))
    C.expect(r, 'other rows unchanged', proj(out, ('i', row)), proj(data, ('i', row)), facts=f)


# ---------------------------------------------------------------- batches
def hfield(C, h, n):
    return C.fld(h, HASH, n)


def hget(C, h, k, x):
    """value of hash function k at x"""
    return proj(hfield(C, h, 'tables'), ('i', add(mul(hfield(C, h, 'h_count'), x), k)))


def batch(C):
    def prep(E, st, b, a):
        k = C.field(HASH, 'tables')
        E.injective = lambda t: t.op == 'fld' and t.a[1] == k and t.a[0] is E.val(st, a[2])
        return a
    return C.run('oram::Server::process_batch', prepare=prep, key='inj')


def distinct(C, h):
    return {hfield(C, h, 'tables'): interp.permutation(mul(hfield(C, h, 'h_count'), hfield(C, h, 'input_domain')))}


def batch_sel(C, r):
    data, neg_s, ctx, out = server(C, r)
    qs = r.arg(1)

    def L(i):
        bits, op, new = query(C, proj(qs, ('i', i)))
        return selectors(C, ctx, neg_s, bits, length(proj(data, ('i', i))))
    return data, neg_s, ctx, out, qs, L


@obl('C04', 'batch: response r is the answer of query r against row r before the call')
def batch_read(C):
    r = batch(C)
    data, neg_s, ctx, out, qs, L = batch_sel(C, r)

    def y(i):
        D = proj(data, ('i', i))
        return rsum(length(D), lambda j: extp(L(i)(j), proj(D, ('i', j))))
    C.expect(r, 'responses', proj(r.ret, 0), mk_arr(length(data), y), eqs=[(length(qs), length(data))], fixed=distinct(C, r.arg(2)))


@obl('C04', 'batch: a batch whose size is not the number of rows is rejected')
def batch_size(C):
    r = batch(C)
    data, neg_s, ctx, out, qs, L = batch_sel(C, r)
    n = length(qs)
    g = [x for stk, x, lp in r.E.guards if not lp and not x.fv and n in X.atoms(x)]
    C.expect(r, 'accepted sizes', mul(*g) if g else ONE, EQ(n, length(data)))


@obl('C05', 'batch: every copy of an item ends as one corrected ciphertext')
def batch_write(C):
    r = batch(C)
    data, neg_s, ctx, out, qs, L = batch_sel(C, r)
    h = r.arg(2)
    H = hfield(C, h, 'h_count')
    cols = length(proj(data, ('i', ZERO)))
    rows = length(data)

    def D1(i, c):
        d = proj(proj(data, ('i', i)), ('i', c))
        bits, op, new = query(C, proj(qs, ('i', i)))
        return radd(d, extp(L(i)(c), rsub(rw_val(op, new, d), d)))

    def pos(k, x):
        t = hget(C, h, k, x)
        return X.div(t, cols), X.rem(t, cols)

    def flagged(i, c, ct):
        bits, op, new = query(C, proj(qs, ('i', i)))
        return extp(L(i)(c), extp(op, ct))

    def corr(x):
        r0, c0 = pos(ZERO, x)
        first = D1(r0, c0)

        def term(k):
            rk, ck = pos(k, x)
            return flagged(rk, ck, rsub(D1(rk, ck), first))
        return radd(first, rsum(H, term))

    def new(i, c):
        d = D1(i, c)
        n = X.div(mul(rows, cols), H)

        def delta(x, k):
            rk, ck = pos(k, x)
            here = mul(EQ(i, rk), EQ(c, ck))
            v = rsub(corr(x), d)
            return tuple(mul(here, z) for z in mb(v))
        m = mk_sum(n, lambda x: mk_sum(H, lambda k: delta(x, k)[0]))
        b = mk_sum(n, lambda x: mk_sum(H, lambda k: delta(x, k)[1]))
        return radd(d, rlwe(m, b))
    i, fi = var('r', rows)
    c, fc = var('c', length(proj(data, ('i', i))))
    f = fi
    for g in fc.ge:
        f = f.plus_ge(g)
    C.expect(r, 'location (r, c)', proj(proj(out, ('i', i)), ('i', c)), new(i, c), facts=f, eqs=[(length(qs), length(data))], fixed=distinct(C, h))


# ---------------------------------------------------------------- demultiplexer
@obl('C06', 'demultiplexing a ciphertext by n encrypted bits')
def dmx(C):
    r = C.run('decision_tree::demux_with')
    b, bits = r.arg(0), r.arg(1)
    C.expect(r, 'slots', r.ret, mk_arr(pow2(length(bits)), lambda j: rlwe(*ext(app('dmx', bits, ZERO, j), *mb(b)))))
    r = C.run('decision_tree::demux')
    bits, ctx = r.arg(0), r.arg(1)
    delta = codec_delta(C, cf(C, ctx, 'codec'))
    C.expect(r, 'unit slots', r.ret, mk_arr(pow2(length(bits)), lambda j: rlwe(*ext(app('dmx', bits, ZERO, j), ZERO, delta))))


# ---------------------------------------------------------------- hashing
@obl('C08', 'the table is a shuffled 0..h*n and sizes are stored')
def hnew(C):
    r = C.run(HASH + '::new')
    h, n = args(r, 2)
    t = C.fld(r.ret, HASH, 'tables')
    C.expect(r, 'number of functions', C.fld(r.ret, HASH, 'h_count'), h)
    C.expect(r, 'domain', C.fld(r.ret, HASH, 'input_domain'), n)
    C.expect(r, 'table size', length(t), mul(h, n))
    k, f = var('k', mul(h, n))
    e = proj(t, ('i', k))
    ok = e.op == 'app' and e.a[0] == 'perm' and e.a[1] is mul(h, n) and e.a[-1] is k
    if ok:
        C.hold(r, 'entry k', 'the k-th entry of a random permutation of 0..h*n')
    else:
        C.expect(r, 'entry k', e, app('perm', mul(h, n), app('osrand', mk('cst', 'shuffle', ''), ZERO), k), facts=f)


@obl('C08', 'hash k of x is entry h*x+k; the checked form adds only the range check')
def hget_(C):
    for nm, k in (('hash', None), ('hash0', 0), ('hash1', 1), ('hash2', 2)):
        r = C.run(HASH + '::' + nm)
        x = r.arg(2 if k is None else 1)
        C.expect(r, nm, r.ret, hget(C, r.arg(0), r.arg(1) if k is None else INT(k), x))
    r = C.run(HASH + '::checked_hash')
    s, k, x = args(r, 3)
    ok = mul(LT(k, hfield(C, s, 'h_count')), LT(x, hfield(C, s, 'input_domain')))
    d = X.discr(r.ret)
    C.expect(r, 'present', d, ok)
    C.expect(r, 'value', proj(proj(r.ret, ('v', 1)), 0), hget(C, s, k, x))
    r = C.run(HASH + '::hash_to_tuple')
    s, k, x, d = args(r, 4)
    t = hget(C, s, k, x)
    C.expect(r, 'row', proj(r.ret, 0), X.div(t, d))
    C.expect(r, 'column', proj(r.ret, 1), X.rem(t, d))


@obl('C08', 'domain sizes')
def hdom(C):
    r = C.run(HASH + '::output_domain')
    s = r.arg(0)
    C.expect(r, 'output', r.ret, mul(hfield(C, s, 'h_count'), hfield(C, s, 'input_domain')))
    r = C.run(HASH + '::input_domain')
    C.expect(r, 'input', r.ret, hfield(C, r.arg(0), 'input_domain'))
    r = C.run(HASH + '::h_count')
    C.expect(r, 'functions', r.ret, hfield(C, r.arg(0), 'h_count'))


# ---------------------------------------------------------------- row assignment
PAIR = ('tuple', (('prim', 'usize'), ('prim', 'usize')))


def instead(t, a, b):
    """t with the array b in place of the opaque array a"""
    n = length(a)
    return X.replace(X.replace(X.replace(t, {n: mk('hold')}), {a: b}), {mk('hold'): n})


def slot_of(C, s, h, x, d):
    t = hget(C, s, h, x)
    return X.div(t, d), X.rem(t, d)


@obl('C09', 'every index gets one entry, in a free row of one of its own slots')
def mapping(C):
    r = C.run(HASH + '::hash_to_mapping')
    s, ixs, d = args(r, 3)
    m = r.ret
    H, n = hfield(C, s, 'h_count'), length(ixs)
    if m.wk or m.op != 'struct' or m.a[0] != 'Map':
        C.undecided(r, 'map', 'the returned map is not summarised')
        return
    ent = canon(proj(m, 'ent'))
    # the reference: each index in turn takes the first of its rows that is still free
    k, S, h = fresh('k'), fresh('s'), fresh('h')
    st = proj(S, ('st', 0, model.MAPENT, False))
    x = proj(ixs, ('i', k))
    h0 = X.first(H, h, NOT(model.mhas(st, slot_of(C, s, h, x, d)[0])))
    row, col = slot_of(C, s, h0, x, d)
    step = model.mput(st, row, mk_struct('tuple', ((0, col), (1, x))))
    ref_ = app('fold', ZERO, n, mk('list', model.ment(mk('app', 'mnil'))), X.close_lam(X.UNIT, k, X.close_lam(X.UNIT, S, mk('list', step))))
    same = canon(ref_) is ent
    # the property itself, on the summary
    i, h = fresh('i'), fresh('h')
    x = proj(ixs, ('i', i))
    row, col = slot_of(C, s, h, x, d)
    v = model.mget(ent, row, PAIR)
    good = mul(model.mhas(ent, row), EQ(proj(v, 0), col), EQ(proj(v, 1), x))
    bad = X.close_sum(n, i, NOT(LT(X.first(H, h, good), H)))
    got = mk('list', bad, app('mlen', ent))
    exp = mk('list', ZERO, n)
    C.leaves += 1
    # distinct indices below 8, and tables that cover them
    mp = {length(hfield(C, s, 'tables')): mul(H, INT(8))}
    few = X.close_arr(n, i, app('inj', i))
    asm = [X.replace(instead(t, ixs, few), mp) for t in r.assume() + r.assume_loops()]
    adm, sep, note = interp.terms_differ(X.replace(instead(got, ixs, few), mp), X.replace(instead(exp, ixs, few), mp), asm)
    C.interps += adm
    if adm >= 4 and sep >= 2:
        C.results.append(check.Res(check.BAD, C.cur, 'an index is dropped, overwritten or stored under a slot that is not its own (%d of %d admissible interpretations)\n      computed %s'
                                   % (sep, adm, X.show(ent, 12)[:1200]), 'map', r.path, r.span))
    elif same:
        C.hold(r, 'map', 'each index in turn takes the first of its rows that is still free, and there must be one')
    else:
        C.undecided(r, 'map', 'the assignment is organised differently; %d interpretations found no lost index (%s)' % (adm, note))


# ---------------------------------------------------------------- contexts and set-up
PARAM_OF = (('std', 'standard_deviation'), ('poly_size', 'polynomial_size'), ('base_log', 'base_log'), ('level_count', 'level_count'),
            ('ks_base_log', 'key_switch_base_log'), ('ks_level_count', 'key_switch_level_count'),
            ('negs_base_log', 'negs_base_log'), ('negs_level_count', 'negs_level_count'))


def ctx_params(C, r, ctx, par, where):
    for f, p in PARAM_OF:
        C.expect(r, '%s.%s' % (where, f), proj(C.fld(ctx, CTX, f), 0), C.fld(par, PAR, p))
    lt = app('log2', C.fld(par, PAR, 'plaintext_modulus'))
    cod = C.fld(ctx, CTX, 'codec')
    C.expect(r, where + '.codec.bits', proj(C.fld(cod, 'codec::Codec', 'decomposer'), 'bl'), lt)
    C.expect(r, where + '.codec.delta', codec_delta(C, cod), pow2(sub(INT(64), lt)))


@obl('C16', 'a context carries the parameters it was built from')
def ctxnew(C):
    r = C.run(CTX + '::new')
    ctx_params(C, r, r.ret, r.arg(0), 'context')


@obl('C16', 'client and server use contexts of the given parameters')
def ctxuse(C):
    r = C.run(CLI + '::new')
    ctx_params(C, r, C.fld(r.ret, CLI, 'ctx'), r.arg(2), 'client')
    r = C.run(SRV + '::new')
    ctx_params(C, r, proj(r.ret, C.ftype(SRV, lambda t: 'context::Context' in t)), r.arg(2), 'server')


@obl('C16', 'a simulation result reports the parameters of its context')
def simres(C):
    P = 'decision_tree::SimulationResult'
    r = C.run(P + '::new')
    ctx = r.arg(4)
    for f, p in PARAM_OF:
        if f == 'std':
            C.expect(r, f, C.fld(r.ret, P, f), C.fld(ctx, CTX, f))
        else:
            C.expect(r, f, proj(C.fld(r.ret, P, f), 0), proj(C.fld(ctx, CTX, f), 0))
    for i, f in enumerate(('input_count', 'setup_duration', 'server_duration', 'predictions')):
        C.expect(r, f, C.fld(r.ret, P, f), r.arg(i))


@obl('C16', 'derived sizes of a context')
def ctxsz(C):
    for nm, v in (('lwe_dim', X.N), ('lwe_size', add(X.N, ONE)), ('plaintext_count', X.N)):
        r = C.run(CTX + '::' + nm)
        C.expect(r, nm, proj(r.ret, 0), v)


@obl('C10', 'the server stores the given rows and the negated-key ciphertext')
def srvnew(C):
    r = C.run(SRV + '::new')
    s = r.ret
    C.expect(r, 'rows', proj(s, C.ftype(SRV, lambda t: 'RwLock' in t)), r.arg(0))
    C.expect(r, 'negated key', proj(s, C.ftype(SRV, lambda t: 'RGSWCiphertext' in t)), r.arg(1))


@obl('C10', 'the client keeps the shape and one fresh key')
def clinew(C):
    r = C.run(CLI + '::new')
    C.expect(r, 'rows', C.fld(r.ret, CLI, 'rows'), r.arg(0))
    C.expect(r, 'cols', C.fld(r.ret, CLI, 'cols'), r.arg(1))


@obl('C21', 'the client\'s negated-key ciphertext is the one of its own key and context')
def clineg(C):
    from obl_crypto import enc_rgsw
    r = C.run(CLI + '::gen_neg_sk')
    s = r.arg(0)
    sk, ctx = C.fld(s, CLI, 'sk'), C.fld(s, CLI, 'ctx')
    C.expect(r, 'negated key', r.ret, enc_rgsw(C, sk, ctx, neg(nt(sk)), proj(cf(C, ctx, 'negs_base_log'), 0),
                                               proj(cf(C, ctx, 'negs_level_count'), 0)))


# ---------------------------------------------------------------- client helpers
@obl('C07', 'the encrypted operation is 1 for a write and 0 for a read')
def encop(C):
    from obl_crypto import enc_rgsw
    r = C.run(CLI + '::gen_enc_op')
    s, op = r.arg(0), r.arg(1)
    sk, ctx = C.fld(s, CLI, 'sk'), C.fld(s, CLI, 'ctx')
    w = [i for i, (n, _) in enumerate(X.ADT['oram::OP']['variants']) if n.upper() == 'WRITE']
    if len(w) != 1:
        raise Undecided('operation type')
    C.expect(r, 'ciphertext', proj(r.ret, 0), enc_rgsw(C, sk, ctx, EQ(X.discr(op), INT(w[0])), proj(cf(C, ctx, 'base_log'), 0),
                                                       proj(cf(C, ctx, 'level_count'), 0)))


@obl('C07', 'the query data is an encoded encryption of the given plaintext')
def encdata(C):
    r = C.run(CLI + '::enc_data_rlwe')
    s, pt = r.arg(0), r.arg(1)
    sk, ctx = C.fld(s, CLI, 'sk'), C.fld(s, CLI, 'ctx')
    C.expect(r, 'ciphertext', r.ret, rlwe(*fresh_ct(C, sk, ctx, pt=mul(pt, codec_delta(C, cf(C, ctx, 'codec'))))))


# ---------------------------------------------------------------- features
@obl('C33', 'feature v at level l encrypts X^v * 2^(64 - base_log*l - log2 N)')
def feat(C):
    r = C.run('decision_tree::encrypt_feature_vector')
    sk, vs, ctx = args(r, 3)
    bl, lc = proj(cf(C, ctx, 'base_log'), 0), proj(cf(C, ctx, 'level_count'), 0)

    def ct(v, l):
        s = sub(INT(64), add(mul(bl, add(l, ONE)), app('log2', X.N)))
        return rlwe(*fresh_ct(C, sk, ctx, pt=mul(xpow(v), pow2(s))))
    C.expect(r, 'ciphertexts', r.ret, mk_arr(length(vs), lambda i: mk_arr(lc, lambda l: ct(proj(vs, ('i', i)), l))))


# ---------------------------------------------------------------- inspection and helpers
@obl('C37', 'the inspection decrypts each stored ciphertext in place')
def decdb(C):
    r = C.run(SRV + '::decrypt_db')
    data, neg_s, ctx, out = server(C, r)
    key = nt(r.arg(1))
    cod = cf(C, ctx, 'codec')

    def item(ct):
        ph = phase(key, ct)
        return mk_sum(app('min', X.N, INT(64)), lambda k: mul(pow2(k), codec_dec(C, cod, coef(ph, k))))
    row = lambda i: proj(data, ('i', i))
    C.expect(r, 'values', r.ret, mk_arr(length(data), lambda i: mk_arr(length(row(i)), lambda j: item(proj(row(i), ('i', j))))))
    C.expect(r, 'database', out, data)


@obl('C37', 'packing of coefficients, least significant first')
def lossy(C):
    r = C.run('utils::pt_to_lossy_u64')
    pt = r.arg(0)
    C.expect(r, 'packed', r.ret, mk_sum(app('min', X.N, INT(64)), lambda k: mul(pow2(k), coef(pt, k))))


@obl('C39', 'transposition')
def transp(C):
    def prepare(E, st, b, args):
        v = E.val(st, args[0])
        w = length(proj(v, ('i', ZERO)))        # a rectangular table
        return [mk_arr(length(v), lambda i: mk_arr(w, lambda j: proj(proj(v, ('i', i)), ('i', j))))]
    r = C.run('utils::transpose', prepare, 'rect')
    v = r.arg(0)
    C.expect(r, 'table', r.ret, mk_arr(length(proj(v, ('i', ZERO))), lambda j: mk_arr(length(v), lambda i: proj(proj(v, ('i', i)), ('i', j)))))
    C.expect(r, 'rejects the empty table', guard(r), NOT(EQ(length(v), ZERO)))


@obl('C39', 'constant multiplication')
def mulc(C):
    r = C.run('utils::mul_const')
    C.expect(r, 'polynomial', r.out(0), mul(r.arg(0), r.arg(1)))


@obl('C39', 'logarithm')
def lg(C):
    r = C.run('utils::log2')
    C.expect(r, 'value', r.ret, app('log2', r.arg(0)))


# ---------------------------------------------------------------- plaintext generators
@obl('C39', 'constant plaintexts')
def ptgen(C):
    for nm, v in (('gen_unit_pt', ONE), ('gen_zero_pt', ZERO)):
        r = C.run(CTX + '::' + nm)
        C.expect(r, nm, r.ret, v)
    r = C.run(CTX + '::gen_scalar_unit_pt')
    C.expect(r, 'gen_scalar_unit_pt', nt(r.ret), ONE)
    r = C.run(CTX + '::gen_scalar_zero_pt')
    C.expect(r, 'gen_scalar_zero_pt', nt(r.ret), ZERO)
    r = C.run(CTX + '::gen_demuxed_pt')
    C.expect(r, 'gen_demuxed_pt', r.ret, xpow(r.arg(1)))


# ---------------------------------------------------------------- C17 parameter lists
@obl('C17', 'the expansion is the concatenation, in file order, of the products of the groups')
def expansion(C):
    r = C.run('params::ServerParams::from_input_params_list')
    L = proj(r.arg(0), C.field('params::InputParamsList', 'list'))
    A, B = (lambda g: proj(proj(L, ('i', g)), 0)), (lambda g: proj(proj(L, ('i', g)), 1))
    before = lambda g: mk_sum(g, lambda h: mul(length(A(h)), length(B(h))))
    n = length(L)

    def item(x):
        v = fresh('x')
        g = first(n, v, LT(x, before(add(v, ONE))))     # the group of position x, and the position within its product
        y = sub(x, before(g))
        return mk_struct(SP, ((o, proj(A(g), ('i', div(y, length(B(g)))))), (t, proj(B(g), ('i', rem(y, length(B(g))))))))
    SP = 'params::ServerParams'
    o, t = C.field(SP, 'oram'), C.field(SP, 'tfhe')
    C.expect(r, 'result', r.ret, mk_arr(before(n), item))
