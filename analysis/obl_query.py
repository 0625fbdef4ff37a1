"""Client queries: index bits, operation, data, shape."""
import terms as X
from terms import *
from check import *
from canon import canon
import specs as S
from specs import rlwe, mb, bit, Mapping
from props import obl
from obl_oram import QRY
from obl_crypto import cf, fresh_ct, codec_delta, enc_rgsw, args
from obl_sys import CLI, HASH
from obl_fresh import frun, fresh_all


def log2_(x):
    return app('log2', x)


def params(C, ctx):
    return proj(cf(C, ctx, 'base_log'), 0), proj(cf(C, ctx, 'level_count'), 0)


def index_bit(C, sk, ctx, i, n, k):
    """ciphertext k of the encrypted index i in a domain of n values, most significant bit first"""
    return enc_rgsw(C, sk, ctx, NOT(bit(i, sub(sub(log2_(n), ONE), k))), *params(C, ctx))


@obl('C06', 'the encrypted index has one bit per digit, most significant first, 0 for a set bit')
def bits(C):
    r = C.run('decision_tree::bit_decomposed_rgsw')
    i, n, sk, ctx = args(r, 4)
    C.expect(r, 'number of bits', length(r.ret), log2_(n))
    k, f = var('k', log2_(n))
    C.expect(r, 'bit k', proj(r.ret, ('i', k)), index_bit(C, sk, ctx, i, n, k), facts=f)


class Q:
    """the parts of a query value"""
    def __init__(self, C, v):
        self.a, self.op, self.data = C.fld(v, QRY, 'a'), C.fld(v, QRY, 'op'), C.fld(v, QRY, 'data')


def query_is(C, r, leaf, v, me, has, col, write, alpha, facts=None):
    sk, ctx, cols = (C.fld(me, CLI, x) for x in ('sk', 'ctx', 'cols'))
    q = Q(C, v)
    C.expect(r, leaf + 'number of index bits', length(q.a), log2_(cols), facts=facts)
    k, f = var('k', log2_(cols))
    f = plus(f, facts)
    C.expect(r, leaf + 'index bit k', proj(q.a, ('i', k)), index_bit(C, sk, ctx, mul(has, col), cols, k), facts=f, cases=[has])
    C.expect(r, leaf + 'operation', proj(q.op, 0), enc_rgsw(C, sk, ctx, write, *params(C, ctx)), facts=facts, cases=[has])
    if alpha is not None:
        e = [(has, ONE)]
        C.expect(r, leaf + 'data', q.data, rlwe(*fresh_ct(C, sk, ctx, pt=mul(alpha, codec_delta(C, cf(C, ctx, 'codec'))))), facts=facts, eqs=e)


def plus(f, g):
    for x in (g.ge if g is not None else ()):
        f = f.plus_ge(x)
    return f


def assigned(me, C, h, ixs, r):
    m = Mapping.value(h, ixs, C.fld(me, CLI, 'cols'))
    has = app('mapHas', m, r)
    has.ind = True
    return has, proj(proj(m, ('k', r)), 0)


def fixed_mapping(r):
    if Mapping_path not in r.E.specs:
        raise Undecided('the row assignment has another signature')


Mapping_path = HASH + '::hash_to_mapping'


@obl('C07', 'read batch: row r encrypts the column assigned to it, an unused row reads column 0')
def read_batch(C):
    r = C.run(CLI + '::gen_read_query_batch')
    fixed_mapping(r)
    me, ixs, h = args(r, 3)
    rows = C.fld(me, CLI, 'rows')
    C.expect(r, 'number of queries', length(r.ret), rows)
    i, f = var('r', rows)
    has, col = assigned(me, C, h, ixs, i)
    query_is(C, r, 'row r: ', proj(r.ret, ('i', i)), me, has, col, ZERO, None, facts=f)


@obl('C07', 'write batch: assigned rows write the given plaintext, an unused row reads column 0')
def write_batch(C):
    r = C.run(CLI + '::gen_write_query_batch')
    fixed_mapping(r)
    me, ixs, alpha, h = args(r, 4)
    rows = C.fld(me, CLI, 'rows')
    C.expect(r, 'number of queries', length(r.ret), rows)
    i, f = var('r', rows)
    has, col = assigned(me, C, h, ixs, i)
    query_is(C, r, 'row r: ', proj(r.ret, ('i', i)), me, has, col, has, alpha, facts=f)


@obl('C07', 'a single query is the first row of a batch of one index')
def one(C):
    for name in ('read', 'write'):
        r = C.run(CLI + '::gen_%s_query_one' % name)
        fixed_mapping(r)
        a = args(r, len(r.args))
        me, i, h = a[0], a[1], a[-1]
        has, col = assigned(me, C, h, mk('list', i), ZERO)
        query_is(C, r, name + ': ', r.ret, me, has, col, ZERO if name == 'read' else has, None if name == 'read' else a[2])


# ---------------------------------------------------------------- shape
def shape(v, name, out):
    """everything of a value that is not the content of a ciphertext: (name, term)"""
    if v.op == 'struct' and v.a[0] in ('Glwe', 'Lwe'):
        return
    if v.op == 'struct' and v.a[0] == 'Ggsw':
        d = dict(v.a[1])
        out.append((name + '.base', d['bl']))
        out.append((name + '.levels', d['lc']))
        shape(d['rows'], name, out)
        return
    if v.op == 'struct':
        for n, x in v.a[1]:
            shape(x, '%s.%s' % (name, n), out)
        return
    if v.op == 'list':
        out.append((name + ' count', INT(len(v.a))))
        for k, x in enumerate(v.a):
            shape(x, '%s[%d]' % (name, k), out)
        return
    if not is_ring(v) and v.op not in ('opq', 'fld', 'idx', 'weak', 'enum'):
        n = length(v)
        out.append((name + ' count', n))
        if n.op == 'int' and n.a[0] == 0:
            return
        i, f = var('s%d' % name.count('[]'), n)
        shape(canon(proj(v, ('i', i)), f), name + '[]', out)
        return
    out.append((name, v))




def same_shape(C, r, v, secret, tag):
    out = []
    shape(canon(v), tag, out)
    bad = False
    for n, t in out:
        if any(x.op in ('weak', 'leak') for x in atoms(t)) or t.op == 'weak':
            C.undecided(r, n, 'not summarised: %s' % why(t))
            bad = True
            continue
        hit = [x for x in secret if x is t or x in atoms(t) or inside(x, t)]
        if hit:
            C.fail(r, n, '%s = %s depends on %s' % (n, show(t)[:200], ', '.join(show(x)[:40] for x in hit)))
            bad = True
            continue
        C.hold(r, n, show(t)[:100])
    return None if bad else [(n[len(tag):], canon(t)) for n, t in out]


def inside(x, t):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, T) and y not in seen:
            if y is x:
                return True
            seen.add(y)
            st.extend(y.a)
    return False


@obl('C13', 'number, order and parameters of the ciphertexts do not depend on index, operation or data')
def shapes(C):
    got = []
    for name in ('read', 'write'):
        for kind in ('batch', 'one'):
            r = C.run(CLI + '::gen_%s_query_%s' % (name, kind))
            a = args(r, len(r.args))
            s = same_shape(C, r, r.ret, [x for x in a[1:]], '%s %s' % (name, kind))
            got.append((name, kind, r, s))
    for kind in ('batch', 'one'):
        (_, _, ra, a), (_, _, rb, b) = [x for x in got if x[1] == kind]
        if a is None or b is None:
            continue
        d = [(x, y) for x, y in zip(a, b) if x[0] != y[0] or x[1] is not y[1]]
        if len(a) != len(b) or d:
            x = d[0] if d else None
            C.fail(rb, 'read against write (%s)' % kind, 'a write query has another shape than a read query: %s'
                   % ('%s is %s against %s' % (x[0][0], show(x[0][1])[:120], show(x[1][1])[:120]) if x else 'another number of components'))
        else:
            C.hold(rb, 'read against write (%s)' % kind)


@obl('C13', 'every component of a query is a fresh encryption under the client\'s key')
def fresh_(C):
    for name in ('read', 'write'):
        r = frun(C, CLI + '::gen_%s_query_batch' % name)
        me = r.arg(0)
        ctx = C.fld(me, CLI, 'ctx')
        fresh_all(C, r, [(name, r.ret)], cf(C, ctx, 'std'), cf(C, ctx, 'encryption_generator'))
        keys = {x.a[1] for x in atoms(canon(r.ret)) if x.op == 'app' and x.a[0] in ('Zm', 'Zb')}
        k = proj(C.fld(me, CLI, 'sk'), 0)
        if keys - {k}:
            C.fail(r, name + ': key', 'a component is encrypted under %s' % show((keys - {k}).pop())[:200])
        else:
            C.hold(r, name + ': key')
