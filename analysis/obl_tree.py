"""Decision-tree obligations. Recursive functions are summarised by the recurrences in specs.py: every recursive call is
replaced by the summary, and the body, unfolded once, has to satisfy the recurrence that defines the summary."""
import terms as X
from terms import *
from check import *
from canon import canon
import specs as S
from specs import rlwe, mb, extp, radd, rsub, RLWE, NODE, INT_, ENC, EINT
from props import obl
from obl_crypto import cf, codec_delta, codec_dec, args, guard
from model import concat


# ---------------------------------------------------------------- demultiplexer
@obl('C06', 'demultiplexing recursion: selected half, other half, in order')
def dmxrec(C):
    r = C.run(C.private('decision_tree::demux_rec'))
    if len(r.args) != 5:
        raise Undecided('another signature')
    level, b, bits = args(r, 3)
    n = length(bits)
    left = extp(proj(bits, ('i', level)), b)
    right = rsub(b, left)
    l1 = add(level, ONE)
    half = lambda x: S.DemuxRec.assume(r.E, r.st, [l1, x, bits])
    j, f = var('j', pow2(sub(n, level)))
    f = f.plus_ge(sub(sub(n, level), ONE))
    last = EQ(l1, n)
    exp = merge(last, mk('list', left, right), concat(half(left), half(right)))
    C.expect(r, 'number of slots', r.ret if r.ret.op == 'weak' else length(r.ret), merge(last, INT(2), pow2(sub(n, level))), facts=f)
    C.expect(r, 'slot j', proj(r.ret, ('i', j)), proj(exp, ('i', j)), facts=f)


# ---------------------------------------------------------------- clear trees
@obl('C29', 'evaluation follows the comparison of every node')
def evaln(C):
    def prep(E, st, b, a):
        v = E.val(st, a[3])
        v.ind = True
        return a
    r = C.run(C.private('decision_tree::eval_node'), prepare=prep, key='ind')
    out, v, feats, b = args(r, 4)
    C.expect(r, 'label added', r.out(0), add(out, mul(b, S.EvalNode.define(v, feats))))


@obl('C29', 'evaluation starts at the root with an empty result')
def evalroot(C):
    r = C.run(NODE + '::eval')
    v, feats = args(r, 2)
    C.expect(r, 'label', r.ret, S.EvalNode.at(feats)(v))


for _p, _t, _f, _s in (('C32', 'number of leaves', 'count_leaf', S.LEAVES), ('C32', 'number of internal nodes', 'count_internal', S.INTERNALS),
                       ('C32', 'depth', 'count_depth', S.DEPTH), ('C32', 'largest feature index', 'max_feature_index', S.MAXFEAT)):
    def _o(C, f=_f, s=_s):
        r = C.run(NODE + '::' + f)
        C.expect(r, f, r.ret, s.define(r.arg(0)))
    obl(_p, _t)(_o)


@obl('C30', 'largest label of an encrypted tree')
def maxleaf(C):
    r = C.run(ENC + '::max_leaf')
    C.expect(r, 'max_leaf', r.ret, S.MAXLEAF.define(r.arg(0)))


def tests(n):
    out = []
    for s in ('left', 'right'):
        p, c = S.child(n, s)
        out += [p, X.discr(c)]
    return out


@obl('C31', 'indices are assigned depth first, left before right')
def fixidx(C):
    r = C.run(C.private('decision_tree::fix_index'))
    n, i = args(r, 2)
    node, last = S.FixIndex.define(n, i)
    C.expect(r, 'last index', r.ret, add(i, S.desc_def(n)))
    C.expect(r, 'nodes', r.out(0), node, cases=tests(n))


@obl('C31', 'indexing starts at zero from the root')
def fixroot(C):
    r = C.run(NODE + '::fix_index')
    n = r.arg(0)
    i = S.inner(n)
    C.expect(r, 'last index', r.ret, S.descendants(i), assume=[S.is_internal(n)])
    C.expect(r, 'root', S.inner(r.out(0)), S.FixIndex.value(i, ZERO), assume=[S.is_internal(n)])


@obl('C31', 'flattening lists nodes depth first, left before right')
def flat(C):
    r = C.run(C.private('decision_tree::flatten_tree'))
    out, n = args(r, 2)
    new = r.out(0)
    t = tests(n)
    n0 = length(out)
    k, f = var('k', n0)
    C.expect(r, 'earlier entries', proj(new, ('i', k)), proj(out, ('i', k)), facts=f)
    C.expect(r, 'the node itself', proj(new, ('i', n0)), S.Flatten.entry(n))
    pos = add(n0, ONE)
    for i, s in enumerate(('left', 'right')):
        p, c = S.internal_child(n, s)
        sub_ = S.Flatten.value(c)
        k, f = var('k', length(sub_))
        here = [(t[2 * i], ONE), (t[2 * i + 1], INT(S.vi(NODE, 'Internal')))]
        C.expect(r, s + ' subtree', proj(new, ('i', add(pos, k))), proj(sub_, ('i', k)), facts=f, eqs=here,
                 cases=t[:2] if i else ())
        pos = add(pos, mul(p, length(sub_)))
    C.expect(r, 'number of entries', length(new), pos)


@obl('C31', 'flattening starts at the root; a leaf has no nodes')
def flatroot(C):
    r = C.run(NODE + '::flatten')
    n = r.arg(0)
    C.expect(r, 'nodes', r.ret, merge(S.is_internal(n), S.Flatten.value(S.inner(n)), mk('list')))


@obl('C32', 'generated trees are complete with one leaf labelled 1')
def fulltree(C):
    r = C.run(C.private('decision_tree::gen_full_tree'))
    d, done = args(r, 2)
    C.expect(r, 'tree', r.ret, S.FullTree.define(d, done))
    C.expect(r, 'flag', r.out(1), ONE)
    r = C.run(NODE + '::new_with_depth')
    C.expect(r, 'new_with_depth', r.ret, S.FullTree.value(r.arg(0), ZERO))


@obl('C32', 'truncation removes exactly the all-zero subtrees')
def trunc(C):
    r = C.run('decision_tree::trunc_tree')
    C.expect(r, 'tree', r.ret, S.Trunc.define(r.arg(0)))


# ---------------------------------------------------------------- encrypted trees
@obl('C30', 'every node splits the path indicator by its choice bit; a leaf adds it to the bits of its label')
def evalenc(C):
    r = C.run(C.private('decision_tree::eval_enc_node'))
    if len(r.args) != 5:
        raise Undecided('another signature')
    out, v, b = args(r, 3)
    k, f = var('k', length(out), INT(64))
    C.expect(r, 'output bit k', proj(r.out(0), ('i', k)), radd(proj(out, ('i', k)), S.EvalEnc.define(v, b, k)), facts=f)
    C.expect(r, 'number of outputs', length(r.out(0)), length(out))


@obl('C30', 'evaluation starts with the trivial encryption of one and has a bit for every label')
def evalenc_root(C):
    r = C.run(ENC + '::eval')
    v, ctx = args(r, 2)
    top = app('cast_IntToFloat_f64', add(app('enc_maxleaf', v), ONE))
    k, f = var('k', length(r.ret))
    one = rlwe(ZERO, codec_delta(C, cf(C, ctx, 'codec')))
    C.expect(r, 'output bit k', proj(r.ret, ('i', k)), S.EvalEnc.at(one, k)(v), facts=f)
    n, m = length(r.ret), app('enc_maxleaf', v)
    known = (app('cast_FloatToInt_usize', app('f_ceil', app('f_log2', app('cast_IntToFloat_f64', add(m, ONE))))),
             INT(64), add(app('log2', m), ONE), mul(NOT(EQ(m, ZERO)), add(app('log2', m), ONE)))
    if any(canon(n) is canon(x) for x in known):
        C.hold(r, 'number of bits')
        return
    for x in list(range(0, 34)) + [(1 << j) + d for j in range(6, 24) for d in (-1, 0, 1)]:
        b = fold_const(X.replace(n, {m: INT(x)}))
        if b is None:
            continue
        if b < x.bit_length():
            C.fail(r, 'number of bits', 'a largest label of %d gets %d output bits (%s)' % (x, b, show(n)[:200]))
            return
    C.undecided(r, 'number of bits', 'no proof that %s bits are enough' % show(n)[:200])


@obl('C30', 'recomposition reads the decrypted bits least significant first')
def recompose(C):
    r = C.run(C.private('decision_tree::decrypt_and_recompose'))
    sk, cts, ctx = args(r, 3)
    cod = cf(C, ctx, 'codec')
    def b(i):
        m, bd = mb(proj(cts, ('i', i)))
        return NOT(EQ(codec_dec(C, cod, X.coef(sub(bd, mul(m, proj(sk, 0))), ZERO)), ZERO))
    C.expect(r, 'value', r.ret, X.mk_sum(length(cts), lambda i: mul(b(i), pow2(i))))
