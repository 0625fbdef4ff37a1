"""Summaries of recursive functions (assumed at recursive and outer calls, checked by unfolding once)."""
import terms as X
from terms import (T, mk, INT, ZERO, ONE, UNIT, add, sub, mul, neg, pow2, EQ, LT, LE, NOT, AND, proj, merge, length, app,
                   mk_arr, mk_struct, ext)

RLWE = 'rlwe::RLWECiphertext'


def rlwe(m, b):
    return mk_struct(RLWE, ((0, mk_struct('Glwe', (('mask', m), ('body', b)))),))


def mb(ct):
    """(mask, body) of an RLWECiphertext value"""
    g = proj(ct, 0)
    return proj(g, 'mask'), proj(g, 'body')


def extp(g, ct):
    """external product of RGSWCiphertext value g and RLWECiphertext value ct"""
    m, b = mb(ct)
    return rlwe(*ext(proj(g, 0), m, b))


def radd(x, y):
    (a, b), (c, d) = mb(x), mb(y)
    return rlwe(add(a, c), add(b, d))


def rsub(x, y):
    (a, b), (c, d) = mb(x), mb(y)
    return rlwe(sub(a, c), sub(b, d))


class Spec:
    def __init__(self, path, argc, assume):
        self.path, self.argc, self.assume = path, argc, assume


SPECS = {}


def spec(path, argc):
    def deco(cls):
        SPECS[path] = Spec(path, argc, cls.assume)
        return cls
    return deco


def install(E, only=None):
    for p, s in SPECS.items():
        b = E.bodies.get(p)
        if b is None or b.argc != s.argc:
            continue

        def f(E, st, a, fn, s=s):
            return s.assume(E, st, a)
        E.specs[p] = f


@spec('decision_tree::demux_rec', 5)
class DemuxRec:
    @staticmethod
    def assume(E, st, a):
        level, b, bits = [E.val(st, x) for x in a[:3]]
        if not X.is_ring(level) or bits.op == 'weak':
            return X.weak('demux arguments')
        n = pow2(sub(length(bits), level))
        return mk_arr(n, lambda j: rlwe(*ext(app('dmx', bits, level, j), *mb(b))))


# ---------------------------------------------------------------- substitution of X^k for X
def evalxk(p, k):
    return app('evalxk', p, k)


@spec('utils::eval_x_k', 2)
class EvalXk:
    @staticmethod
    def assume(E, st, a):
        p, k = E.val(st, a[0]), E.val(st, a[1])
        if p.wk or not X.is_ring(k):
            return X.weak('substitution arguments')
        return evalxk(p, k)


@spec('utils::eval_x_k_in_memory', 3)
class EvalXkMem:
    @staticmethod
    def assume(E, st, a):
        p, k = E.val(st, a[1]), E.val(st, a[2])
        E.write(st, E.at(st, a[0]), X.weak('substitution arguments') if p.wk or not X.is_ring(k) else evalxk(p, k))
        return UNIT


# ---------------------------------------------------------------- trees
NODE, INT_, ENC, EINT, OP = ('decision_tree::' + x for x in ('Node', 'Internal', 'EncNode', 'EncInternal', 'Op'))


def vi(adt, name):
    for i, (n, _) in enumerate(X.ADT[adt]['variants']):
        if n == name:
            return i
    raise KeyError(name)


def fi(adt, name, variant=0):
    for i, (n, _) in enumerate(X.ADT[adt]['variants'][variant][1]):
        if n == name:
            return i
    raise KeyError(name)


def typed(t, ty):
    """an uninterpreted value of a structured type"""
    if t.op != 'weak' and t not in X.TY:
        X.TY[t] = ty
        X.note_sort(t, ty)
    return t


def adt(path):
    return ('adt', path, ())


def opt(ty):
    return ('adt', 'core::option::Option', (ty,))


def lift(f, x):
    """apply a summary below the case distinctions of its argument"""
    if x.op == 'weak':
        return x
    if x.op == 'ite':
        return merge(x.a[0], lift(f, x.a[1]), lift(f, x.a[2]))
    return f(x)


def lift_ref(E, st, f, x):
    x = E.norm(st, x, True) if x.op in ('ref', 'iteref') else x
    if x.op == 'iteref':
        return merge(x.a[0], lift_ref(E, st, f, x.a[1]), lift_ref(E, st, f, x.a[2]))
    return lift(f, E.val(st, x))


def is_internal(v, t=NODE):
    return EQ(X.discr(v), INT(vi(t, 'Internal')))


def inner(v, t=NODE):
    return X.payload(v, vi(t, 'Internal'), 0)


def label(v, t=NODE):
    return X.payload(v, vi(t, 'Leaf'), 0)


def child(n, side, t=INT_):
    """(present, node)"""
    o = proj(n, fi(t, side))
    return X.discr(o), X.payload(o, 1, 0)


def measure(name, path, leaf, join, t=NODE):
    """a number computed by recursion over the tree: leaf(label), join(internal, f) with f(side) = (present, value)"""
    it = INT_ if t == NODE else EINT

    def at(v):
        if v.op == 'enum':
            return unfold(v)
        return app(name, v)

    def unfold(v):
        def f(side):
            p, c = child(inner(v, t), side, it)
            return p, lift(at, c)
        if v.op == 'enum' and v.a[0].op == 'int':
            return leaf(label(v, t)) if v.a[0].a[0] == vi(t, 'Leaf') else join(inner(v, t), f)
        return merge(is_internal(v, t), join(inner(v, t), f), leaf(label(v, t)))

    class S:
        @staticmethod
        def assume(E, st, a):
            return lift_ref(E, st, at, a[0])
        define = staticmethod(unfold)
    spec(path, 1)(S)
    return S


def _sum(p, v):
    return mul(p, v)


LEAVES = measure('tree_leaves', NODE + '::count_leaf', lambda l: ONE,
                 lambda n, f: add(_sum(*f('left')), _sum(*f('right'))))
INTERNALS = measure('tree_internals', NODE + '::count_internal', lambda l: ZERO,
                    lambda n, f: add(ONE, _sum(*f('left')), _sum(*f('right'))))
DEPTH = measure('tree_depth', NODE + '::count_depth', lambda l: ZERO,
                lambda n, f: add(ONE, X.MAX(_sum(*f('left')), _sum(*f('right')))))
MAXFEAT = measure('tree_maxfeat', NODE + '::max_feature_index', lambda l: ZERO,
                  lambda n, f: X.MAX(X.MAX(proj(n, fi(INT_, 'feature')), _sum(*f('left'))), _sum(*f('right'))))
MAXLEAF = measure('enc_maxleaf', ENC + '::max_leaf', lambda l: l,
                  lambda n, f: X.MAX(_sum(*f('left')), _sum(*f('right'))), ENC)


def descendants(n):
    """number of internal nodes strictly below an internal node"""
    if n.op == 'weak':
        return n
    return app('tree_desc', n)


def internal_child(n, side):
    p, c = child(n, side)
    return AND(p, is_internal(c)), inner(c)


def desc_def(n):
    out = []
    for s in ('left', 'right'):
        p, c = internal_child(n, s)
        out.append(mul(p, add(ONE, descendants(c))))
    return add(*out)


def with_field(v, t, name, x):
    n = fi(t, name)
    return mk_struct(t, tuple((i, x if i == n else proj(v, i)) for i in range(len(X.ADT[t]['variants'][0][1]))))


@spec('decision_tree::fix_index', 2)
class FixIndex:
    @staticmethod
    def value(n, i):
        if n.op == 'weak' or not X.is_ring(i):
            return X.weak('tree argument')
        return typed(app('tree_fixed', n, i), adt(INT_))

    @staticmethod
    def assume(E, st, a):
        n, i = E.val(st, a[0]), E.val(st, a[1])
        r = FixIndex.value(n, i)
        E.write(st, E.norm(st, a[0], True), r)
        return add(i, descendants(n)) if r.op != 'weak' else r

    @staticmethod
    def define(n, i):
        """(node afterwards, result)"""
        out = with_field(n, INT_, 'index', i)
        j = i
        for s in ('left', 'right'):
            p, c = internal_child(n, s)
            o = proj(n, fi(INT_, s))
            node = X.payload(o, 1, 0)
            new = mk('enum', X.discr(node), tuple(sorted(((vi(NODE, 'Internal'), ((0, FixIndex.value(c, add(j, ONE))),)),
                                                          (vi(NODE, 'Leaf'), ((0, label(node)),))))))
            no = mk('enum', X.discr(o), ((1, ((0, merge(is_internal(node), new, node)),)),))
            out = with_field(out, INT_, s, merge(p, no, o))
            j = merge(p, add(j, ONE, descendants(c)), j)
        return out, j


@spec('decision_tree::flatten_tree', 2)
class Flatten:
    @staticmethod
    def value(n):
        if n.op == 'weak':
            return n
        return typed(app('tree_flat', n), ('adt', 'alloc::vec::Vec', (adt(INT_),)))

    @staticmethod
    def assume(E, st, a):
        from model import concat
        d = E.norm(st, a[0], True)
        E.write(st, d, concat(E.val(st, a[0]), Flatten.value(E.val(st, a[1]))))
        return UNIT

    @staticmethod
    def entry(n):
        """the node without its children"""
        leaf = mk('enum', ONE, ((1, ((0, mk('enum', INT(vi(NODE, 'Leaf')), ((vi(NODE, 'Leaf'), ((0, ZERO),)),))),)),))
        return with_field(with_field(n, INT_, 'left', leaf), INT_, 'right', leaf)


@spec('decision_tree::eval_node', 4)
class EvalNode:
    """adds b times the label of the chosen leaf (b is 0 or 1)"""
    @staticmethod
    def at(feats):
        def f(v):
            return app('tree_eval', v, feats)
        return f

    @staticmethod
    def assume(E, st, a):
        d = E.norm(st, a[0], True)
        feats, b = E.val(st, a[2]), E.val(st, a[3])
        v = lift_ref(E, st, EvalNode.at(feats), a[1])
        E.write(st, d, add(E.val(st, a[0]), mul(b, v)))
        return UNIT

    @staticmethod
    def define(v, feats):
        at = EvalNode.at(feats)
        n = inner(v)
        go = LE(proj(feats, ('i', proj(n, fi(INT_, 'feature')))), proj(n, fi(INT_, 'threshold')))
        (pl, l), (pr, r) = child(n, 'left'), child(n, 'right')
        return merge(is_internal(v), merge(go, mul(pl, at(l)), mul(pr, at(r))), label(v))


@spec('decision_tree::gen_full_tree', 2)
class FullTree:
    @staticmethod
    def value(d, done):
        if not X.is_ring(d) or not X.is_ring(done):
            return X.weak('tree argument')
        return typed(app('tree_full', d, done), adt(NODE))

    @staticmethod
    def assume(E, st, a):
        d, done = E.val(st, a[0]), E.val(st, a[1])
        E.write(st, E.norm(st, a[1], True), ONE)
        return FullTree.value(d, done)

    @staticmethod
    def define(d, done):
        some = lambda x: mk('enum', ONE, ((1, ((0, x),)),))
        d1 = sub(d, ONE)
        n = {'threshold': ZERO, 'feature': ZERO, 'index': ZERO, 'op': mk('enum', INT(vi(OP, 'LEQ')), ()),
             'left': some(FullTree.value(d1, done)), 'right': some(FullTree.value(d1, ONE))}
        fs = X.ADT[INT_]['variants'][0][1]
        node = mk_struct(INT_, tuple((i, n[f]) for i, (f, _) in enumerate(fs)))
        i, l = vi(NODE, 'Internal'), vi(NODE, 'Leaf')
        return mk('enum', merge(EQ(d, ZERO), INT(l), INT(i)),
                  tuple(sorted(((i, ((0, node),)), (l, ((0, sub(ONE, done)),))))))


@spec('decision_tree::trunc_tree', 1)
class Trunc:
    @staticmethod
    def value(o):
        return typed(app('tree_trunc', o), opt(adt(NODE)))

    @staticmethod
    def assume(E, st, a):
        return lift_ref(E, st, Trunc.value, a[0])

    @staticmethod
    def define(o):
        node = X.payload(o, 1, 0)
        n = inner(node)
        l, r = (Trunc.value(proj(n, fi(INT_, s))) for s in ('left', 'right'))
        new = with_field(with_field(n, INT_, 'left', l), INT_, 'right', r)
        keep = mul(X.discr(o), merge(is_internal(node), sub(ONE, mul(sub(ONE, X.discr(l)), sub(ONE, X.discr(r)))),
                                     NOT(EQ(label(node), ZERO))))
        i, lf = vi(NODE, 'Internal'), vi(NODE, 'Leaf')
        out = mk('enum', X.discr(node), tuple(sorted(((i, ((0, new),)), (lf, ((0, label(node)),))))))
        return mk('enum', keep, ((1, ((0, out),)),))


# ---------------------------------------------------------------- encrypted trees
def bit(x, k):
    return NOT(EQ(X.rem(X.div(x, pow2(k)), INT(2)), ZERO))


@spec('decision_tree::eval_enc_node', 5)
class EvalEnc:
    """adds to output k the ciphertext b under the (linear) operator of the subtree for bit k"""
    @staticmethod
    def at(b, k):
        def f(v):
            return rlwe(*ext(app('evb', v, k), *mb(b)))
        return f

    @staticmethod
    def assume(E, st, a):
        d = E.norm(st, a[0], True)
        o, b = E.val(st, a[0]), E.val(st, a[2])
        if o.op == 'weak' or b.op == 'weak':
            E.write(st, d, X.weak('eval_enc_node arguments'))
            return UNIT
        E.write(st, d, mk_arr(length(o), lambda k: radd(proj(o, ('i', k)), lift_ref(E, st, EvalEnc.at(b, k), a[1]))))
        return UNIT

    @staticmethod
    def define(v, b, k):
        n = inner(v, ENC)
        one = extp(proj(n, fi(EINT, 'ct')), b)
        zero = rsub(b, one)
        (pl, l), (pr, r) = child(n, 'left', EINT), child(n, 'right', EINT)
        m = lambda p, c: tuple(mul(p, x) for x in mb(c))
        (lm, lb), (rm, rb) = m(pl, EvalEnc.at(one, k)(l)), m(pr, EvalEnc.at(zero, k)(r))
        xm, xb = m(bit(label(v, ENC), k), b)
        i = is_internal(v, ENC)
        return rlwe(merge(i, add(lm, rm), xm), merge(i, add(lb, rb), xb))


# ---------------------------------------------------------------- row assignment
USIZE = ('prim', 'usize')


@spec('naive_hash::NaiveHash::hash_to_mapping', 3)
class Mapping:
    """an arbitrary map from rows to (column, index), determined by the tables, the indices and the row width"""
    @staticmethod
    def value(h, ixs, d):
        return typed(app('mapping', h, ixs, d),
                     ('adt', 'std::collections::hash::map::HashMap', (USIZE, ('tuple', (USIZE, USIZE)))))

    @staticmethod
    def assume(E, st, a):
        h, ixs, d = [E.val(st, x) for x in a]
        if 'weak' in (h.op, ixs.op, d.op):
            return X.weak('mapping arguments')
        return Mapping.value(h, ixs, d)
