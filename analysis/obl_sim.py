"""The tree simulation: which keys, ciphertexts and trees every prediction is computed from.  The cryptographic steps, each the subject
of its own property, stay uninterpreted functions of their arguments (randomness aside)."""
import terms as X
import model
from terms import *
from check import *
from canon import canon
from engine import upd
from props import obl
from obl_flow import ok, bad

D = 'decision_tree::'
CTX = 'context::Context'
RES = D + 'SimulationResult'
# step -> positions of the arguments the result depends on
STEPS = {'context::Context::new': (0,), 'context::Context::gen_rlwe_sk': (0,), 'rlwe::RLWESecretKey::neg_gsw': (0, 1),
         'rlwe::gen_all_subs_ksk_fourier': (0, 1), D + 'encrypt_feature_vector': (0, 1, 2), D + 'Node::flatten': (0,),
         D + 'compare_expand': (0, 1, 2, 3, 4), D + 'EncNode::new': (0, 1), D + 'EncNode::eval': (0, 1),
         D + 'decrypt_and_recompose': (0, 1, 2), D + 'Node::eval': (0, 1)}


def step(C, name, *a):
    """value of a step for argument values a"""
    ty = C.lib.bodies[name].tys
    vals = []
    for i, x in zip(STEPS[name], a):
        t = ty[i + 1]
        while t[0] == 'ref':
            t = t[1]
        if t == ('adt', CTX, ()):
            # the parameters only (randomness is the subject of C14), but every key has its own draw
            x = mk('list', *[proj(x, j) for j in range(X.nfields(t)) if j not in gens(C)[1 if name.endswith('gen_rlwe_sk') else 0:]])
        vals.append(x)
    return model.typed_app('step:' + name, ty[0], *vals)


def gens(C):
    return [C.field(CTX, n) for n in ('secret_generator', 'random_generator', 'encryption_generator')]


def simulate(C):
    for p in STEPS:
        C.private(p)
        if C.lib.bodies[p].argc < len(STEPS[p]):
            raise Undecided('signature of %s' % p)

    def prepare(E, st, b, args):
        E.specs = dict(E.specs)
        for p in STEPS:
            def f(E, st, a, fn, p=p):
                vals = [E.val(st, x) for x in a]
                r = step(C, p, *[vals[i] for i in STEPS[p]])
                if p.endswith('gen_rlwe_sk'):
                    g = C.field(CTX, 'secret_generator')
                    E.write(st, E.at(st, a[0]), upd(vals[0], (g,), app('advanced', proj(vals[0], g))))
                return r
            E.specs[p] = f
        return args
    return C.run(D + 'simulate', prepare, 'sim')


class Sim:
    def __init__(self, C, r):
        self.r = r
        self.model, self.features, self.parallel = (r.arg(i) for i in range(3))
        p = C.run('<params::TFHEParameters as core::default::Default>::default').ret
        self.ctx = step(C, 'context::Context::new', p)
        self.sk = step(C, 'context::Context::gen_rlwe_sk', self.ctx)

    def result(self, C, i):
        neg, ksk = step(C, 'rlwe::RLWESecretKey::neg_gsw', self.sk, self.ctx), step(C, 'rlwe::gen_all_subs_ksk_fourier', self.sk, self.ctx)
        cts = step(C, D + 'encrypt_feature_vector', self.sk, proj(self.features, ('i', i)), self.ctx)
        bits = step(C, D + 'compare_expand', step(C, D + 'Node::flatten', self.model), cts, neg, ksk, self.ctx)
        out = step(C, D + 'EncNode::eval', step(C, D + 'EncNode::new', self.model, bits), self.ctx)
        return step(C, D + 'decrypt_and_recompose', self.sk, out, self.ctx)

    def clear(self, C, i):
        return step(C, D + 'Node::eval', self.model, proj(self.features, ('i', i)))


@obl('C36', 'one prediction per feature vector, in input order, from the evaluation of that vector')
def predictions(C):
    r = simulate(C)
    s = Sim(C, r)
    ps = C.fld(r.ret, RES, 'predictions')
    n = length(s.features)
    C.expect(r, 'number of inputs', C.fld(r.ret, RES, 'input_count'), n)
    C.expect(r, 'number of predictions', length(ps), n)
    i, f = var('i', n)
    want, clear = s.result(C, i), s.clear(C, i)
    got = proj(ps, ('i', i))
    # every result is compared with the clear evaluation before it is reported
    g = checked(r, n, i)
    same = [x for x in g if same_eq(x, want, clear)]
    if same:
        C.hold(r, 'comparison with clear evaluation')
    elif all(not x.wk for x in g) and any(mentions(x, 'decrypt_and_recompose') for x in g):
        # some comparison of decrypted results exists: judge what it compares
        x = [x for x in g if mentions(x, 'decrypt_and_recompose')][0]
        C.expect(r, 'comparison with clear evaluation', x, EQ(want, clear), facts=f)
    elif any(x.wk for x in g):
        C.undecided(r, 'comparison with clear evaluation', 'assertions not summarised')
    else:
        C.fail(r, 'comparison with clear evaluation', 'no prediction is compared with the homomorphic result')
    # the two are equal then, either may be reported
    if mentions(got, 'decrypt_and_recompose'):
        C.expect(r, 'prediction i', got, want, facts=f)
    else:
        C.expect(r, 'prediction i', got, clear, facts=f)


def mentions(x, name):
    return any(y.op == 'app' and y.a[0] == 'step:' + D + name for y in descend(x))


def descend(x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            todo.extend(y.a)
            yield y
        elif isinstance(y, tuple):
            todo.extend(y)


def same_eq(x, a, b):
    x = canon(x)
    return x is canon(EQ(a, b)) or x is canon(EQ(b, a))


def checked(r, n, i):
    """conditions asserted for every i < n"""
    E, out = r.E, []
    for j, (stk, g, lp) in enumerate(E.guards):
        ks = E.guard_k.get(j, ())
        if not is_ring(g):
            continue
        if g.wk:
            out.append(g)
            continue
        k = [x for x in ks if x in g.fv]
        if len(k) == 1 and g.fv == {k[0]} and canon(E.trips.get(k[0], ZERO)) is canon(n):
            out.append(subst(g, {k[0]: i}))
    return out


@obl('C36', 'the result reports the parameters of the context that was used')
def parameters(C):
    r = simulate(C)
    s = Sim(C, r)
    for n in ('std', 'poly_size', 'base_log', 'level_count', 'ks_base_log', 'ks_level_count', 'negs_base_log', 'negs_level_count'):
        C.expect(r, n, C.fld(r.ret, RES, n), proj(s.ctx, C.field(CTX, n)))
