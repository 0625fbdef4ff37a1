"""Obligations: a function of the repository is summarised by the value-flow analysis on opaque arguments and
its results are compared, leaf by leaf, with the values the property prescribes."""
import time
import traceback
import ir
import terms as X
import model
import specs
import interp
from terms import (T, mk, INT, ZERO, ONE, UNIT, add, sub, mul, neg, pow2, EQ, LT, LE, NOT, AND, proj, merge, length,
                   app, mk_arr, mk_struct, mk_sum, is_ring, Facts, fresh, subst, simp)
from engine import Engine, State, ref, Diverge, Budget
from canon import canon
from trace import opaque_args

OK, BAD, UNK = 'held', 'violated', 'undecided'


class Res:
    def __init__(self, status, name, detail='', leaf='', fn='', span=''):
        self.status, self.name, self.detail, self.leaf, self.fn, self.span = status, name, detail, leaf, fn, span

    def key(self):
        return '%s/%s/%s' % (self.name, self.fn, self.leaf)


class Anchor(Exception):
    """a public item the property is about is missing"""


class Undecided(Exception):
    pass


class Ctx:
    """one analysis session over the current tree"""

    def __init__(self, d, tier='quick', seed=1):
        self.tier, self.seed = tier, seed
        self.lib, self.binc = ir.load(d + '/panacea-lib.json', d + '/panacea-bin.json')
        model.setup_terms(self.lib)
        self.results = []
        self.cur = None
        self.functions = set()
        self.leaves = 0
        self.identical = 0
        self.confirmed = 0
        self.canonised = 0
        self.interps = 0
        self.crossed = 0
        self.cache = {}

    def engine(self):
        E = Engine(self.lib, self.binc)
        model.install(E)
        specs.install(E)
        return E

    def stats(self):
        return {'functions_analysed': len(self.functions), 'functions': sorted(self.functions),
                'values_compared': self.leaves, 'identical_normal_forms': self.identical,
                'interpretations_evaluated': self.interps, 'mir_bodies': len(self.lib.bodies) + len(self.binc.bodies if self.binc else {}),
                'basic_blocks': sum(len(self.lib.bodies[f].blocks) for f in self.functions if f in self.lib.bodies)}

    # ---- anchors
    def body(self, path):
        b = self.lib.bodies.get(path)
        if b is None and self.binc is not None and path.startswith('bin::'):
            b = self.binc.bodies.get(path[5:])
        if b is None:
            raise Anchor(path)
        return b

    def private(self, path):
        """an internal function some obligation is about; a tree that is organised differently is not judged by it"""
        if path not in self.lib.bodies:
            raise Undecided('no function %s' % path)
        return path

    def field(self, adt, name):
        d = X.ADT.get(adt)
        if d is None:
            raise Anchor(adt)
        for i, (n, ty) in enumerate(d['variants'][0][1]):
            if n == name:
                return i
        raise Undecided('no field %s.%s' % (adt, name))

    def ftype(self, adt, pred):
        """index of the only field whose type satisfies pred"""
        d = X.ADT.get(adt)
        if d is None:
            raise Anchor(adt)
        l = [i for i, (n, ty) in enumerate(d['variants'][0][1]) if pred(repr(ty))]
        if len(l) != 1:
            raise Undecided('field of %s' % adt)
        return l[0]

    def fld(self, v, adt, name):
        return proj(v, self.field(adt, name))

    # ---- running
    def run(self, path, prepare=None, key=None):
        k = (path, key)
        if k in self.cache:
            return self.cache[k]
        b = self.body(path)
        E = self.engine()
        st = State()
        args = opaque_args(E, st, b)
        if prepare:
            args = prepare(E, st, b, args)
        r = Run(self, E, path, b, args, st)
        self.cache[k] = r
        return r

    # ---- comparison
    def expect(self, run, leaf, got, exp, assume=(), facts=None, eqs=(), cases=(), fixed=None):
        if cases:
            # case distinction on conditions both values depend on
            c = cases[0]
            for v, w in ((ONE, '1'), (ZERO, '0')):
                mp = {c: v}
                self.expect(run, leaf + '|' + w, X.replace(got, mp), X.replace(exp, mp), tuple(assume) + ((c if v is ONE else NOT(c)),), facts,
                            [(X.replace(a, mp), X.replace(b, mp)) for a, b in eqs], [X.replace(x, mp) for x in cases[1:]], fixed)
            return
        self.leaves += 1
        name = self.cur
        self.fixed = fixed
        if any(n.startswith('write through') for n in run.E.weak_notes):
            self.results.append(Res(UNK, name, 'a store through an unknown reference', leaf, run.path, run.span))
            return
        try:
            if eqs:
                # equalities the function asserts before it uses the values
                mp = dict(eqs)
                got, exp = X.replace(got, mp), X.replace(exp, mp)
            e, g = canon(exp, facts), canon(got, facts)
        except RecursionError:
            self.results.append(Res(UNK, name, 'term depth', leaf, run.path, run.span))
            return
        if g is not e:
            e, g = canon(e, facts, True), canon(g, facts, True)
        fa = [X.mk('ge0', f) for f in facts.ge] if facts else []
        if g is e and got is not exp and self.tier == 'thorough' and not got.wk and not leak(got):
            # cross-check of the normaliser: the values as they were before normalisation
            adm, sep, note = interp.terms_differ(got, exp, list(assume) + fa + [EQ(x, y) for x, y in eqs] + run.assume(), fixed=fixed)
            self.interps += adm
            self.crossed += 1
            if adm >= 4 and sep >= 2 and sep * 12 >= adm:
                self.results.append(Res(UNK, name, 'equal normal forms, but random interpretation separates the values before normalisation', leaf, run.path, run.span))
                return
        self._cmp(run, leaf, g, e, list(assume) + fa + [EQ(x, y) for x, y in eqs] + run.assume(), facts or Facts())

    def _enum(self, run, leaf, g, e, assume, facts, depth):
        """values with variants: which variant, then the payload where that variant holds"""
        dg, de = canon(X.discr(g), facts, True), canon(X.discr(e), facts, True)
        if dg is not de:
            self._cmp(run, leaf + '.variant', dg, de, assume, facts, depth + 1)
            return True
        a = None
        if de.op == 'int':
            pass
        elif de.ind:
            a = {0: {de: ZERO}, 1: {de: ONE}}
        elif NOT(de).ind:
            a = {0: {NOT(de): ONE}, 1: {NOT(de): ZERO}}
        vs = X.variants(e)
        for k, v in X.variants(g).items():
            vs.setdefault(k, v)
        for vi, names in sorted(vs.items()):
            if de.op == 'int' and de.a[0] != vi:
                continue
            mp = a.get(vi, {}) if a else {}
            for n in names:
                x, y = (canon(X.replace(X.payload(t, vi, n), mp), facts, True) for t in (g, e))
                self._cmp(run, '%s.%d.%s' % (leaf, vi, n), x, y, list(assume) + [EQ(de, INT(vi))], facts, depth + 1)
        return True

    def _cmp(self, run, leaf, g, e, assume, facts, depth=0):
        if g is e and not g.wk:
            self.identical += 1
            self.results.append(Res(OK, self.cur, 'identical normal forms', leaf, run.path, run.span))
            return
        if g.op == 'struct' and e.op == 'struct' and g.a[0] == e.a[0]:
            ge, ee = dict(g.a[1]), dict(e.a[1])
            if set(ge) == set(ee):
                for n in ee:
                    self._cmp(run, leaf + '.' + str(n), ge[n], ee[n], assume, facts, depth)
                return
        if X.is_enum(g) and X.is_enum(e) and not (g.wk and g.op == 'weak') and e.op != 'weak' and depth < 8:
            if self._enum(run, leaf, g, e, assume, facts, depth):
                return
        if g.op == 'fvec' and e.op == 'fvec':
            self._cmp(run, leaf, g.a[0], e.a[0], assume, facts, depth)
            return
        if e.op == 'struct' and g.op != 'struct' and not g.wk and depth < 8 and isinstance(e.a[0], str) and e.a[0] != 'Map':
            # an opaque value against an assembled one: field by field
            ps = [(n, proj(g, n), x) for n, x in e.a[1]]
            if all(p.op not in ('weak', 'undef') for _, p, _ in ps):
                for n, p, x in ps:
                    self._cmp(run, leaf + '.' + str(n), canon(p, facts, True), x, assume, facts, depth + 1)
                return
        if g.op == 'list' and e.op == 'list' and len(g.a) == len(e.a):
            for i, (x, y) in enumerate(zip(g.a, e.a)):
                self._cmp(run, '%s[%d]' % (leaf, i), x, y, assume, facts, depth)
            return
        if e.wk:
            self.results.append(Res(UNK, self.cur, 'reference value not available: %s' % why(e), leaf, run.path, run.span))
            return
        if g.wk or leak(g):
            self.results.append(Res(UNK, self.cur, 'value not fully summarised: %s' % (why(g) if g.wk else 'loop unknown'),
                                    leaf, run.path, run.span))
            return
        if run.E.guard_lost:
            # an assertion that is not understood may exclude the inputs on which the values differ
            self.results.append(Res(UNK, self.cur, 'normal forms differ and an assertion is not understood', leaf, run.path, run.span))
            return
        adm, sep, note = interp.terms_differ(g, e, assume, fixed=self.fixed)
        self.interps += adm
        bad = separated(adm, sep)
        loops = run.assume_loops() if bad else []
        if loops:
            # assertions inside loops
            adm, sep, note = interp.terms_differ(g, e, list(assume) + [x for x in loops if x not in assume], fixed=self.fixed)
            self.interps += adm
            bad = separated(adm, sep)
        if bad:
            self.results.append(Res(BAD, self.cur, 'expected  %s\n      computed  %s\n      (%d of %d admissible interpretations separate them)'
                                    % (X.show(e, 9)[:1500], X.show(g, 9)[:1500], sep, adm), leaf, run.path, run.span))
        else:
            self.results.append(Res(UNK, self.cur, 'normal forms differ but %d interpretations found no difference (%s)\n  E %s\n  G %s'
                                    % (adm, note, X.show(e, 9)[:1200], X.show(g, 9)[:1200]), leaf, run.path, run.span))

    def fail(self, run, leaf, msg):
        self.results.append(Res(BAD, self.cur, msg, leaf, run.path if run else '', run.span if run else ''))

    def hold(self, run, leaf, msg=''):
        self.leaves += 1
        self.results.append(Res(OK, self.cur, msg, leaf, run.path if run else '', run.span if run else ''))

    def undecided(self, run, leaf, msg):
        self.leaves += 1
        self.results.append(Res(UNK, self.cur, msg, leaf, run.path if run else '', run.span if run else ''))


def separated(adm, sep):
    return adm >= 4 and sep >= 2 and sep * (12 if sep < 3 else 64) >= adm


def var(hint, *bounds):
    """an arbitrary index, 0 <= index < every bound, and the facts that say so"""
    v = X.opq(('var', hint), ('prim', 'usize'))
    return v, Facts().plus_ge(v, *[sub(sub(b, v), ONE) for b in bounds])


def why(t):
    """the reasons inside a weak term"""
    seen, out, st = set(), [], [t]
    while st and len(out) < 3:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, T):
            if x.op == 'weak':
                out.append(str(x.a[0]))
            elif x.wk:
                st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return '; '.join(out)


def leak(t):
    return any(x.op in ('sv',) or x.op == 'opq' for x in t.fv)


def run_property(C, prop, tier):
    import props
    n = 0
    for title, f in props.OBL[prop]:
        C.cur = title
        n += 1
        n0 = len(C.results)
        try:
            f(C)
        except Anchor as e:
            C.results.append(Res(BAD, title, 'public item not found: %s' % e, 'anchor:%s' % e))
        except Undecided as e:
            C.results.append(Res(UNK, title, str(e)))
        except RecursionError:
            C.results.append(Res(UNK, title, 'analysis depth'))
        except Exception as e:
            C.results.append(Res(UNK, title, 'analysis error: %s' % traceback.format_exc()[-900:]))
        if len(C.results) == n0:
            C.results.append(Res(UNK, title, 'the obligation produced no instance'))
    return n


class Run:
    def __init__(self, C, E, path, body, args, st):
        self.C, self.E, self.path, self.body = C, E, path, body
        self.span = body.span
        self.args = args
        self.init = State(dict(st.c), st.f)
        self.st = st
        self.ret = None
        self.error = None
        try:
            self.ret = E.run_fn(path, args, st)
        except Diverge:
            self.error = 'the function never returns'
        except Budget:
            self.error = 'analysis budget'
        except RecursionError:
            self.error = 'analysis depth'
        C.functions |= E.visited
        if self.error == 'the function never returns':
            C.results.append(Res(BAD, C.cur, self.error, 'returns', path, self.span))
            raise Undecided(self.error)
        if self.error:
            raise Undecided(self.error)

    def arg(self, i):
        """initial value of argument i (reference arguments: the value behind)"""
        return self.E.val(self.init, self.args[i])

    def out(self, i):
        return self.E.val(self.st, self.args[i])

    def assume(self):
        """assertions the function makes before it can return (free of loop variables)"""
        out = []
        for stk, g, lp in self.E.guards:
            if is_ring(g) and not g.wk and not g.fv and g not in out and g is not ZERO:
                out.append(g)
        return out[:12]

    def assume_loops(self):
        """assertions inside loops hold in every iteration"""
        out = []
        for j, (stk, g, lp) in enumerate(self.E.guards):
            ks = self.E.guard_k.get(j, ())
            if not is_ring(g) or g.wk or not g.fv or not g.fv <= set(ks):
                continue
            t = NOT(g)
            for k in reversed(ks):
                n = self.E.trips.get(k)
                if k not in t.fv:
                    continue
                if n is None or n.op == 'weak':
                    t = None
                    break
                t = X.close_sum(n, k, t)
                if t.wk:
                    t = None
                    break
            if t is not None and not t.fv and EQ(t, ZERO) not in out:
                out.append(EQ(t, ZERO))
        return out


def fold_const(t):
    """a closed number, folding the integer and float functions the term language leaves uninterpreted; None when not closed"""
    import math
    from canon import canon

    def num(x):
        if x.op == 'int':
            return x.a[0]
        if x.op == 'flt':
            return float(x.a[0])
        return None
    F = {'f_ceil': lambda x: math.ceil(x) if abs(x) != math.inf else x, 'f_floor': lambda x: math.floor(x) if abs(x) != math.inf else x, 'f_log2': lambda x: math.log2(x) if x > 0 else -math.inf, 'f_round': round,
         'f_abs': abs, 'f_sqrt': math.sqrt, 'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y,
         'f_max': max, 'f_min': min, 'max': max, 'min': min, 'f_powf': lambda x, y: x ** y, 'f_powi': lambda x, y: x ** y,
         'fdiv': lambda x, y: x / y if y else math.inf, 'fcmp_Lt': lambda x, y: int(x < y), 'fcmp_Le': lambda x, y: int(x <= y),
         'fcmp_Eq': lambda x, y: int(x == y), 'log2': lambda x: int(x).bit_length() - 1, 'tz': lambda x: (int(x) & -int(x)).bit_length() - 1,
         'cast_IntToFloat_f64': float, 'cast_FloatToInt_usize': lambda x: max(0, int(x)) if abs(x) != math.inf else 0}
    FLT = {'f_ceil', 'f_floor', 'f_log2', 'f_round', 'f_abs', 'f_sqrt', 'fadd', 'fsub', 'fmul', 'f_max', 'f_min', 'f_powf', 'f_powi', 'fdiv', 'cast_IntToFloat_f64'}
    for _ in range(40):
        t = canon(t)
        if num(t) is not None:
            return num(t)
        mp = {}
        for x in X.atoms(t):
            if x.op == 'app' and x.a[0] in F and all(isinstance(y, T) and num(y) is not None for y in x.a[1:]):
                try:
                    v = F[x.a[0]](*[num(y) for y in x.a[1:]])
                except (ValueError, OverflowError, TypeError):
                    return None
                mp[x] = mk('flt', repr(float(v))) if x.a[0] in FLT else INT(int(v))
        if not mp:
            return None
        t = X.replace(t, mp)
    return None
