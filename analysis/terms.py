"""Hash-consed value terms of the value-flow analysis, and their normal forms.

Ring values (machine integers, booleans as 0/1, polynomials over the torus) are kept as multivariate
polynomials with integer coefficients over atoms; conditions are 0/1 indicator atoms, so a gated
(phi) merge of two ring values a, b under c is  b + c*(a-b).  Finite sums and array comprehensions
bind variables; bound variables are named by binder height, so alpha-equivalent terms are one object.
"""
import itertools

_tab = {}
_n = itertools.count()
M64 = 1 << 64
H63 = 1 << 63


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'fv', 'wk', 'ps', 'ind', 'sz')

    def __repr__(self):
        return show(self)


EMPTY = frozenset()
IND_OPS = {'ge0', 'eq0'}
BINDERS = {'arr', 'sum', 'lam'}
POLY_OPS = {'mask', 'body', 'xpow', 'fslot', 'pol'}
PS_APPS = set()      # uninterpreted functions with polynomial results (filled by model)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = next(_n)
    h = 0
    fv = set()
    wk = op == 'weak'
    sz = 1
    ps = op in POLY_OPS or (op == 'app' and a[0] in PS_APPS)
    st = list(a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            h = max(h, x.h)
            fv |= x.fv
            wk = wk or x.wk
            sz += x.sz
        elif isinstance(x, tuple):
            st.extend(x)
    if op in ('sv', 'bv') or (op == 'opq' and isinstance(a[0], tuple) and a[0] and a[0][0] == 'phi'):
        fv.add(t)
    if op in BINDERS:
        h += 1
        fv.discard(_tab.get(('bv', (h,))))
    if op == 'ring':
        ps = any(at.ps for m, c in a[0] for at, e in m)
    if op == 'sum':
        ps = a[1].ps
    if op == 'fld' and isinstance(a[1], tuple) and a[1][0] == 'st':
        ps = a[1][3]
    t.h = h
    t.fv = frozenset(fv) if fv else EMPTY
    t.wk = wk
    t.ps = ps
    t.ind = op in IND_OPS
    t.sz = sz
    _tab[k] = t
    return t


def INT(n):
    n = ((n + H63) % M64) - H63
    return mk('int', n)


ZERO = INT(0)
ONE = INT(1)
UNIT = mk('unit')
UNDEF = mk('undef')
_sv = itertools.count()


def fresh(hint='v'):
    return mk('sv', hint, next(_sv))


def weak(why):
    return mk('weak', why)


# ---------------------------------------------------------------- types of opaque terms
TY = {}


def opq(key, ty=None):
    t = mk('opq', key)
    if ty is not None:
        TY[t] = ty
        note_sort(t, ty)
    return t


POLY_TYPES = set()   # filled by model


def note_sort(t, ty):
    if ty is None:
        return
    if ty == ('prim', 'bool'):
        t.ind = True
    if ty[0] == 'adt' and ty[1] in POLY_TYPES:
        t.ps = True


# ---------------------------------------------------------------- ring
def is_ring(t):
    return t.op in ('int', 'ring') or t.op not in (
        'struct', 'enum', 'arr', 'list', 'ref', 'iteref', 'clo', 'str', 'unit', 'undef', 'weak', 'fn', 'bytes',
        'fvec', 'vnt', 'mapst', 'isrc', 'ite', 'abbr', 'lam')


def poly(t):
    """term -> dict mono->coef"""
    if t.op == 'int':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'ring':
        return dict(t.a[0])
    return {((t, 1),): 1}


def _norm_c(c):
    return ((c + H63) % M64) - H63


def rmk(d):
    items = []
    for m, c in d.items():
        c = _norm_c(c)
        if c:
            items.append((m, c))
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return INT(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: [(a.id, e) for a, e in mc[0]])
    return mk('ring', tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        if t.op == 'weak':
            return t
        if not is_ring(t):
            return weak('add on %s' % t.op)
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    return rmk(d)


def neg(t):
    return scale(t, -1)


def scale(t, k):
    if t.op == 'weak':
        return t
    if not is_ring(t):
        return weak('scale on %s' % t.op)
    return rmk({m: c * k for m, c in poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """-> (mono, coef) """
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    for at, e in m1 + m2:
        d[at] = d.get(at, 0) + e
    coef = 1
    xs = [a for a in d if a.op == 'xpow']
    if len(xs) > 1 or (xs and d[xs[0]] != 1):
        e = add(*[scale(a.a[0], d[a]) for a in xs])
        for a in xs:
            del d[a]
        x = xpow(e)
        if x is not ONE:
            d[x] = 1
    ps = [a for a in d if a.op == 'pow2']
    if len(ps) > 1 or (ps and d[ps[0]] != 1):
        e = add(*[scale(a.a[0], d[a]) for a in ps])
        for a in ps:
            del d[a]
        x = pow2(e)
        if x.op == 'int':
            coef *= x.a[0]
        else:
            d[x] = 1
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.ind or a.op == 'fslot':
            e = 1
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), coef


def _fix_pow2(m, c):
    # move powers of two of the coefficient into a pow2 atom of the monomial
    if c and c % 2 == 0:
        for i, (a, e) in enumerate(m):
            if a.op == 'pow2' and e == 1:
                v = 0
                while c % 2 == 0:
                    c //= 2
                    v += 1
                x = pow2(add(a.a[0], INT(v)))
                rest = m[:i] + m[i + 1:]
                mm, k = mono_mul(rest, ((x, 1),))
                return mm, c * k
    return m, c


def mul(*ts):
    for t in ts:
        if t.op == 'weak':
            return t
        if not is_ring(t):
            return weak('mul on %s' % t.op)
    r = {(): 1}
    for t in ts:
        p = poly(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m, k = mono_mul(m1, m2)
                c = c1 * c2 * k
                if any(a.op == 'pow2' for a, e in m):
                    m, c = _fix_pow2(m, c)
                n[m] = n.get(m, 0) + c
        r = {m: c for m, c in n.items() if _norm_c(c)}
        if len(r) > 4000:
            return weak('term too large')
    return rmk(r)


def from_mono(m, c=1):
    return rmk({m: c})


def xpow(e):
    return ONE if e is ZERO else mk('xpow', e)


def pow2(e):
    if e.op == 'weak':
        return e
    if e.op == 'int':
        if 0 <= e.a[0] < 64:
            return INT(1 << e.a[0])
        if e.a[0] >= 64:
            return mk('pow2', e)
    if e.op == 'app' and e.a[0] == 'log2':
        return e.a[1]
    return mk('pow2', e)


N = mk('N')            # the one polynomial size of a session
TAU = mk('tau')        # 2^-64: scaling between the torus and the integer view of the FFT


def is_const(t):
    return t.op == 'int'


# ---------------------------------------------------------------- conditions
def _lead(t):
    """leading (non constant) coefficient of a ring term, by a stable order"""
    for m, c in (t.a[0] if t.op == 'ring' else tuple(poly(t).items())):
        if m != ():
            return c
    return 0


def ge0(d):
    if d.op == 'weak':
        return d
    if not is_ring(d):
        return weak('cmp on %s' % d.op)
    if d.op == 'int':
        return ONE if d.a[0] >= 0 else ZERO
    if _lead(d) < 0:
        return sub(ONE, ge0(sub(neg(d), ONE)))
    p = poly(d)
    # tighten common factors
    nc = [c for m, c in p.items() if m != ()]
    g = 0
    from math import gcd
    for c in nc:
        g = gcd(g, abs(c))
    if g > 1:
        k = p.get((), 0)
        d = rmk({**{m: c // g for m, c in p.items() if m != ()}, (): k // g})
    return mk('ge0', d)


def eq0(d):
    if d.op == 'weak':
        return d
    if not is_ring(d):
        return weak('cmp on %s' % d.op)
    if d.op == 'int':
        return ONE if d.a[0] == 0 else ZERO
    if _lead(d) < 0:
        d = neg(d)
    p = poly(d)
    # 0/1 valued term compared with a constant
    if all(len(m) == 1 and m[0][0].ind or m == () for m in p) and len(p) <= 2:
        k = p.get((), 0)
        am = [(m, c) for m, c in p.items() if m != ()]
        if len(am) == 1:
            m, c = am[0]
            a = m[0][0]
            # c*a + k == 0
            t0 = k == 0
            t1 = c + k == 0
            if t0 and t1:
                return ONE
            if t0:
                return sub(ONE, a)
            if t1:
                return a
            return ZERO
    # parity normal form: rem(x,2)==1  <=>  1 - [rem(x,2)==0]
    if len(p) == 2 and p.get((), 0) == -1:
        am = [(m, c) for m, c in p.items() if m != ()]
        m, c = am[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'rem' and m[0][0].a[1] is INT(2):
            return sub(ONE, eq0(m[0][0]))
    return mk('eq0', d)


def EQ(a, b):
    return eq0(sub(a, b))


def LT(a, b):
    return ge0(sub(sub(b, a), ONE))


def LE(a, b):
    return ge0(sub(b, a))


def NOT(c):
    return sub(ONE, c)


def AND(a, b):
    return mul(a, b)


def OR(a, b):
    return sub(add(a, b), mul(a, b))


def div(a, b):
    if a.op == 'weak' or b.op == 'weak':
        return a if a.op == 'weak' else b
    if a.op == 'int' and b.op == 'int' and b.a[0] > 0 and a.a[0] >= 0:
        return INT(a.a[0] // b.a[0])
    if b is ONE:
        return a
    if b.op == 'int' and b.a[0] > 1:
        # split multiples of b:  (b*q + r)/b = q + r/b   (no wrap-around assumed)
        q, r = {}, {}
        for m, c in poly(a).items():
            if c % b.a[0] == 0:
                q[m] = c // b.a[0]
            else:
                k = c // b.a[0] if m == () else 0
                if k:
                    q[m] = k
                r[m] = c - k * b.a[0]
        if q:
            return add(rmk(q), div(rmk(r), b))
    if b.op == 'pow2' or b.op == 'app':
        # q*b / b
        p = poly(a)
        if p and all(any(at is b for at, e in m) for m in p):
            o = {}
            for m, c in p.items():
                mm = []
                done = False
                for at, e in m:
                    if at is b and not done:
                        done = True
                        if e > 1:
                            mm.append((at, e - 1))
                    else:
                        mm.append((at, e))
                o[tuple(mm)] = c
            return rmk(o)
    return mk('div', a, b)


def rem(a, b):
    if a.op == 'weak' or b.op == 'weak':
        return a if a.op == 'weak' else b
    if a.op == 'int' and b.op == 'int' and b.a[0] > 0 and a.a[0] >= 0:
        return INT(a.a[0] % b.a[0])
    if b is ONE:
        return ZERO
    if b.op == 'int' and b.a[0] > 1:
        r = {m: c % b.a[0] for m, c in poly(a).items() if c % b.a[0]}
        a = rmk(r)
        if a.op == 'int':
            return INT(a.a[0] % b.a[0])
        if b.a[0] == 2:
            p = poly(a)
            if p.get((), 0) == 1:
                x = rmk({m: c for m, c in p.items() if m != ()})
                return sub(ONE, rem(x, b))
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].ind:
                    return a
    return mk('rem', a, b)


def app(f, *args):
    for x in args:
        if isinstance(x, T) and x.op == 'weak':
            return x
    if f in ('dec', 'dec1'):
        x = args[-1]
        if x.op == 'app' and x.a[0] == 'closest' + f[3:] and x.a[1] is args[0] and x.a[2] is args[1]:
            args = args[:-1] + (x.a[3],)        # the decomposition rounds its argument itself
    return mk('app', f, *args)


# ---------------------------------------------------------------- facts
def natural(a):
    """atoms that denote non-negative integers (indices, sizes, conditions), as opposed to torus words"""
    if a.op == 'coef' or a.ps:
        return False
    return a.op not in ('opq', 'proj') or ty_of(a) != ('prim', 'u64')


class Facts:
    """a set of linear facts t >= 0, used to decide indicators"""
    __slots__ = ('ge', 'eqs', 'memo')

    def __init__(self, ge=(), eqs=()):
        self.ge = tuple(ge)
        self.eqs = tuple(eqs)
        self.memo = {}

    def plus_ge(self, *ts):
        ts = [t for t in ts if t.op != 'int' and t not in self.ge and t.op != 'weak']
        if not ts:
            return self
        return Facts(self.ge + tuple(ts), self.eqs)

    def plus_cond(self, c):
        """assume the 0/1 term c is 1"""
        out = self
        p = poly(c) if is_ring(c) else {}
        if len(p) == 1:
            (m, k), = p.items()
            if k == 1 and all(a.ind for a, e in m):
                for a, e in m:
                    if a.op == 'ge0':
                        out = out.plus_ge(a.a[0])
                    elif a.op == 'eq0':
                        out = Facts(out.ge + (a.a[0], neg(a.a[0])), out.eqs + (a.a[0],))
                    else:
                        out = Facts(out.ge + (sub(a, ONE),), out.eqs)
        elif len(p) == 2 and p.get((), 0) == 1:
            (m, k), = [(m, k) for m, k in p.items() if m != ()]
            if k == -1 and len(m) == 1 and m[0][0].ind:
                a = m[0][0]
                if a.op == 'ge0':
                    out = out.plus_ge(sub(neg(a.a[0]), ONE))
                elif a.op == 'eq0':
                    # x != 0: with x>=0 known gives x>=1
                    d = a.a[0]
                    if out.nonneg(d):
                        out = out.plus_ge(sub(d, ONE))
                    elif out.nonneg(neg(d)):
                        out = out.plus_ge(sub(neg(d), ONE))
                else:
                    out = out.plus_ge(neg(a))
        return out

    def _atom_facts(self, q):
        r = []
        for m in poly(q):
            for a, e in m:
                if a.op == 'div' and a.a[1].op == 'int' and a.a[1].a[0] > 0:
                    n = a.a[1].a[0]
                    r.append(sub(a.a[0], scale(a, n)))
                    r.append(sub(add(scale(a, n), INT(n - 1)), a.a[0]))
                elif a.op == 'rem':
                    r.append(sub(sub(a.a[1], a), ONE))
                    r.append(a)
                elif a.op == 'app' and a.a[0] == 'min':
                    for x in a.a[1:]:
                        r.append(sub(x, a))
                elif a.op == 'app' and a.a[0] == 'first':
                    r.append(sub(a.a[1], a))
        return r

    def case(self, a, x):
        """the facts in the case that the minimum a is its argument x"""
        mp = {a: x}
        return Facts(tuple(replace(f, mp) for f in self.ge) + tuple(sub(y, x) for y in a.a[1:] if y is not x),
                     tuple(replace(f, mp) for f in self.eqs))

    def absurd(self):
        return any(f.op == 'int' and f.a[0] < 0 or f.op != 'int' and poly(f).get((), 0) < 0 and
                   all(c < 0 and all(natural(a) for a, e in m) for m, c in poly(f).items()) for f in self.ge)

    def nonneg(self, q):
        if q.op == 'int':
            return q.a[0] >= 0
        if not is_ring(q):
            return False
        k = self.memo.get(q)
        if k is None:
            k = self._nonneg(q)
            self.memo[q] = k
        return k

    def _nonneg(self, q):
        def trivially(t):
            # sum of non-negative monomials (usize atoms are non-negative)
            return all(c > 0 and all(natural(a) for a, e in m) for m, c in poly(t).items()) if t.op != 'int' else t.a[0] >= 0
        if trivially(q) or self.absurd():
            return True
        for m, c in poly(q).items():
            if c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'min':
                rest = sub(q, from_mono(m, c))
                if all(self.nonneg(add(rest, scale(x, c))) for x in m[0][0].a[1:]):
                    return True
                mn = m[0][0]
                if any(mn in f.fv or mn in atoms(f) for f in self.ge) and \
                        all(self.case(mn, x).nonneg(add(rest, scale(x, c))) for x in mn.a[1:]):
                    return True
        af = self._atom_facts(q)
        fs = list(self.ge)
        for f in list(fs):
            af += [x for x in self._atom_facts(f) if x not in af]
        fs = [f for f in fs if f.op != 'int'] + af
        for qq in (q, add(scale(q, 2), ONE)):
            if trivially(qq):
                return True
            # depth-limited elimination: subtract facts that share a negative atom
            seen = {}

            def rec(t, d):
                if trivially(t):
                    return True
                if d <= seen.get(t, 0):
                    return False
                seen[t] = d
                negs = [m for m, c in poly(t).items() if c < 0 and m != ()]
                for f in fs:
                    pf = poly(f)
                    if negs:
                        if not any(m in pf and pf[m] < 0 for m in negs):
                            continue
                    elif not any(m != () and c > 0 and m in poly(t) for m, c in pf.items()):
                        continue
                    for k in (1, 2):
                        if rec(sub(t, scale(f, k)), d - 1):
                            return True
                return False
            if rec(qq, 3):
                return True
        return False

    def decide(self, atom):
        if atom.op == 'ge0':
            d = atom.a[0]
            if self.nonneg(d):
                return 1
            if self.nonneg(sub(neg(d), ONE)):
                return 0
        elif atom.op == 'eq0':
            d = atom.a[0]
            if d in self.eqs or neg(d) in self.eqs:
                return 1
            if self.nonneg(sub(d, ONE)) or self.nonneg(sub(neg(d), ONE)):
                return 0
            if self.nonneg(d) and self.nonneg(neg(d)):
                return 1
        elif atom.ind:
            if sub(atom, ONE) in self.ge:
                return 1
            if neg(atom) in self.ge:
                return 0
        return None


NOFACTS = Facts()


def simp(t, facts):
    """decide indicator atoms of a ring term by facts"""
    if not is_ring(t) or t.op == 'int':
        return t
    ats = {a for m in poly(t) for a, e in m if a.ind}
    mins = {a for m in poly(t) for a, e in m if a.op == 'app' and a.a[0] in ('min', 'max')}
    rep = {}
    for a in ats:
        v = facts.decide(a)
        if v is not None:
            rep[a] = INT(v)
    for a in mins:
        v = (MIN if a.a[0] == 'min' else MAX)(a.a[1], a.a[2], facts)
        if v is not a:
            rep[a] = v
    if not rep:
        return t
    out = []
    for m, c in poly(t).items():
        r = INT(c)
        for a, e in m:
            r = mul(r, *([rep.get(a, a)] * e)) if e > 0 else mul(r, from_mono(((a, e),)))
        out.append(r)
    return add(*out)


def MIN(a, b, facts=NOFACTS):
    if a is b:
        return a
    if facts.nonneg(sub(b, a)):
        return a
    if facts.nonneg(sub(a, b)):
        return b
    x, y = sorted((a, b), key=lambda t: t.id)
    return app('min', x, y)


def MAX(a, b, facts=NOFACTS):
    if a is b:
        return a
    if facts.nonneg(sub(b, a)):
        return b
    if facts.nonneg(sub(a, b)):
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return app('max', x, y)


# ---------------------------------------------------------------- binders
def _close(v, body, ln):
    """rename fresh var v to the canonical bound variable one above every binder inside"""
    h = max(body.h, ln.h) + 1
    return subst(body, {v: mk('bv', h)})


def mk_arr(ln, f, facts=NOFACTS):
    v = fresh('x')
    body = f(v)
    return close_arr(ln, v, body)


def close_arr(ln, v, body):
    if body.op == 'weak':
        return body
    if ln.op == 'weak':
        return ln
    # eta: comprehension over an opaque array
    if body.op in ('idx', 'opq') and body.op == 'idx' and body.a[1] is v and v not in body.a[0].fv \
            and length(body.a[0]) is ln:
        return body.a[0]
    if body.op == 'struct':
        pass
    b = _close(v, body, ln)
    return mk('arr', ln, b)


_arr_memo = {}


def arr_body(t, i):
    """element i of an 'arr' term"""
    r = _arr_memo.get((t, i))
    if r is None:
        r = _arr_memo[(t, i)] = subst(t.a[1], {mk('bv', t.h): i})
    return r


def mk_sum(hi, f, facts=NOFACTS):
    v = fresh('t')
    body = f(v)
    return close_sum(hi, v, body, facts)


def close_sum(hi, v, body, facts=NOFACTS):
    if body.op == 'weak':
        return body
    if hi.op == 'weak':
        return hi
    if not is_ring(body):
        return weak('sum of %s' % body.op)
    if hi is ZERO:
        return ZERO
    if v not in body.fv:
        return mul(hi, body)
    if hi.op == 'int' and 0 < hi.a[0] <= 4 and body.sz <= 4000:
        return add(*[subst(body, {v: INT(i)}) for i in range(hi.a[0])])
    fx = facts.plus_ge(v, sub(sub(hi, v), ONE))
    body = simp(body, fx)
    p = poly(body)
    # pair  c*R  with  -c*R*[t<b]   into the range b..hi
    out = []
    work = dict(p)
    changed = True
    while changed:
        changed = False
        for m, c in list(work.items()):
            if m not in work:
                continue
            for i, (a, e) in enumerate(m):
                if a.op == 'ge0' and v in a.fv:
                    rest = m[:i] + m[i + 1:]
                    if rest in work and work[rest] == -c:
                        r = ge_range(a, v, True)
                        if r is None:
                            continue
                        lo, up = r
                        up = hi if up is None else MIN(up, hi, facts)
                        lo = MAX(lo, ZERO, facts)
                        del work[m]
                        c0 = work.pop(rest)
                        out.append(range_sum(lo, up, v, from_mono(rest, c0), facts))
                        changed = True
                        break
    for m, c in work.items():
        out.append(sum_mono(hi, v, m, c, facts))
    return add(*out)


def ge_range(a, v, complement):
    """indicator a=[d>=0], d = +-v + e.  -> (lo, up) of v for which it (or its complement) holds;
    None in lo = 0, None in up = hi"""
    d = a.a[0]
    p = poly(d)
    cv = p.get(((v, 1),), 0)
    e = rmk({m: c for m, c in p.items() if m != ((v, 1),)})
    if cv not in (1, -1) or v in e.fv:
        return None
    if cv == 1:   # v >= -e
        lo = neg(e)
        return (ZERO, lo) if complement else (lo, None)
    # v <= e
    return (add(e, ONE), None) if complement else (ZERO, add(e, ONE))


def range_sum(lo, hi, v, body, facts):
    """sum_{lo<=v<hi} body, empty when hi<lo ; lo >= 0"""
    w = fresh('t')
    return close_sum(MAX(sub(hi, lo), ZERO, facts), w, subst(body, {v: add(w, lo)}), facts)


def sum_mono(hi, v, m, c, facts):
    # equality indicator that determines v
    for i, (a, e) in enumerate(m):
        if a.op == 'eq0' and v in a.fv:
            p = poly(a.a[0])
            cv = p.get(((v, 1),), 0)
            r = rmk({k: x for k, x in p.items() if k != ((v, 1),)})
            if cv in (1, -1) and v not in r.fv:
                val = neg(r) if cv == 1 else r
                rest = from_mono(m[:i] + m[i + 1:], c)
                g = mul(ge0(val), LT(val, hi))
                g = simp(g, facts)
                return mul(g, subst(rest, {v: val}))
            if abs(cv) > 1 and v not in r.fv:
                k = abs(cv)
                x = neg(r) if cv > 0 else r      # k*v == x
                # split x = y + c0, 0<=c0<k when the constant allows it:  v = y/k
                c0 = poly(x).get((), 0)
                if -k < c0 <= 0:
                    y = sub(x, INT(c0))
                    val = div(y, INT(k))
                    g = mul(eq0(rem(x, INT(k))), LT(val, hi))
                    g = simp(g, facts)
                    rest = from_mono(m[:i] + m[i + 1:], c)
                    return mul(g, subst(rest, {v: val}))
    for i, (a, e) in enumerate(m):
        if a.op == 'ge0' and v in a.fv:
            r = ge_range(a, v, False)
            if r is not None:
                lo, up = r
                rest = from_mono(m[:i] + m[i + 1:], c)
                up2 = hi if up is None else MIN(up, hi, facts)
                lo2 = MAX(lo, ZERO, facts) if lo is not ZERO else lo
                if facts.nonneg(sub(up2, lo2)):
                    return range_sum(lo2, up2, v, rest, facts)
    ind = [(a, e) for a, e in m if v not in a.fv]
    dep = [(a, e) for a, e in m if v in a.fv]
    if not dep:
        return mul(hi, from_mono(m, c))
    # polynomial reconstruction:  sum_{t<N} coef(A,t) X^t = A ; sum_{t<N/2} fc(A,t).. E_t = A..
    if hi is N and len(dep) == 2:
        xs = [a for a, e in dep if a.op == 'xpow' and a.a[0] is v and e == 1]
        cs = [a for a, e in dep if a.op == 'coef' and a.a[1] is v and e == 1 and v not in a.a[0].fv]
        if len(xs) == 1 and len(cs) == 1:
            return mul(from_mono(tuple(ind), c), cs[0].a[0])
    if hi is div(N, INT(2)):
        xs = [a for a, e in dep if a.op == 'fslot' and a.a[0] is v]
        if len(xs) == 1:
            r = unfc(from_mono(tuple((a, e) for a, e in dep if a is not xs[0]), 1), v)
            if r is not None:
                return mul(from_mono(tuple(ind), c), r)
    body = from_mono(tuple(dep))
    b = _close(v, body, hi)
    s = mk('sum', hi, b)
    return mul(from_mono(tuple(ind), c), s)


def unfc(t, v):
    """the polynomial whose Fourier slot v is t, or None"""
    out = []
    for m, c in poly(t).items():
        r = INT(c)
        for a, e in m:
            if v not in a.fv:
                x = a if not a.ps else None
            elif e > 0 and a.op == 'fc' and a.a[1] is v and v not in a.a[0].fv:
                x = a.a[0]
            elif a.op == 'sum' and v not in a.a[0].fv:
                w = fresh('t')
                x = unfc(sum_body(a, w), v)
                x = x if x is None else close_sum(a.a[0], w, x)
            else:
                x = None
            if x is None:
                return None
            r = mul(r, *([x] * e)) if e > 0 else mul(r, from_mono(((x, e),)))
        out.append(r)
    return add(*out)


def sum_body(t, i):
    return subst(t.a[1], {mk('bv', t.h): i})


def enum_eta(d, vs):
    """a value rebuilt from all the parts of one value is that value"""
    b = None
    if d.op == 'discr':
        b = d.a[0]
    else:
        for i, fs in vs:
            for n, x in fs:
                b = b or (x.a[0] if x.op == 'pay' else None)
    if b is not None and all(x.op == 'pay' and x.a[0] is b and x.a[1] == i and x.a[2] == n for i, fs in vs for n, x in fs) \
            and {i: [n for n, _ in fs] for i, fs in vs} == variants(b):
        if d.op == 'discr':
            return b
        q = mk('discr', b)
        if is_ring(d) and all(replace(d, {q: INT(i)}) is INT(i) for i, _ in vs):
            return b                 # a case distinction that gives every variant its own discriminant
    return mk('enum', d, vs)


# ---------------------------------------------------------------- substitution
def close_lam(bound, v, body):
    if body.op == 'weak':
        return body
    return mk('lam', bound, _close(v, body, bound))


def close(op, ln, v, body):
    return close_arr(ln, v, body) if op == 'arr' else close_sum(ln, v, body) if op == 'sum' else close_lam(ln, v, body)


def open_lam(t, *vs):
    """body of (nested) lambda terms at the given values"""
    for v in vs:
        t = subst(t.a[1], {mk('bv', t.h): v})
    return t


def first(n, v, c):
    """the least v < n with c(v), and n when there is none"""
    for x in (n, c):
        if x.op == 'weak':
            return x
    if c is ZERO or n is ZERO:
        return n
    if c is ONE:
        return ZERO
    return app('first', n, close_lam(n, v, c))


def subst(t, mp, memo=None):
    if not t.fv or not any(v in t.fv for v in mp):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _subst(t, mp, memo)
    memo[t] = r
    return r


def atoms(t):
    """all subterms"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            st.extend(x.a)
    return seen


def replace(t, mp):
    """every occurrence of the given terms replaced (not only variables)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mp:
            return mp[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = one(x)
        return r

    def one(x):
        op = x.op
        if op in ('int', 'weak', 'undef', 'unit', 'sv', 'bv', 'str', 'fn', 'opq', 'cst', 'abbr'):
            return x
        if op == 'ring':
            out = []
            for m, c in x.a[0]:
                r = INT(c)
                for a, e in m:
                    y = go(a)
                    r = mul(r, *([y] * e)) if e > 0 else mul(r, from_mono(((y, e),)))
                out.append(r)
            return add(*out)
        if op in BINDERS:
            v = fresh('x')
            body = go(subst(x.a[1], {mk('bv', x.h): v}))
            ln = go(x.a[0])
            return close(op, ln, v, body)
        a = [go(y) for y in x.a]
        return rebuild(op, a, x) if any(y is not z for y, z in zip(a, x.a)) else x
    return go(t)


def _sub_any(x, mp, memo):
    if isinstance(x, T):
        return subst(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, mp, memo) for y in x)
    return x


def _subst(t, mp, memo):
    if t in mp:
        return mp[t]
    op = t.op
    if op == 'ring':
        out = []
        for m, c in t.a[0]:
            r = INT(c)
            for a, e in m:
                x = subst(a, mp, memo)
                if e > 0:
                    r = mul(r, *([x] * e))
                else:
                    r = mul(r, from_mono(((x, e),)))
            out.append(r)
        return add(*out)
    if op in BINDERS:
        v = fresh('x')
        body = subst(t.a[1], {mk('bv', t.h): v})
        body = subst(body, mp)
        ln = subst(t.a[0], mp, memo)
        return close(op, ln, v, body)
    a = [_sub_any(x, mp, memo) for x in t.a]
    return rebuild(op, a, t)


def unfold(j, n, st, lam):
    """component j of the state after a small constant number of iterations"""
    for i in range(0 if n is ZERO else n.a[0]):
        st = open_lam(lam, INT(i), st)
        if st.op != 'list':
            return weak('state of a loop')
    return st.a[j]


def rebuild(op, a, t):
    if op == 'app' and a[0] == 'first':
        v = fresh('x')
        return first(a[1], v, open_lam(a[2], v))
    if op == 'app' and a[0] == 'fold' and a[3].op == 'list' and (a[2] is ZERO or a[2].op == 'int' and 0 < a[2].a[0] <= 4):
        return unfold(a[1].a[0], a[2], a[3], a[4])
    if op == 'ge0':
        return ge0(a[0])
    if op == 'eq0':
        return eq0(a[0])
    if op == 'div':
        return div(a[0], a[1])
    if op == 'rem':
        return rem(a[0], a[1])
    if op == 'pow2':
        return pow2(a[0])
    if op == 'xpow':
        return xpow(a[0])
    if op == 'coef':
        return coef(a[0], a[1])
    if op == 'fc':
        return fc(a[0], a[1])
    if op == 'pol' and a[0].op == 'struct' and len(a[0].a[1]) == 1 and a[0].a[1][0][1].op == 'fvec':
        return a[0].a[1][0][1].a[0]
    if op == 'mask' or op == 'body':
        return proj(a[0], op)
    if op == 'fld':
        return proj(a[0], a[1])
    if op == 'idx':
        return proj(a[0], ('i', a[1]))
    if op == 'key':
        return proj(a[0], ('k', a[1]))
    if op == 'pay':
        return payload(a[0], a[1], a[2])
    if op == 'len':
        return length(a[0])
    if op == 'discr':
        return discr(a[0])
    if op == 'app':
        if a[0] == 'min':
            return MIN(a[1], a[2])
        if a[0] == 'max':
            return MAX(a[1], a[2])
        r = app(*a)
        if t in TY and r not in TY and r.op == 'app':
            TY[r] = TY[t]
            note_sort(r, TY[t])
        return r
    if op == 'xp':
        b = a[1]
        if b.op == 'struct':
            m, y = proj(b, 'mask'), proj(b, 'body')
            for g in a[0]:
                m, y = ext(g, m, y)
            return mk_struct(b.a[0], (('mask', m), ('body', y)))
        return xp_term(a[0], b)
    if op == 'abbr':
        if all(x.op in ('sv', 'bv') for x in a[1:]) and len(set(a[1:])) == len(a) - 1:
            return mk('abbr', *a)
        r = _unabbr_memo.get(tuple(a))
        if r is None:
            c, n = _abbr_def[a[0]]
            r = _unabbr_memo[tuple(a)] = abbr(subst(c, {_hole(i): a[1 + i] for i in range(n)}))
        return r
    if op == 'struct':
        return mk_struct(a[0], a[1])
    if op == 'ite':
        return merge(a[0], a[1], a[2])
    if op == 'list':
        return mk('list', *a)
    r = mk(op, *a)
    if t in TY and r not in TY:
        TY[r] = TY[t]
        note_sort(r, TY[t])
    r.ps = r.ps or t.ps
    r.ind = r.ind or t.ind
    return r


# ---------------------------------------------------------------- structures
def mk_struct(tag, fields):
    """fields: tuple of (name, value)"""
    for n, v in fields:
        if v.op == 'weak' and len(fields) == 1:
            return v
    # eta: all fields are the projections of one opaque value
    base = None
    ok = bool(fields)
    for n, v in fields:
        if v.op == 'fld' and v.a[1] == n:
            b = v.a[0]
        elif v.op in ('mask', 'body') and v.op == n:
            b = v.a[0]
        else:
            ok = False
            break
        if base is None:
            base = b
        elif base is not b:
            ok = False
            break
    if ok and base is not None and base in TY and base.op != 'xp' and nfields(TY[base]) == len(fields):
        return base
    return mk('struct', tag, tuple(fields))


ADT = {}        # path -> {'enum':bool,'variants':[(name,[(fname,type)])]}
EXTRA = {}      # external types: path -> callable(base, ty) -> structured value


def nfields(ty):
    if ty[0] == 'adt':
        if ty[1] in ADT and not ADT[ty[1]]['enum']:
            return len(ADT[ty[1]]['variants'][0][1])
        if ty[1] in NF_EXTRA:
            return NF_EXTRA[ty[1]]
        if ty[1].startswith('concrete_core::specification::'):
            return 1
    if ty[0] == 'tuple':
        return len(ty[1])
    return -1


NF_EXTRA = {}


def subst_ty(t, args):
    """substitute adt generic params by position names: params are ('param',name)"""
    return t


def strip(ty):
    """transparent pointers"""
    while ty is not None:
        if ty[0] in ('ref', 'ptr'):
            ty = ty[1]
        elif ty[0] == 'adt' and ty[1] in TRANSPARENT and ty[2]:
            ty = ty[2][0]
        else:
            return ty
    return ty


TRANSPARENT = {
    'alloc::rcs::arc::Arc', 'alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::sync::Arc', 'alloc::rc::Rc',
    'std::sync::poison::rwlock::RwLock', 'std::sync::poison::mutex::Mutex',
    'std::sync::RwLock', 'std::sync::Mutex', 'core::cell::RefCell', 'core::cell::Cell',
}


def field_ty(ty, name, variant=0):
    ty = strip(ty)
    if ty is None:
        return None
    if ty[0] == 'tuple' and isinstance(name, int) and name < len(ty[1]):
        return ty[1][name]
    if ty[0] == 'adt':
        d = ADT.get(ty[1])
        if d and variant < len(d['variants']):
            fs = d['variants'][variant][1]
            if isinstance(name, int) and name < len(fs):
                return fs[name][1]
        f = FIELD_EXTRA.get(ty[1])
        if f:
            return f(ty, name, variant)
    return None


FIELD_EXTRA = {}
FIELD_RULE = {}     # (type, field): value of that field in every value of the type


def elem_ty(ty):
    ty = strip(ty)
    if ty is None:
        return None
    if ty[0] in ('slice', 'array'):
        return ty[1]
    if ty[0] == 'adt':
        if ty[1] in ('alloc::vec::Vec',) and ty[2]:
            return ty[2][0]
        if ty[1] in MAP_TYPES and len(ty[2]) > 1:
            return ty[2][1]
    return None


MAP_TYPES = {'std::collections::hash::map::HashMap'}


def sel(op, base, *a, ty=None):
    t = mk(op, base, *a)
    if ty is not None and t not in TY:
        s = strip(ty)
        TY[t] = s
        note_sort(t, s)
    elif ty is None and t not in TY:
        pass
    return t


def ty_of(t):
    return TY.get(t)


def special(t):
    """opaque values of a few external types have a fixed value"""
    ty = TY.get(t)
    if ty and ty[0] == 'adt' and ty[1] in EXTRA:
        return EXTRA[ty[1]](t, ty)
    return t


def proj(v, item):
    """projection of a value: item is a field index/name or ('i',t) / ('c',t) / ('k',t) / ('v',n)"""
    op = v.op
    if op == 'weak':
        return v
    if op == 'undef':
        return UNDEF
    if isinstance(item, tuple) and item[0] == 'st':     # component of the state of a loop
        if op == 'list':
            return v.a[item[1]]
        return sel('fld', v, item, ty=item[2])
    if op == 'ite':
        return merge(v.a[0], proj(v.a[1], item), proj(v.a[2], item))
    if op == 'struct':
        if isinstance(item, (int, str)):
            for n, x in v.a[1]:
                if n == item:
                    return x
            return weak('no field %r in %s' % (item, v.a[0]))
        if isinstance(item, tuple) and item[0] == 'v':
            return v
        if isinstance(item, tuple) and item[0] == 'i' and v.a[0] == 'Ggsw':
            return proj(proj(v, 'rows'), item)
    if op == 'enum':
        if isinstance(item, tuple) and item[0] == 'v':
            for vi, fs in v.a[1]:
                if vi == item[1]:
                    return mk('struct', ('variant', vi), fs)
            return UNDEF
    if isinstance(item, tuple):
        k = item[0]
        if k == 'i':
            i = item[1]
            if i.op == 'weak':
                return i
            if op == 'arr':
                return arr_body(v, i)
            if op == 'list':
                if i.op == 'int':
                    n = i.a[0]
                    return v.a[n] if 0 <= n < len(v.a) else weak('index out of range')
                r = UNDEF
                for j in range(len(v.a) - 1, -1, -1):
                    r = merge(EQ(i, INT(j)), v.a[j], r)
                return r
            if op == 'fvec':
                return fc(v.a[0], i)
            if op in ('opq', 'fld', 'idx', 'pay', 'key', 'app', 'sub'):
                if flat(v):
                    return proj(v, ('c', i))
                return special(sel('idx', v, i, ty=elem_ty(TY.get(v))))
            if is_ring(v):
                return coef(v, i)
            return weak('index of %s' % op)
        if k == 'c':
            if item[1].op == 'weak':
                return item[1]
            if op == 'struct' and v.a[0] == 'Glwe':
                i = item[1]
                return merge(LT(i, N), coef(proj(v, 'mask'), i), coef(proj(v, 'body'), sub(i, N)))
            if op == 'arr' or op == 'list':
                return proj(v, ('i', item[1]))
            if is_glwe(v):
                i = item[1]
                return merge(LT(i, N), coef(proj(v, 'mask'), i), coef(proj(v, 'body'), sub(i, N)))
            return coef(v, item[1])
        if k == 'k':
            if op in ('opq', 'fld', 'idx', 'pay', 'key', 'app'):
                return special(sel('key', v, item[1], ty=elem_ty(TY.get(v))))
            if op == 'arr':
                return arr_body(v, item[1])
            return weak('key of %s' % op)
        if k == 'v':
            if op in ('opq', 'fld', 'idx', 'pay', 'key', 'app'):
                return mk('vnt', v, item[1])
            return weak('variant of %s' % op)
        if k == 'lv':     # level matrix of a ggsw: 2 rows
            rows = proj(v, 'rows') if (op == 'struct' and v.a[0] == 'Ggsw') or op != 'arr' else v
            b = scale(item[1], 2)
            return mk('list', proj(rows, ('i', b)), proj(rows, ('i', add(b, ONE))))
        if k == 'sl':     # sub-slice lens
            lo, ln = item[1], item[2]
            return mk_arr(ln, lambda x: proj(v, ('i', add(x, lo))))
    if op == 'vnt':
        return payload(v.a[0], v.a[1], item)
    if item == 'fp':
        return v.a[0] if op == 'fvec' else weak('fourier content of %s' % op)
    if item == 'fd':
        return mk('fvec', v)
    if item in ('mask', 'body'):
        if op in ('opq', 'fld', 'idx', 'pay', 'key', 'xp', 'app'):
            t = mk(item, v)
            t.ps = True
            return t
        return weak('%s of %s' % (item, op))
    if op in ('opq', 'fld', 'idx', 'pay', 'key', 'app') or (op not in ('int', 'ring') and is_ring(v)):
        if FIELD_RULE:
            ty = strip(TY.get(v))
            if ty is not None and ty[0] == 'adt' and (ty[1], item) in FIELD_RULE:
                return FIELD_RULE[ty[1], item](v)
        return special(sel('fld', v, item, ty=field_ty(TY.get(v), item)))
    return weak('field %r of %s' % (item, op))


def flat(v):
    """a container whose elements are the coefficients of a polynomial (or of mask and body)"""
    if v.ps:
        return True
    ty = TY.get(v)
    if ty is not None and ty[0] == 'ref':
        ty = strip(ty)
    return ty is not None and ty[0] == 'adt' and ty[1].startswith('concrete_core::') and ty[1].rsplit('::', 1)[1] in FLAT


FLAT = ('Tensor', 'Polynomial', 'PlaintextList', 'GlweBody', 'GlweCiphertext')


def is_glwe(v):
    ty = TY.get(v)
    return ty is not None and ty[0] == 'adt' and ty[1].endswith('::GlweCiphertext')


def payload(v, vi, f):
    if v.op == 'weak':
        return v
    if v.op == 'undef':
        return v
    if v.op == 'enum':
        return proj(proj(v, ('v', vi)), f)
    if v.op == 'struct':
        return proj(v, f)
    if v.op == 'ite':
        return merge(v.a[0], payload(v.a[1], vi, f), payload(v.a[2], vi, f))
    return special(sel('pay', v, vi, f, ty=field_ty(TY.get(v), f, vi)))


def discr(v):
    if v.op == 'weak':
        return v
    if v.op == 'undef':
        return weak('discr of undef')
    if v.op == 'ite':
        return merge(v.a[0], discr(v.a[1]), discr(v.a[2]))
    if v.op == 'enum':
        return v.a[0]
    if v.op == 'struct':
        return ZERO
    t = mk('discr', v)
    ty = strip(TY.get(v))
    if ty and ty[0] == 'adt' and nvariants(ty) == 2:
        t.ind = True
    return t


def nvariants(ty):
    d = ADT.get(ty[1])
    if d:
        return len(d['variants'])
    if ty[1] in ('core::option::Option', 'core::result::Result'):
        return 2
    return -1


def length(v):
    if v.op == 'weak':
        return v
    if v.op == 'arr':
        return v.a[0]
    if v.op == 'list':
        return INT(len(v.a))
    if v.op == 'fvec':
        return div(N, INT(2))
    if v.op == 'ite':
        return merge(v.a[0], length(v.a[1]), length(v.a[2]))
    if v.op == 'struct' and v.a[0] == 'Glwe' or is_glwe(v):
        return scale(N, 2)
    if v.op == 'struct':
        return weak('len of struct')
    if v.ps or v.op in ('ring', 'int'):
        return N
    if v.op == 'undef':
        return weak('len of undef')
    if v.op == 'app' and v.a[0] in LEN_OF:
        return LEN_OF[v.a[0]](v)
    return mk('len', v)


LEN_OF = {}


def coef(p, i):
    """coefficient i of a polynomial value"""
    if p.op == 'weak':
        return p
    if i.op == 'weak':
        return i
    if not is_ring(p):
        return weak('coef of %s' % p.op)
    out = []
    for m, c in poly(p).items():
        sc = tuple((a, e) for a, e in m if not a.ps)
        pl = tuple((a, e) for a, e in m if a.ps)
        if not pl:
            out.append(mul(from_mono(sc, c), EQ(i, ZERO)))
        elif len(pl) == 1 and pl[0][0].op == 'xpow' and pl[0][1] == 1:
            out.append(mul(from_mono(sc, c), EQ(i, pl[0][0].a[0])))
        elif len(pl) == 1 and pl[0][1] == 1 and pl[0][0].op == 'sum' and pl[0][0].a[0] is N:
            s = pl[0][0]
            bm = poly(s.a[1])
            bv = mk('bv', s.h)
            if len(bm) == 1:
                (mm, cc), = bm.items()
                pp = [(a, e) for a, e in mm if a.ps]
                if len(pp) == 1 and pp[0][0].op == 'xpow' and pp[0][0].a[0] is bv and pp[0][1] == 1:
                    r = from_mono(tuple((a, e) for a, e in mm if not a.ps), cc)
                    out.append(mul(from_mono(sc, c), subst(r, {bv: i})))
                    continue
            out.append(mul(from_mono(sc, c), mk('coef', s, i)))
        elif len(pl) == 1 and pl[0][1] == 1 and pl[0][0].op == 'pol':
            out.append(mul(from_mono(sc, c), proj(pl[0][0].a[0], ('i', i))))
        else:
            out.append(mul(from_mono(sc, c), mk('coef', from_mono(pl), i)))
    return add(*out)


def fc(p, i):
    """Fourier slot i of a polynomial: a ring homomorphism"""
    if p.op == 'weak':
        return p
    if i.op == 'weak':
        return i
    if not is_ring(p):
        return weak('fc of %s' % p.op)
    out = []
    for m, c in poly(p).items():
        r = INT(c)
        for a, e in m:
            if a.ps:
                if a.op == 'fslot':
                    x = EQ(a.a[0], i)
                else:
                    x = mk('fc', a, i)
                r = mul(r, *([x] * e))
            else:
                r = mul(r, from_mono(((a, e),)))
        out.append(r)
    return add(*out)


NEG1 = mk('int', -1)


def is_enum(v):
    if v.op in ('enum', 'ite'):
        return True
    ty = strip(TY.get(v))
    return bool(ty and ty[0] == 'adt' and (ty[1] in ('core::option::Option', 'core::result::Result')
                                           or ty[1] in ADT and ADT[ty[1]]['enum']))


def natural_pair(x, y):
    return all(natural(a) for p in (x, y) for m in poly(p) for a, e in m)


def variants(v):
    """variant number -> payload field names, for the variants with a payload"""
    if v.op == 'enum':
        return {vi: [n for n, _ in fs] for vi, fs in v.a[1]}
    if v.op == 'ite':
        d = variants(v.a[1])
        d.update(variants(v.a[2]))
        return d
    ty = strip(TY.get(v))
    if ty and ty[0] == 'adt':
        d = ADT.get(ty[1])
        if d and d['enum']:
            return {i: list(range(len(fs))) for i, (n, fs) in enumerate(d['variants']) if fs}
        if ty[1] == 'core::option::Option':
            return {1: [0]}
        if ty[1] == 'core::result::Result':
            return {0: [0], 1: [0]}
    return {}


def merge(c, a, b):
    """gated merge: c ? a : b"""
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a.op == 'undef':
        return b
    if b.op == 'undef':
        return a
    if a.op == 'weak':
        return a
    if b.op == 'weak':
        return b
    if c.op == 'weak':
        return c
    ra, rb = is_ring(a), is_ring(b)
    if a.op == 'struct' or b.op == 'struct':
        s, o = (a, b) if a.op == 'struct' else (b, a)
        if o.op == 'struct' and (o.a[0] != s.a[0] or [n for n, _ in o.a[1]] != [n for n, _ in s.a[1]]):
            return weak('merge of different structs')
        if o.op in ('struct', 'opq', 'fld', 'idx', 'pay', 'key', 'app', 'xp'):
            return mk_struct(s.a[0], tuple((n, merge(c, proj(a, n), proj(b, n))) for n, _ in s.a[1]))
        return weak('merge struct with %s' % o.op)
    if a.op == 'enum' or b.op == 'enum':
        d = merge(c, discr(a), discr(b))
        vs = {}
        s, o = (a, b) if a.op == 'enum' else (b, a)
        names = {}
        for x in (a, b):
            for vi, ns in variants(x).items():
                names.setdefault(vi, ns)
        out = []
        for vi in sorted(names):
            fs = []
            pa, pb = None, None
            ha = a.op != 'enum' or any(v == vi for v, _ in a.a[1])
            hb = b.op != 'enum' or any(v == vi for v, _ in b.a[1])
            for n in names[vi]:
                if ha and hb:
                    fs.append((n, merge(c, payload(a, vi, n), payload(b, vi, n))))
                elif ha:
                    fs.append((n, payload(a, vi, n)))
                else:
                    fs.append((n, payload(b, vi, n)))
            out.append((vi, tuple(fs)))
        return mk('enum', d, tuple(out))
    if a.op == b.op == 'fvec':
        return mk('fvec', merge(c, a.a[0], b.a[0]))
    if a.op in ('arr', 'list', 'fvec') or b.op in ('arr', 'list', 'fvec'):
        if a.op == 'list' and b.op == 'list' and len(a.a) == len(b.a):
            return mk('list', *[merge(c, x, y) for x, y in zip(a.a, b.a)])
        ln = merge(c, length(a), length(b))
        return mk_arr(ln, lambda x: merge(c, proj_any(a, x), proj_any(b, x)))
    if a.op in ('ref', 'iteref') or b.op in ('ref', 'iteref'):
        if a.op in ('ref', 'iteref') and b.op in ('ref', 'iteref'):
            return mk('iteref', c, a, b)
        if has_phi(a) or has_phi(b):
            return mk('ite', c, a, b)
        return weak('merge ref with %s' % b.op)
    if ra and rb:
        ta, tb = TY.get(a), TY.get(b)
        t = ta or tb
        if t and not (t[0] == 'prim' or t[0] == 'adt' and t[1] in POLY_TYPES or t[0] in ('param', 'other')):
            # two opaque structured values
            s = strip(t)
            if s[0] in ('adt', 'tuple') and nfields(s) > 0:
                n = nfields(s)
                names = ['mask', 'body'] if s[1] in NF_EXTRA and s[1].endswith('GlweCiphertext') else list(range(n))
                return mk_struct(struct_tag(s), tuple((k, merge(c, proj(a, k), proj(b, k))) for k in names))
            if elem_ty(s) is not None:
                return mk_arr(merge(c, length(a), length(b)), lambda x: merge(c, proj(a, ('i', x)), proj(b, ('i', x))))
            if s[0] == 'adt' and s[1] in ADT and ADT[s[1]]['enum']:
                if not any(fs for _, fs in ADT[s[1]]['variants']):
                    return mk('enum', merge(c, discr(a), discr(b)), ())
                return mk('ite', c, a, b)
            return mk('ite', c, a, b)
        d = sub(a, b)
        if c.op == 'ge0' and natural_pair(c.a[0], d):
            # the larger (smaller) of two integers, however the tie is broken
            e = sub(c.a[0], d)
            if e is ZERO or e is NEG1:
                return MAX(a, b)
            e = add(c.a[0], d)
            if e is ZERO or e is NEG1:
                return MIN(a, b)
        return add(b, mul(c, d))
    if a.op == b.op == 'unit':
        return a
    if has_phi(a) or has_phi(b) or all(is_enum(x) for x in (a, b)):
        return mk('ite', c, a, b)
    return weak('merge of %s and %s' % (a.op, b.op))


def has_phi(t):
    return any(x.op == 'opq' for x in t.fv)


def struct_tag(s):
    if s[0] == 'tuple':
        return 'tuple'
    if s[1].endswith('::GlweCiphertext'):
        return 'Glwe'
    return s[1]


def proj_any(v, x):
    return proj(v, ('i', x))


# ---------------------------------------------------------------- external products
# a ciphertext (mask, body) is an element of the free module spanned by opaque ciphertexts and by the
# trivial ones S=(1,0), T=(0,1); an RGSW ciphertext acts on it as a linear operator.
CT_S = mk('ctS')
CT_T = mk('ctT')


def xp_term(ops, base):
    if isinstance(ops, T):
        ops = (ops,)
    if base.op == 'xp':
        ops = tuple(ops) + tuple(base.a[0])
        base = base.a[1]
    for o in ops:
        if o.op == 'weak':
            return o
    if base.op == 'weak':
        return base
    ops = tuple(sorted([abbr(o) for o in ops], key=lambda t: t.id))
    t = mk('xp', ops, base)
    return t


# large operators are named by their closed (lambda-lifted) form; equal closed forms share one name
ABBR_MIN = 40
_abbr = {}          # closed form -> number
_abbr_def = []      # number -> (closed form, arity)
_abbr_memo = {}


def _hole(i):
    return mk('sv', 'p', -1 - i)


def abbr(t):
    if t.op == 'abbr' or t.sz < ABBR_MIN or t.wk or any(v.op == 'opq' for v in t.fv):
        return t
    r = _abbr_memo.get(t)
    if r is not None:
        return r
    vs = sorted(t.fv, key=lambda v: v.id)
    orders = itertools.permutations(vs) if len(vs) <= 3 else [vs]
    first = None
    for o in orders:
        c = subst(t, {v: _hole(i) for i, v in enumerate(o)}) if o else t
        if first is None:
            first = (c, o)
        if c in _abbr:
            first = (c, o)
            break
    c, o = first
    n = _abbr.get(c)
    if n is None:
        n = _abbr[c] = len(_abbr_def)
        _abbr_def.append((c, len(o)))
    r = _abbr_memo[t] = mk('abbr', n, *o)
    return r


def unabbr(t):
    c, n = _abbr_def[t.a[0]]
    return subst(c, {_hole(i): t.a[1 + i] for i in range(n)}) if n else c


_unabbr_memo = {}


def _twin(m):
    """monomial of a mask -> (monomial of the body it must be paired with, builder) or None"""
    for i, (a, e) in enumerate(m):
        if a.op == 'mask' and e == 1:
            b = mk('body', a.a[0])
            rest = m[:i] + m[i + 1:]
            mm, k = mono_mul(rest, ((b, 1),))
            return mm, ('ct', from_mono(rest), a.a[0])
        if a.op == 'sum' and e == 1 and a.ps:
            p = poly(a.a[1])
            if len(p) != 1:
                return None
            (im, ic), = p.items()
            v = fresh('t')
            im2 = list(poly(subst(a.a[1], {mk('bv', a.h): v})).items())
            if len(im2) != 1:
                return None
            tw = _twin(im2[0][0])
            if tw is None:
                continue
            bm, info = tw
            sb = close_sum(a.a[0], v, from_mono(bm, im2[0][1]))
            rest = m[:i] + m[i + 1:]
            pm = poly(mul(from_mono(rest), sb))
            if len(pm) != 1:
                return None
            (mm, kk), = pm.items()
            if kk != 1:
                return None
            return mm, ('sum', from_mono(rest), a.a[0], v, im2[0][1], info)
    return None


def ext(g, m, b):
    """apply operator g to the ciphertext (m, b): returns (mask, body)"""
    for x in (g, m, b):
        if x.op == 'weak':
            return x, x
    pm, pb = dict(poly(m)), dict(poly(b))
    om, ob = [], []

    def emit(info, c):
        if info[0] == 'ct':
            x = xp_term((g,), info[2])
            if x.op == 'weak':
                return x, x
            k = scale(info[1], c)
            return mul(k, proj(x, 'mask')), mul(k, proj(x, 'body'))
        _, rest, hi, v, ic, inner = info
        im, ib = emit(inner, ic)
        return (mul(scale(rest, c), close_sum(hi, v, im)), mul(scale(rest, c), close_sum(hi, v, ib)))
    for mo, c in list(pm.items()):
        tw = _twin(mo)
        if tw is not None and pb.get(tw[0]) == c:
            del pb[tw[0]]
            x, y = emit(tw[1], c)
        else:
            t = xp_term((g,), CT_S)
            k = from_mono(mo, c)
            x, y = mul(k, proj(t, 'mask')), mul(k, proj(t, 'body'))
        om.append(x)
        ob.append(y)
    for mo, c in pb.items():
        t = xp_term((g,), CT_T)
        k = from_mono(mo, c)
        om.append(mul(k, proj(t, 'mask')))
        ob.append(mul(k, proj(t, 'body')))
    return add(*om), add(*ob)


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if d == 0:
        return '…'
    op = t.op
    if op == 'int':
        return str(t.a[0])
    if op == 'ring':
        out = []
        for m, c in t.a[0]:
            s = '·'.join(show(a, d - 1) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%d·%s' % (c, s)
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if op == 'sv':
        return '%s%d' % (t.a[0], t.a[1])
    if op == 'bv':
        return 'b%d' % t.a[0]
    if op == 'opq':
        return key_str(t.a[0])
    if op == 'fld':
        return '%s.%s' % (show(t.a[0], d - 1), t.a[1])
    if op == 'idx' or op == 'key':
        return '%s[%s]' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if op == 'arr':
        return '[b%d<%s: %s]' % (t.h, show(t.a[0], d - 1), show(t.a[1], d - 1))
    if op == 'sum':
        return 'Σ{b%d<%s}(%s)' % (t.h, show(t.a[0], d - 1), show(t.a[1], d - 1))
    if op == 'abbr':
        return '«%d»(%s)' % (t.a[0], ', '.join(show(x, d - 1) for x in t.a[1:]))
    if op == 'ge0':
        return '[%s≥0]' % show(t.a[0], d - 1)
    if op == 'eq0':
        return '[%s=0]' % show(t.a[0], d - 1)
    if op == 'struct':
        return '%s{%s}' % (str(t.a[0]).split('::')[-1], ', '.join('%s:%s' % (n, show(v, d - 1)) for n, v in t.a[1]))
    if op == 'weak':
        return '⊤(%s)' % (t.a[0],)
    if op == 'xp':
        return '⟨%s⟩%s' % ('∘'.join(show(o, d - 1) for o in t.a[0]), show(t.a[1], d - 1))
    return '%s(%s)' % (op, ', '.join(_sh(x, d - 1) for x in t.a))


def _sh(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ','.join(_sh(y, d) for y in x) + ')'
    return str(x)


def key_str(k):
    if isinstance(k, tuple) and k and k[0] == 'arg':
        return k[1]
    if isinstance(k, tuple):
        return '·'.join(_sh(x, 3) if isinstance(x, (T, tuple)) else str(x) for x in k)
    return str(k)


FIELD_NAMES = {}


def _decide_term(self, t):
    if t.op == 'int':
        return t.a[0]
    if t.ind:
        return self.decide(t)
    s = simp(t, self)
    return s.a[0] if s.op == 'int' else None


Facts.decide_term = _decide_term


def _distinct(self, a, b, injective=lambda t: False, depth=3):
    """a != b under the facts"""
    if a is b or depth == 0:
        return False
    if not (is_ring(a) and is_ring(b)):
        return False
    if self.decide_term(eq0(sub(a, b))) == 0:
        return True
    # elements of a table of pairwise distinct values
    if a.op == 'idx' and b.op == 'idx' and a.a[0] is b.a[0] and injective(a.a[0]):
        return self.distinct(a.a[1], b.a[1], injective, depth - 1)
    # mixed radix: |a - b| >= H*(q-1) + 1 with q >= 1 and the rest above -H
    d = sub(a, b)
    for s in (d, neg(d)):
        for H in {x for m in poly(s) for x, e in m if e == 1 and len(m) > 1}:
            q, r = {}, {}
            for m, c in poly(s).items():
                if (H, 1) in m:
                    q[tuple(z for z in m if z[0] is not H)] = c
                else:
                    r[m] = c
            q, r = rmk(q), rmk(r)
            if self.nonneg(sub(q, ONE)) and self.nonneg(sub(add(r, H), ONE)):
                return True
            if q is ZERO and self.decide_term(eq0(r)) == 0:
                return True
    return False


Facts.distinct = _distinct
