"""Set-up of the database: what every location holds."""
import interp
import model
import terms as X
from terms import *
from check import *
from canon import Canon, canon
from obl_crypto import cf, codec_delta, nt
from obl_fresh import prep as fresh_prep
from obl_sys import HASH, CLI, hfield, hget, args
from props import obl


class Located(Canon):
    """normal forms for values addressed through a table of pairwise distinct entries: two entries are equal exactly
    when they are the same entry, and a position H*x+k with 0 <= k < H determines x and k"""

    def __init__(self, tab, H, key):
        super().__init__(True)
        self.tab, self.H, self.key = tab, H, key

    def entry(self, a, op):
        """x1, x2, divisor of the condition  table[x1] op d = table[x2] op d"""
        p = poly(a.a[0])
        if len(p) != 2:
            return None
        (m1, c1), (m2, c2) = p.items()
        if {c1, c2} != {1, -1} or len(m1) != 1 or len(m2) != 1:
            return None
        u, v = m1[0][0], m2[0][0]
        if not (u.op == v.op == op and u.a[1] is v.a[1]):
            return None
        u_, v_ = u.a[0], v.a[0]
        if not (u_.op == v_.op == 'idx' and u_.a[0] is v_.a[0] is self.tab):
            return None
        return frozenset((u_.a[1], v_.a[1])), u.a[1]

    def _go(self, t, f):
        if t.op == 'app' and t.a[0] == 'Zb':
            # every encryption of zero under the key counts as (z, 3z): what remains of b - 3a is the message
            if t.a[1] is not self.key:
                return t
            return scale(self.go(mk('app', 'Zm', *t.a[1:]), f), 3)
        return super()._go(t, f)

    def split(self, e, f):
        """e = 0 for e = H*q + r with |r| < H"""
        q, r = {}, {}
        for m, c in poly(e).items():
            if (self.H, 1) in m:
                q[tuple(z for z in m if z[0] is not self.H)] = c
            else:
                r[m] = c
        q, r = X.rmk(q), X.rmk(r)
        if q is not ZERO and f.nonneg(sub(add(r, self.H), ONE)) and f.nonneg(sub(sub(self.H, r), ONE)):
            return mul(simp(eq0(q), f), simp(eq0(r), f))
        return simp(eq0(e), f)

    def ring(self, t, f):
        t = super().ring(t, f)
        if not is_ring(t) or t.op != 'ring':
            return t
        out, hit = [], False
        for m, c in t.a[0]:
            dv = {self.entry(a, 'div'): a for a, e in m if a.op == 'eq0' and self.entry(a, 'div')}
            rm = {self.entry(a, 'rem'): a for a, e in m if a.op == 'eq0' and self.entry(a, 'rem')}
            both = [k for k in dv if k in rm]
            if not both:
                out.append(from_mono(m, c))
                continue
            hit = True
            k = both[0]
            x = list(k[0])
            fm = f
            for a, e in m:
                if a.ind and a not in (dv[k], rm[k]):
                    fm = fm.plus_cond(a)
            w = self.split(sub(x[0], x[-1]), fm)
            r = mul(INT(c), w)
            for a, e in m:
                if a not in (dv[k], rm[k]):
                    r = mul(r, from_mono(((a, e),)))
            out.append(r)
        return self.go(add(*out), f) if hit else t


def located(t, tab, H, key, facts):
    c = Located(tab, H, key)
    for _ in range(6):
        n = c.go(t, facts)
        if n is t:
            break
        t = n
    return t


def dummy(C):
    def p(E, st, b, a):
        fresh_prep(E, st, b, a)
        k = C.field(HASH, 'tables')
        E.injective = lambda t: t.op == 'fld' and t.a[1] == k and t.a[0] is E.val(st, a[1])
        return a
    return C.run(CLI + '::gen_dummy_database', p, 'distinct')


@obl('C10', 'the generated database has the requested shape and one plaintext per item')
def shape(C):
    r = dummy(C)
    s, h = args(r, 2)
    R, D, H = C.fld(s, CLI, 'rows'), C.fld(s, CLI, 'cols'), hfield(C, h, 'h_count')
    C.expect(r, 'number of plaintexts', length(proj(r.ret, 0)), div(mul(R, D), H))
    db = proj(r.ret, 1)
    C.expect(r, 'number of rows', length(db), R)
    i, f = var('i', R)
    C.expect(r, 'number of columns', length(proj(db, ('i', i))), D, facts=f)


@obl('C10', 'every location of item i holds an encryption of the i-th plaintext')
def stored(C):
    r = dummy(C)
    s, h = args(r, 2)
    R, D, H = C.fld(s, CLI, 'rows'), C.fld(s, CLI, 'cols'), hfield(C, h, 'h_count')
    sk, ctx = C.fld(s, CLI, 'sk'), C.fld(s, CLI, 'ctx')
    tab = hfield(C, h, 'tables')
    I = div(mul(R, D), H)
    pts, db = proj(r.ret, 0), proj(r.ret, 1)
    mins = sorted({a for a in atoms(canon(r.ret)) if a.op == 'app' and a.a[0] == 'min' and I in a.a[1:]}, key=lambda a: a.id)
    n = hfield(C, h, 'input_domain')
    i, fi = var('i', n)
    # the shape is the one set-up asserts: rows*cols = h*n
    dom = {I: n}
    fixed = {tab: interp.permutation(mul(H, n)), R: interp.same_as(H), D: interp.same_as(n)}

    def rep(t, mp):
        return X.replace(X.replace(t, mp), dom)

    for few in (True, False):
        for k in ('first', 'other'):
            mp, f = {}, fi.plus_ge(sub(H, ONE))
            for m in mins:
                lim = [x for x in m.a[1:] if x is not I][0]
                mp[m] = I if few else lim
                f = f.plus_ge(sub(lim, n) if few else sub(n, lim))
            parts = [('', f)]
            if not few and mins:
                parts = [(' before the limit', f.plus_ge(sub(sub(lim, i), ONE))), (' from the limit on', f.plus_ge(sub(i, lim)))]
            for nm, fp in parts:
                if k == 'first':
                    hh = ZERO
                else:
                    hh, fh = var('h', H)
                    fp = fp.plus_ge(sub(hh, ONE), *fh.ge)
                leaf = '%s location of item i%s%s' % (k, ', few items' if few else ', many items', nm)
                at = proj(tab, ('i', add(mul(H, i), hh)))
                ct = proj(proj(db, ('i', div(at, D))), ('i', X.rem(at, D)))
                k3, pt = (located(rep(v, mp), tab, H, nt(sk), fp) for v in (sub(body(ct), scale(mask(ct), 3)), proj(pts, ('i', i))))
                fx = dict(fixed)
                if not few and lim.op == 'int' and 1 < lim.a[0] <= 256:
                    L = lim.a[0]
                    fx[n] = lambda I, L=L: L + 1 + I.h('items') % (L + L // 3)
                    fx[i] = lambda I, L=L, late='from' in nm: (L + I.h('item') % (1 + I.h('items') % (L + L // 3))) if late else I.h('item') % L
                C.expect(r, leaf, k3, mul(pt, codec_delta(C, cf(C, ctx, 'codec'))), facts=fp, fixed=fx)


def mask(c):
    return proj(proj(c, 0), 'mask')


def body(c):
    return proj(proj(c, 0), 'body')


@obl('C10', 'the set-up uses one key, the generated database and a matching hash domain')
def setup(C):
    from obl_crypto import enc_rgsw
    from obl_sys import server, ctx_params, SRV

    def p(E, st, b, a):
        def f(E, st, x, fn):
            c, h = E.val(st, x[0]), E.val(st, x[1])
            v = [nt(C.fld(c, CLI, 'sk')), C.fld(c, CLI, 'rows'), C.fld(c, CLI, 'cols'), h]
            ty = E.bodies[CLI + '::gen_dummy_database'].tys[0][1]
            return mk_struct('tuple', tuple((i, model.typed_app('dummy%d' % i, ty[i], *v)) for i in (0, 1)))
        E.specs[CLI + '::gen_dummy_database'] = f
        return a
    r = C.run('oram::setup_random_oram', p, 'setup')
    rows, cols, h, par = args(r, 4)
    c, srv, pts = (proj(r.ret, i) for i in range(3))
    sk, ctx = C.fld(c, CLI, 'sk'), C.fld(c, CLI, 'ctx')
    C.expect(r, 'rows of the client', C.fld(c, CLI, 'rows'), rows)
    C.expect(r, 'columns of the client', C.fld(c, CLI, 'cols'), cols)
    v = [nt(sk), rows, cols, h]
    C.expect(r, 'plaintexts', pts, app('dummy0', *v))
    C.expect(r, 'rows of the server', proj(srv, C.ftype(SRV, lambda t: 'RwLock' in t)), app('dummy1', *v))
    C.expect(r, 'negated key of the server', proj(srv, C.ftype(SRV, lambda t: 'RGSWCiphertext' in t)),
             enc_rgsw(C, sk, ctx, neg(nt(sk)), proj(cf(C, ctx, 'negs_base_log'), 0), proj(cf(C, ctx, 'negs_level_count'), 0)))
    g = [x for stk, x, lp in r.E.guards if not lp and not x.fv and rows in atoms(x) | X.atoms(x)]
    C.expect(r, 'accepted shapes', mul(*g) if g else ONE, EQ(mul(rows, cols), mul(hfield(C, h, 'input_domain'), hfield(C, h, 'h_count'))))
