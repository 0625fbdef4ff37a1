"""Final normalisation of values before comparison: every subterm is simplified under the facts of the
binders around it (an index bound by a comprehension or a sum lies below the length of that binder)."""
import terms as X
from terms import (T, mk, INT, ZERO, ONE, add, sub, mul, proj, merge, subst, Facts, simp, is_ring, poly, from_mono,
                   close_arr, close_sum, enum_eta, fresh, rebuild, eq0, neg, rmk, NOT)

LIM = 4000


def offsets(t, v):
    """how far the uses of v are shifted by constants"""
    seen, n, st = set(), 0, [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'abbr':
                st.append(X.unabbr(x))
            if v not in x.fv:
                continue
            if x.op == 'ring':
                p = poly(x)
                if ((v, 1),) in p:
                    n += abs(p.get((), 0))
            st.extend(x.a)
    return n


def nonneg(t):
    return t.op == 'len'


def gates(t):
    """conditions that occur as factors of a sum"""
    out = []
    for m, _ in poly(t).items():
        for a, e in m:
            if a.ind and a not in out:
                out.append(a)
    return sorted(out, key=lambda a: a.id)


def shannon(t, cs):
    """condition over a gated value: case distinction on the gates"""
    if not cs:
        return t
    c = cs[0]
    x, y = (shannon(rebuild(t.op, [X.replace(t.a[0], {c: v})], t), cs[1:]) for v in (ONE, ZERO))
    return add(mul(c, x), mul(NOT(c), y))


class Canon:
    def __init__(self, deep=False):
        self.memo = {}
        self.deep = deep

    def go(self, t, f):
        if t.op in ('int', 'weak', 'undef', 'unit', 'sv', 'bv', 'str', 'fn'):
            return t
        key = (t, f.ge)
        r = self.memo.get(key)
        if r is None:
            r = self._go(t, f)
            self.memo[key] = r
        return r

    def anyx(self, x, f):
        if isinstance(x, T):
            return self.go(x, f)
        if isinstance(x, tuple):
            return tuple(self.anyx(y, f) for y in x)
        return x

    def _go(self, t, f):
        op = t.op
        if op == 'abbr':
            return X.abbr(self.go(X.unabbr(t), f)) if self.deep else t
        if op == 'ring':
            return self.ring(t, f)
        if op in X.BINDERS:
            v = fresh('x')
            ln = self.go(t.a[0], f)
            body = subst(t.a[1], {mk('bv', t.h): v})
            f2 = f.plus_ge(v, sub(sub(ln, v), ONE)) if is_ring(ln) else f
            body = self.go(body, f2)
            if op != 'sum':
                return X.close(op, ln, v, body)
            if self.deep and is_ring(ln):
                r = self.unpeel(ln, v, body, f)
                if r is not None:
                    return r
            return close_sum(ln, v, body, f)
        if op in ('struct', 'list', 'enum'):
            if op == 'enum':
                return enum_eta(self.go(t.a[0], f), self.anyx(t.a[1], f))
            a = [self.anyx(x, f) for x in t.a]
            return rebuild(op, a, t)
        if op == 'opq':
            return t
        a = [self.anyx(x, f) for x in t.a]
        r = rebuild(op, a, t) if any(x is not y for x, y in zip(a, t.a)) else t
        if self.deep and r.op == 'app' and r.a[0] in ('max', 'min') and len(r.a) == 3:
            x, y = r.a[1], r.a[2]
            if X._lead(sub(x, y)) < 0:
                x, y = y, x
            d = sub(x, y)
            c = X.ge0(d)
            return self.go(add(y, mul(c, d)) if r.a[0] == 'max' else sub(x, mul(c, d)), f)
        if self.deep and r.op in ('ge0', 'eq0'):
            c = gates(r.a[0])
            if 0 < len(c) <= 4:
                return self.go(shannon(r, c), f)
        if r.op == 'div' and r.a[1].op == 'int' and is_ring(r.a[0]):
            # (q - c) / n = q / n when q mod n >= c
            c = -poly(r.a[0]).get((), 0)
            if 0 < c < r.a[1].a[0]:
                q = add(r.a[0], INT(c))
                if f.nonneg(sub(X.rem(q, r.a[1]), INT(c))):
                    return X.div(q, r.a[1])
        if r.op == 'eq0' and nonneg(r.a[0]):
            return simp(X.ge0(neg(r.a[0])), f)
        if r.op == op and is_ring(r):
            return simp(r, f)
        return r if r.op in ('ring', 'int') or r is t else r

    def unpeel(self, ln, v, body, f):
        """sum_{v<n-c} f(v+c)  =  sum_{v<n} f(v) - f(0) - .. - f(c-1)   (lengths are not negative)"""
        c = -poly(ln).get((), 0)
        if not 1 <= c <= 4 or ln.op == 'int':
            return None
        w = fresh('x')
        sh = self.go(subst(body, {v: sub(w, INT(c))}), f)
        if sh.wk or offsets(sh, w) >= offsets(body, v):
            return None
        return sub(close_sum(add(ln, INT(c)), w, sh, f), add(*[subst(sh, {w: INT(i)}) for i in range(c)]))

    def ring(self, t, f):
        out = []
        for m, c in t.a[0]:
            # decide the conditions first, then simplify the rest where they hold
            fm = f
            conds = [(a, e) for a, e in m if a.ind]
            rest = [(a, e) for a, e in m if not a.ind]
            if self.deep:
                # a * [a >= 1] = a for natural numbers
                conds = [(x, e) for x, e in conds if not (x.op == 'ge0' and any(X.natural(a) and x.a[0] is sub(a, ONE) for a, _ in rest))]
            r = INT(c)
            dead = False
            for a, e in sorted(conds, key=lambda x: x[0].id):
                a2 = simp(self.go(a, f), fm)
                if a2 is ZERO:
                    dead = True
                    break
                r = mul(r, a2)
                if a2.ind:
                    fm = fm.plus_cond(a2)
            if dead:
                continue
            for a, e in rest:
                x = self.go(a, fm) if t.sz < LIM else a
                if e > 0:
                    r = mul(r, *([x] * e))
                else:
                    r = mul(r, from_mono(((x, e),)))
            out.append(r)
        return simp(add(*out), f) if out else ZERO


def canon(t, facts=None, deep=False):
    c = Canon(deep)
    for _ in range(3):
        n = c.go(t, facts or Facts())
        if n is t:
            break
        t = n
    return t
