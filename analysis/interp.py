"""Random interpretation of value terms (Gulwani & Necula): opaque values, operators and uninterpreted
functions get random meanings in small domains; two terms that differ under an admissible interpretation
denote different values.  Used to confirm a difference of normal forms before it is reported."""
import hashlib
import math
import random
import time
import terms as X
from terms import T, poly, is_ring

M = (1 << 64)
H = 1 << 63


class Skip(Exception):
    """the term cannot be interpreted"""


class Reject(Exception):
    """the interpretation violates an assumption"""


def sg(n):
    return ((n + H) % M) - H


class P:
    """polynomial mod X^N+1"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(c)

    def __eq__(self, o):
        return isinstance(o, P) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return 'P%s' % (self.c,)


class Fl:
    """floating point number, compared up to rounding errors"""
    __slots__ = ('v', 'r')

    def __init__(self, v):
        v = float(v)
        if math.isnan(v):
            raise Reject()
        self.v = v
        self.r = float('%.8g' % v) + 0.0 if abs(v) > 1e-12 else 0.0

    def __eq__(self, o):
        return isinstance(o, Fl) and (self.r == o.r or abs(self.v - o.v) <= min(1e-7 * max(abs(self.v), abs(o.v)), 1))

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        return 'Fl%r' % (self.r,)


class Sym:
    __slots__ = ('k', 't')

    def __init__(self, k, t=None):
        self.k = k
        self.t = t          # the term (for its type)

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Sym%r' % (self.k,)


OPENED = {}


class Interp:
    def __init__(self, seed, N=4, fixed=None):
        self.seed = seed
        self.N = N
        self.memo = {}
        self.open = OPENED
        self.fixed = fixed or {}
        self.consts = ()
        self.hk = {}
        self.pk = {}
        self.exps = set()
        self.force = {}
        self.steps = 0
        self.salt = 0
        self.oob = False

    # ---- random meanings
    def h(self, *k):
        d = hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=16).digest()
        return int.from_bytes(d, 'little')

    def small(self, key, lo=0, hi=4):
        return lo + self.h('small', key) % (hi - lo + 1)

    def conc_scalar(self, s, t):
        """meaning of a symbolic scalar"""
        ty = X.TY.get(t) if t is not None else None
        k = s.k
        if k in self.force:
            return self.force[k]
        if k in self.exps:
            return self.small(k, 1, 6)
        if k in self.hk and self.h('hint', k) % 2:
            c = self.hk[k]
            return c[self.h('hintc', k) % len(c)]
        if t is not None and t.ind:
            return self.h('ind', k) & 1
        if ty == ('prim', 'bool'):
            return self.h('ind', k) & 1
        if ty is not None and ty[0] == 'prim' and ty[1] == 'usize' or k[0] == 'len':
            if self.consts and self.seed % 3 == 2 and self.h('mode', k) % 4 == 0:
                c = self.consts[self.h('const', k) % len(self.consts)]
                if 0 <= c < M // 2:
                    return c
            return self.small(k, 0 if self.seed % 3 else 1, 4 if self.seed % 2 else 3)
        if ty is not None and ty[0] == 'prim' and ty[1] in ('u64', 'i64', 'ring'):
            if self.seed % 8 == 7:
                return self.small(k, 0, 2)      # few values: some are equal
            m = self.h('mode', k) % 6
            if m == 0:
                return self.small(k, 0, 3)
            if m < 3 and self.consts:
                return self.consts[self.h('const', k) % len(self.consts)]
            return sg(self.h('u64', k))
        if self.h('mode', k) % 2:
            return self.small(k, 0, 5)
        return self.small(k, 1, 4)

    def scalar(self, v, t=None):
        if isinstance(v, int):
            return v
        if isinstance(v, Sym):
            return self.conc_scalar(v, v.t if v.t is not None else t)
        raise Skip('scalar of %r' % (type(v),))

    def flt(self, v):
        """meaning of a value of type f64"""
        if isinstance(v, Fl):
            return v.v
        if isinstance(v, Sym):
            return (self.h('flt', v.k) % 4096 - 1024) / 16.0
        if v == 0 and isinstance(v, int):
            return 0.0
        raise Skip('number of %r' % (type(v),))

    def poly(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, int):
            return P((v,) + (0,) * (self.N - 1))
        if isinstance(v, Sym):
            if v.k in self.pk:
                c = self.pk[v.k]
                return P(c[self.h('pc', v.k, i) % len(c)] for i in range(self.N))
            if self.consts and self.h('pmode', v.k) % 3 == 0:
                return P(self.consts[self.h('pc', v.k, i) % len(self.consts)] for i in range(self.N))
            return P(sg(self.h('poly', v.k, i)) for i in range(self.N))
        raise Skip('poly of %r' % (type(v),))

    def pmul(self, a, b):
        n = self.N
        r = [0] * n
        for i, x in enumerate(a.c):
            if x:
                for j, y in enumerate(b.c):
                    if y:
                        k = i + j
                        if k >= n:
                            r[k - n] -= x * y
                        else:
                            r[k] += x * y
        return P(sg(x) for x in r)

    def xpow(self, e):
        e %= 2 * self.N
        r = [0] * self.N
        if e >= self.N:
            r[e - self.N] = -1
        else:
            r[e] = 1
        return P(r)

    # ---- evaluation
    def ev(self, t, env=()):
        if t.op == 'int':
            return t.a[0]
        if t in env:
            return env[t]
        key = None
        if not t.fv or not env:
            key = t
        else:
            key = (t, tuple((v.id, env[v] if not isinstance(env[v], list) else None) for v in env if v in t.fv))
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 200000:
                raise Skip('size')
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def pick(self, t, env):
        """gated merge of values that need not be numbers: the value selected, if the gates select exactly one"""
        sel = {}
        some = False
        for m, c in t.a[0]:
            d = [a for a, e in m if not a.ind]
            if len(d) > 1 or not d or d[0].ps or dict(m)[d[0]] != 1:
                return None
            ty = X.TY.get(d[0])
            if ty is not None and ty[0] == 'prim':
                return None
            some = some or len(m) > 1
            sel.setdefault(d[0], []).append((m, c))
        if not some or len(sel) < 2:
            return None
        hit = None
        for a, l in sel.items():
            k = 0
            for m, c in l:
                for b, e in m:
                    if b is not a:
                        c = c * self.scalar(self.ev(b, env), b)
                        if c == 0:
                            break
                k += c
            if k:
                if k != 1 or hit is not None:
                    return None
                hit = a
        return None if hit is None else self.ev(hit, env)

    def mono(self, m, c, env):
        s = c
        p = fl = None
        # indicators first
        rest = []
        for a, e in m:
            if a.ind:
                v = self.scalar(self.ev(a, env), a)
                if v == 0:
                    return 0
                s = sg(s * v ** e)
            else:
                rest.append((a, e))
        for a, e in rest:
            v = self.ev(a, env)
            if isinstance(v, Fl) or isfl(a):
                v = self.flt(v)
                fl = v ** e if fl is None else fl * v ** e
            elif isinstance(v, P) or a.ps:
                v = self.poly(v)
                if e < 0:
                    raise Skip('negative power')
                for _ in range(e):
                    p = v if p is None else self.pmul(p, v)
            else:
                v = self.scalar(v, a)
                if e < 0 and not v % 2:
                    raise Skip('negative power')
                s = sg(s * pow(v, e, M))
        if fl is not None:
            if p is not None:
                raise Skip('number')
            return Fl(s * fl)
        if p is None:
            return s
        return P(sg(s * x) for x in p.c)

    def plus(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return sg(a + b)
        if isinstance(a, Fl) or isinstance(b, Fl):
            return Fl(sum(x if isinstance(x, int) else self.flt(x) for x in (a, b)))
        a, b = self.poly(a), self.poly(b)
        return P(sg(x + y) for x, y in zip(a.c, b.c))

    def exponents(self, ts):
        for t in ts:
            v = self.ev(t)
            if isinstance(v, Sym):
                self.exps.add(v.k)
        if self.exps:
            self.memo.clear()

    def hint(self, hints):
        """terms compared with a constant take that constant in half of the interpretations"""
        if self.seed % 4 < 2:
            return
        for t in sorted(hints, key=lambda t: t.h):
            if t.op == 'coef' and not t.a[0].fv and not t.wk:
                v = self.ev(t.a[0])
                if isinstance(v, Sym):
                    # every coefficient is compared with the constant
                    self.pk[v.k] = sorted(set(self.pk.get(v.k, [])) | hints[t])
                    self.memo.clear()
                    continue
            if not t.fv and not t.wk:
                v = self.ev(t)
                if isinstance(v, Sym):
                    self.hk[v.k] = sorted(set(self.hk.get(v.k, [])) | hints[t])
                    self.memo.clear()

    def anyv(self, x, env):
        if isinstance(x, T):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.anyv(y, env) for y in x)
        return repr(x)

    def _ev(self, t, env):
        op = t.op
        if t is X.N:
            return self.N
        if t in self.fixed:
            return self.fixed[t](self)
        if op == 'weak':
            raise Skip('unknown value')
        if op == 'ring':
            g = self.pick(t, env)
            if g is not None:
                return g
            r = 0
            for m, c in t.a[0]:
                r = self.plus(r, self.mono(m, c, env))
            return r
        if op == 'sum':
            n = self.scalar(self.ev(t.a[0], env), t.a[0])
            if n > 400:
                raise Reject()
            r = 0
            v = X.mk('bv', t.h)
            for i in range(max(n, 0)):
                e2 = dict(env) if env else {}
                e2[v] = i
                x = self.ev(t.a[1], e2)
                if isinstance(x, Sym):
                    x = self.poly(x) if t.a[1].ps else self.scalar(x, t.a[1])
                r = self.plus(r, x)
            return r
        if op == 'arr':
            n = self.scalar(self.ev(t.a[0], env), t.a[0])
            if n > 400:
                raise Reject()
            v = X.mk('bv', t.h)
            out = []
            for i in range(max(n, 0)):
                e2 = dict(env) if env else {}
                e2[v] = i
                out.append(self.ev(t.a[1], e2))
            return ('A',) + tuple(self.ground(x, t.a[1]) for x in out)
        if op == 'list':
            return ('A',) + tuple(self.ground(self.ev(x, env), x) for x in t.a)
        if op == 'struct':
            fs = [(n, self.ev(x, env), x) for n, x in t.a[1]]
            for n, y, x in fs:
                b = self.base_of(y, 'fld', n)
                if b is not None and self.same(('S', '') + tuple((n, y) for n, y, _ in fs), b):
                    return b
            return ('S', str(t.a[0])) + tuple((n, self.ground(y, x)) for n, y, x in fs)
        if op == 'tau':
            return 2 * (self.h('tau') % 1000) + 1
        if op == 'fvec':
            return ('S', 'fvec', (0, self.poly(self.ev(t.a[0], env))))
        if op == 'enum':
            d = self.scalar(self.ev(t.a[0], env), t.a[0])
            vs = dict(t.a[1])
            fs = [(n, self.ev(x, env), x) for n, x in vs.get(d, ())]
            for n, y, x in fs:
                b = self.base_of(y, 'pay', n, d)
                if b is not None and self.same(('E', d) + tuple((n, y) for n, y, _ in fs), b):
                    return b
            return ('E', d) + tuple((n, self.ground(y, x)) for n, y, x in fs)
        if op == 'ite':
            c = self.scalar(self.ev(t.a[0], env), t.a[0])
            return self.ev(t.a[1] if c else t.a[2], env)
        if op == 'ge0':
            d = self.scalar(self.ev(t.a[0], env), t.a[0])
            return 1 if d >= 0 else 0
        if op == 'eq0':
            d = self.ev(t.a[0], env)
            if isinstance(d, P):
                return 1 if not any(d.c) else 0
            return 1 if self.scalar(d, t.a[0]) == 0 else 0
        if op == 'div' or op == 'rem':
            a = self.scalar(self.ev(t.a[0], env), t.a[0])
            b = self.scalar(self.ev(t.a[1], env), t.a[1])
            if b == 0:
                raise Reject()
            if a < 0 or b < 0:
                a, b = a % M, b % M
            return sg(a // b if op == 'div' else a % b)
        if op == 'pow2':
            e = self.scalar(self.ev(t.a[0], env), t.a[0])
            if e < 0:
                raise Reject()
            return sg(1 << min(e, 64))
        if op == 'xpow':
            return self.xpow(self.scalar(self.ev(t.a[0], env), t.a[0]))
        if op == 'coef':
            p = self.poly(self.ev(t.a[0], env))
            i = self.scalar(self.ev(t.a[1], env), t.a[1])
            if 0 <= i < self.N:
                return p.c[i]
            return sg(self.h('coef', p.c, i))
        if op in ('mask', 'body'):
            b = t.a[0]
            if b.op == 'xp':
                g = self.oper(b.a[0], env)
                x = b.a[1]
                if x.op == 'ctS':
                    return self.poly(g) if op == 'mask' else 0
                if x.op == 'ctT':
                    return self.poly(g) if op == 'body' else 0
                v = self.ev(x, env)
                return self.pmul(self.poly(g), self.comp(v, op))
            v = self.ev(b, env)
            return self.comp(v, op)
        if op == 'xp':
            g = self.oper(t.a[0], env)
            return ('S', 'Glwe', ('mask', self.ev(X.proj(t, 'mask'), env)), ('body', self.ev(X.proj(t, 'body'), env)))
        if op == 'pol':
            v = self.ev(t.a[0], env)
            return self.poly(v) if isinstance(v, (Sym, P)) else self.poly(Sym(('pol', v)))
        if op == 'fc' or op == 'fslot':
            raise Skip('fourier')
        if op == 'abbr':
            return self.ev(self.opened(t, env), ())
        if op == 'app':
            return self.app(t, env)
        if op == 'opq':
            return Sym(('o', X.key_str(t.a[0]) if isinstance(t.a[0], tuple) else str(t.a[0])), t)
        if op == 'len':
            v = self.ev(t.a[0], env)
            if isinstance(v, tuple) and v[0] == 'A':
                return len(v) - 1
            return Sym(('len', self.kof(v)), t)
        if op == 'fld':
            v = self.ev(t.a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'S':
                return dict(v[2:])[t.a[1]]
            if isinstance(v, tuple) and v and v[0] == 'A' and isinstance(t.a[1], tuple):
                return v[1 + t.a[1][1]]
            return Sym(('fld', self.kof(v), t.a[1]), t)
        if op == 'idx':
            v = self.ev(t.a[0], env)
            i = self.scalar(self.ev(t.a[1], env), t.a[1])
            if isinstance(v, tuple) and v and v[0] == 'A':
                if not 0 <= i < len(v) - 1:
                    # arbitrary: the result must not depend on it
                    self.oob = True
                    return Sym(('oob', self.salt, i), t)
                return v[1 + i]
            return Sym(('idx', self.kof(v), i), t)
        if op in ('pay', 'discr') and t.a[0].op not in ('opq', 'fld'):
            v = self.ev(t.a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'E':
                if op == 'discr':
                    return v[1]
                if v[1] == t.a[1] and t.a[2] in dict(v[2:]):
                    return dict(v[2:])[t.a[2]]
        if op in ('pay', 'discr', 'key', 'vnt', 'mapst', 'isrc'):
            a = tuple(self.kof(self.anyv(x, env)) for x in t.a)
            s = Sym((op,) + a, t)
            return s
        if op == 'flt':
            return Fl(float(t.a[0]))
        if op in ('unit', 'undef', 'str', 'fn', 'cst', 'bytes', 'ctS', 'ctT', 'inf'):
            return ('K', op, repr(t.a))
        if op in ('sv', 'bv'):
            raise Skip('free variable')
        raise Skip(op)

    def base_of(self, y, op, n, d=None):
        """the value of which y is component n"""
        if isinstance(y, Sym) and y.t is not None and y.t.op == op and y.k[0] == op and y.t.a[-1] == n and (d is None or y.t.a[1] == d):
            return Sym(y.k[1], y.t.a[0])

    def same(self, v, s):
        """v is the symbolic value s, taken apart and put together again"""
        if isinstance(v, Sym):
            return v.k == s.k
        if isinstance(v, int):
            return v == self.scalar(s)
        if isinstance(v, P):
            return v == self.poly(s)
        if s.t is None or not isinstance(v, tuple) or not v:
            return False
        if v[0] == 'S':
            return all(self.same(y, Sym(('fld', s.k, n), X.proj(s.t, n))) for n, y in v[2:])
        if v[0] == 'E':
            return (v[1] == self.scalar(Sym(('discr', s.k), X.discr(s.t)))
                    and all(self.same(y, Sym(('pay', s.k, repr(v[1]), repr(n)), X.payload(s.t, v[1], n))) for n, y in v[2:]))
        return False

    def ground(self, v, t):
        """components of compared structures are concrete"""
        if isinstance(v, Sym) and isfl(t):
            return Fl(self.flt(v))
        if isinstance(v, Sym) and is_ring(t):
            if t.ps:
                return self.poly(v)
            ty = X.TY.get(t)
            if t.op == 'ring' and v.t is not None and not v.t.ind and (X.TY.get(v.t) or ('',))[0] != 'prim':
                return v
            if t.op in ('ring', 'sum') or t.ind or (ty is not None and ty[0] == 'prim'):
                return self.scalar(v, t)
        if isinstance(v, int) and t.ps:
            return self.poly(v)
        return v

    def kof(self, v):
        if isinstance(v, Sym):
            return v.k
        return v

    def comp(self, v, which):
        if isinstance(v, tuple) and v and v[0] == 'S':
            return self.poly(dict(v[2:])[which])
        return self.poly(Sym((which, self.kof(v))))

    def oper(self, ops, env):
        g = None
        for o in ops:
            oe = env
            if o.op == 'abbr':
                o, oe = self.opened(o, env), ()
            if o.op == 'app' and o.a[0] == 'dmx':
                x = self.dmx(o, oe)
            else:
                x = self.poly(Sym(('op', self.kof(self.ev(o, oe)))))
            g = x if g is None else self.pmul(g, x)
        return g

    def opened(self, t, env):
        """the term an abbreviation stands for, its arguments replaced by their values (no variable can be captured)"""
        args = []
        for a in t.a[1:]:
            v = self.ev(a, env)
            if isinstance(v, Sym) and is_ring(a):
                v = self.scalar(v, a)
            if not isinstance(v, int):
                raise Skip('argument of an abbreviation')
            args.append(X.INT(v))
        k = (t.a[0],) + tuple(args)
        r = self.open.get(k)
        if r is None:
            c, n = X._abbr_def[t.a[0]]
            r = self.open[k] = X.subst(c, {X._hole(i): args[i] for i in range(n)}) if n else c
        return r

    def dmx(self, o, env):
        _, bits, lv, j = o.a
        lv = self.scalar(self.ev(lv, env), lv)
        j = self.scalar(self.ev(j, env), j)
        ln = self.scalar(self.ev(X.length(bits), env), X.length(bits))
        if not 0 <= lv <= ln or not 0 <= j < (1 << (ln - lv)):
            raise Reject()
        g = self.poly(1)
        for i in range(lv, ln):
            op = X.proj(X.proj(bits, ('i', X.INT(i))), 0)
            x = self.poly(Sym(('op', self.kof(self.ev(op, env)))))
            if (j >> (ln - 1 - i)) & 1:
                one = self.poly(1)
                x = P(sg(p - q) for p, q in zip(one.c, x.c))
            g = self.pmul(g, x)
        return g

    def fold(self, t, env):
        """iterates of a loop body"""
        _, j, k, inits, lam = t.a
        k = self.scalar(self.ev(k, env), k)
        if not 0 <= k <= 400:
            raise Reject()
        st0 = tuple(self.ground(self.ev(x, env), x) for x in inits.a)
        inner = lam.a[1]
        key = ('fold', lam, st0, tuple((v.id, env[v]) for v in env if v in lam.fv) if lam.fv else ())
        try:
            seq = self.memo.setdefault(key, [st0])
        except TypeError:
            raise Skip('state')
        bk, bs = X.mk('bv', lam.h), X.mk('bv', inner.h)
        while len(seq) <= k:
            e2 = dict(env) if env else {}
            e2[bk] = len(seq) - 1
            e2[bs] = ('A',) + seq[-1]
            seq.append(tuple(self.ground(self.ev(x, e2), x) for x in inner.a[1].a))
        return seq[k][j.a[0]]

    def first(self, t, env):
        n = self.scalar(self.ev(t.a[1], env), t.a[1])
        if n > 400:
            raise Reject()
        v = X.mk('bv', t.a[2].h)
        for i in range(max(n, 0)):
            e2 = dict(env) if env else {}
            e2[v] = i
            if self.scalar(self.ev(t.a[2].a[1], e2), t.a[2].a[1]):
                return i
        return max(n, 0)

    def app(self, t, env):
        f = t.a[0]
        if f == 'fold':
            return self.fold(t, env)
        if f == 'first':
            return self.first(t, env)
        a = [self.ev(x, env) if isinstance(x, T) else repr(x) for x in t.a[1:]]

        def s(i):
            return self.scalar(a[i], t.a[i + 1])
        g = FLOAT.get(f)
        if g is not None and len(a) == g[0]:
            try:
                r = g[1](*[self.flt(x) for x in a])
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                raise Reject()
            return r if f.startswith('fcmp_') else Fl(r)
        if f == 'f_powi':
            try:
                return Fl(self.flt(a[0]) ** s(1))
            except (OverflowError, ZeroDivisionError):
                raise Reject()
        if f == 'fsum' and isinstance(a[0], tuple) and a[0][:1] == ('A',):
            return Fl(math.fsum(self.flt(x) for x in a[0][1:]))
        if f == 'cast_IntToFloat_f64':
            x = s(0)
            ty = X.TY.get(t.a[1]) if isinstance(t.a[1], T) else None
            return Fl(x if ty == ('prim', 'i64') else x % M)
        if f.startswith('cast_FloatToInt_'):
            x = max(-1e30, min(1e30, self.flt(a[0])))
            if abs(x - round(x)) < 1e-6 and x != round(x):
                raise Reject()
            lo, hi = (0, M) if f[16:17] == 'u' else (-H, H)
            return sg(max(lo, min(hi - 1, int(x))))
        if f in ('dec', 'dec1', 'closest', 'closest1'):
            return self.digits(f, a, s)
        if f == 'abs':
            return sg(abs(s(0)))
        if f in ('maxover', 'minover') and isinstance(a[1], tuple) and a[1][:1] == ('A',):
            el = [self.scalar(x) for x in a[1][1:]]
            return (max if f == 'maxover' else min)([s(0)] + el)
        if f == 'log2':
            return (s(0) % M).bit_length() - 1
        if f == 'tz':
            x = s(0) % M
            return (x & -x).bit_length() - 1 if x else 64
        if f == 'popcnt':
            return (s(0) % M).bit_count()
        if f == 'ispow2':
            x = s(0) % M
            return int(x > 0 and x & (x - 1) == 0)
        if f == 'pow':
            return sg(pow(s(0), max(s(1), 0), M))
        if f == 'sar':
            return s(0) >> (s(1) % 64)
        if f == 'sdiv':
            x, y = s(0), s(1)
            if y == 0:
                raise Reject()
            return sg((abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))
        if f in ('trunc_u8', 'trunc_u16', 'trunc_u32'):
            return s(0) % (1 << int(f[7:]))
        if f in ('trunc_i8', 'trunc_i16', 'trunc_i32'):
            b = int(f[7:])
            x = s(0) % (1 << b)
            return x - (1 << b) if x >> (b - 1) else x
        if f == 'min':
            return min(s(0), s(1))
        if f == 'max':
            return max(s(0), s(1))
        if f == 'ult':
            return 1 if s(0) % M < s(1) % M else 0
        if f == 'eqv' and all(isinstance(v, (int, P, Fl)) for v in a):
            return 1 if a[0] == a[1] else 0
        if f == 'mnil':
            return ('M',)
        if f == 'mput':
            if not (isinstance(a[0], tuple) and a[0][:1] == ('M',)):
                raise Skip('map')
            k = s(1)
            return ('M',) + tuple(sorted([e for e in a[0][1:] if e[0] != k] + [(k, self.ground(a[2], t.a[3]))], key=lambda e: e[0]))
        if f == 'inj':
            return (self.h('inj') + s(0) * (1 + self.h('inj2') % 6)) % 7
        if f == 'mlen' and isinstance(a[0], tuple) and a[0][:1] == ('M',):
            return len(a[0]) - 1
        if f in ('mapHas', 'mapGet') and isinstance(a[0], tuple) and a[0][:1] == ('M',):
            k = s(1)
            d = dict(a[0][1:])
            if f == 'mapHas':
                return 1 if k in d else 0
            return d[k] if k in d else Sym(('mapGet', 'none', k), t)
        if f == 'genpoly' and a[0][1] == 'cst':
            k, key = str(t.a[1].a[0]), tuple(self.kof(x) for x in a)
            w = {'uniform_binary': lambda x: x & 1, 'uniform_ternary': lambda x: x % 3 - 1}.get(k)
            if k in ('uniform_n_lsb', 'uniform_n_msb') and len(a) == 3:
                b = s(2)
                if not 0 <= b <= 64:
                    raise Reject()
                w = lambda x: x % (1 << b) if k == 'uniform_n_lsb' else (x % (1 << b)) << (64 - b)
            if w is not None:
                return P(sg(w(self.h('gen', key, i))) for i in range(self.N))
        if f == 'evalxk':
            p, k = self.poly(a[0]), s(1)
            if k % 2 == 0:
                raise Reject()
            r = [0] * self.N
            for i, x in enumerate(p.c):
                j = i * k % (2 * self.N)
                r[j % self.N] = x if j < self.N else sg(-x)
            return P(r)
        if f in ('bitBitAnd', 'bitAnd'):
            return s(0) & s(1)
        if f in ('bitBitOr', 'bitOr'):
            return s(0) | s(1)
        if f in ('bitBitXor', 'bitXor'):
            return s(0) ^ s(1)
        a = tuple(self.kof(self.cgr(v, x)) for v, x in zip(a, t.a[1:]))
        return Sym(('app', f) + a, t)

    def digits(self, f, a, s):
        """signed decomposition: the closest multiple of q/base^levels and its balanced digits"""
        bl, lc = s(0), s(1)
        if not (0 < bl and 0 < lc and bl * lc < 64):
            raise Reject()
        pol = f in ('dec', 'closest')
        x = a[-1]
        xs = self.poly(x).c if pol else (s(len(a) - 1),)
        sh = 64 - bl * lc
        r = []
        for c in xs:
            v = (((c % M) >> (sh - 1)) + 1 >> 1) & ((1 << 64 - sh) - 1)
            if f.startswith('closest'):
                r.append(sg(v << sh))
                continue
            lvl = s(2)
            if not 1 <= lvl <= lc:
                raise Reject()
            # the decomposition rounds its argument; digits are produced from the last level
            for _ in range(lc - lvl + 1):
                d = v & ((1 << bl) - 1)
                v >>= bl
                c = (((d - 1) | v) & d) >> (bl - 1)
                v, d = v + c, d - (c << bl)
            r.append(d)
        return P(r) if pol else r[0]

    def cgr(self, v, x):
        if isinstance(x, T) and isinstance(v, Sym):
            return self.ground(v, x)
        return v


FLOAT = {'fadd': (2, lambda x, y: x + y), 'fsub': (2, lambda x, y: x - y), 'fmul': (2, lambda x, y: x * y),
         'fdiv': (2, lambda x, y: x / y), 'frem': (2, math.fmod), 'fneg': (1, lambda x: -x), 'f_ceil': (1, math.ceil), 'f_floor': (1, math.floor),
         'f_round': (1, lambda x: math.copysign(math.floor(abs(x) + 0.5), x)), 'f_log2': (1, lambda x: math.log2(x) if x else -math.inf), 'f_ln': (1, math.log), 'f_log10': (1, math.log10),
         'f_abs': (1, abs), 'f_sqrt': (1, math.sqrt), 'f_exp2': (1, lambda x: 2.0 ** x), 'f_powf': (2, math.pow),
         'f_max': (2, max), 'f_min': (2, min), 'fmax': (2, max), 'fmin': (2, min), 'fclamp': (3, lambda x, l, h: max(l, min(h, x))),
         'fcmp_Lt': (2, lambda x, y: int(x < y)), 'fcmp_Le': (2, lambda x, y: int(x <= y)), 'fcmp_Eq': (2, lambda x, y: int(x == y)), 'fcmp_Ne': (2, lambda x, y: int(x != y))}


def isfl(t):
    """the value of t is a floating point number"""
    if t.op == 'flt':
        return True
    if t.op == 'app':
        f = t.a[0]
        return f in FLOAT and not f.startswith('fcmp_') or f in ('fsum', 'f_powi', 'cast_IntToFloat_f64')
    return X.TY.get(t) == ('prim', 'f64')


def thresholds(*ts, hints=None):
    """constants that tests inside the terms compare with"""
    out, seen, st = set(), set(), list(ts)
    mods = {}
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ('eq0', 'ge0'):
                p = dict(poly(x.a[0]))
                c = sg(-p.pop((), 0))
                out.add(c)
                if hints is not None and p in ({((X.N, 1),): 1}, {((X.N, 1),): -1}):
                    if 4 < abs(c) <= 128:
                        hints.setdefault(X.N, set()).add(c)
                elif hints is not None and len(p) == 1 and x.op == 'ge0' and 4 < abs(c) <= 128:
                    (m, k), = p.items()
                    if len(m) == 1 and m[0][1] == 1 and not m[0][0].ind and k in (1, -1, M - 1):
                        c = c if k == 1 else -c
                        if c > 0:
                            hints.setdefault(m[0][0], set()).update((c - 1, c, c + 1))
                elif hints is not None and len(p) == 1 and x.op == 'eq0':
                    (m, k), = p.items()
                    if len(m) == 1 and m[0][1] == 1 and k in (1, -1, M - 1) and not m[0][0].ind:
                        c = c if k == 1 else sg(-c)
                        if 0 <= c < 1 << 32:
                            hints.setdefault(m[0][0], set()).add(c)
            elif x.op == 'app' and isinstance(x.a[0], str) and x.a[0][:6] == "trunc_":
                y, b = x.a[-1], int(''.join(ch for ch in x.a[0] if ch.isdigit()) or 64)
                if b < 64 and isinstance(y, T) and is_ring(y):
                    out |= {1 << b - 1, 1 << b, (1 << b) + 1}
                    if hints is not None:
                        for m in poly(y):
                            for q, e in m:
                                if e == 1 and not q.ind and not q.ps:
                                    hints.setdefault(q, set()).update((1, 2, 1 << b - 1, 1 << b, (1 << b) + 1))
            elif x.op in ('rem', 'div') and x.a[1].op == 'int' and 2 < x.a[1].a[0] <= 128 and hints is not None:
                c = x.a[1].a[0]
                for m in poly(x.a[0]):
                    for q, e in m:
                        if e == 1 and not q.ind and not q.ps:
                            hints.setdefault(q, set()).update((c - 1, c, c + 1))
                            mods.setdefault(q, set()).add(c)
            elif x.op == 'app' and x.a[0] == 'ult':
                for y in x.a[1:]:
                    if y.op == 'int':
                        out |= {y.a[0], y.a[0] + 1}
            st.extend(x.a)
    for q, cs in mods.items():
        if len(cs) > 1:
            hints[q] |= {c + d for c in cs for d in cs} | {c + d - 1 for c in cs for d in cs}
    if mods and hints:
        for x in seen:
            # bounds of quantities with hints
            if x.op == 'ge0':
                p = dict(poly(x.a[0]))
                c = sg(p.pop((), 0))
                if len(p) == 2 and all(len(m) == 1 and m[0][1] == 1 for m in p):
                    v, u = sorted(p, key=lambda m: sg(p[m]))
                    if sg(p[v]) == -1 and sg(p[u]) == 1 and v[0][0] in mods and v[0][0] in hints:
                        hints.setdefault(u[0][0], set()).update(w - c for w in hints[v[0][0]] if 4 < w <= 300)
    if hints:
        for x in seen:
            # quantities tied together by a power of two
            if x.op == 'eq0':
                p = dict(poly(x.a[0]))
                if len(p) == 2 and all(len(m) == 1 and m[0][1] == 1 for m in p) and sg(sum(p.values())) == 0:
                    u, v = (m[0][0] for m in p)
                    if u.op == 'pow2':
                        u, v = v, u
                    if v.op == 'pow2' and u in hints:
                        for c in list(hints[u]):
                            if 4 < c <= 128:
                                hints.setdefault(v.a[0], set()).add((c - 1).bit_length())
    return tuple(sorted(sg(x) for x in out))[:24]


def permutation(n):
    """meaning of a table that holds 0..n-1 in some order"""
    def f(I):
        m = I.scalar(I.ev(n), n)
        if not 0 <= m <= 640:
            raise Reject()
        p = list(range(m))
        random.Random(I.h('permutation', m)).shuffle(p)
        return ('A',) + tuple(p)
    return f


def same_as(x):
    return lambda I: I.scalar(I.ev(x), x)


def exponents(*ts):
    """machine words that count bits"""
    out, seen, st = set(), set(), list(ts)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            e = None
            if x.op == 'pow2':
                e = x.a[0]
            elif x.op == 'app' and x.a[0] == 'genpoly' and len(x.a) == 4:
                e = x.a[3]
            if e is not None and is_ring(e):
                for m in poly(e):
                    for a, _ in m:
                        ty = X.TY.get(a)
                        if not a.ps and not a.ind and not a.fv and not a.wk and a.op in ('fld', 'opq', 'idx') \
                                and ty is not None and ty[0] == 'prim' and ty[1] in ('u64', 'ring'):
                            out.add(a)
            st.extend(x.a)
    return sorted(out, key=lambda t: t.h)


def repair(I, c, n):
    """give one symbolic number in the failed assumption c a value that may make it hold"""
    atoms = []
    if c.ind:
        atoms.append((c, 1))
    else:
        for m, k in poly(c).items():
            for a, e in m:
                if a.ind:
                    atoms.append((a, 0 if k < 0 else 1))
    if not atoms:
        return False
    a, want = atoms[I.h('ra', n) % len(atoms)]
    pw = a.a[1] if a.op == 'app' and a.a[0] == 'ispow2' else None
    if a.op == 'eq0' and is_ring(a.a[0]):
        for m, k in poly(a.a[0]).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'popcnt':
                pw = m[0][0].a[1]
    if pw is not None and want:
        v = I.ev(pw)
        if isinstance(v, Sym):
            I.force[v.k] = 1 << I.small(('rp', n), 0, 12 if I.seed % 3 else 40)
            I.memo.clear()
            return True
    if a.op not in ('ge0', 'eq0'):
        v = I.ev(a)
        if not isinstance(v, Sym):
            return False
        I.force[v.k] = want
        I.memo.clear()
        return True
    q = a.a[0]
    if not is_ring(q):
        return False
    cand = []
    for m, k in poly(q).items():
        if len(m) == 1 and m[0][1] == 1 and k in (1, -1, M - 1):
            try:
                v = I.ev(m[0][0])
            except (Skip, Reject):
                continue
            if isinstance(v, Sym) and not m[0][0].ps:
                cand.append((v, m[0][0], 1 if k == 1 else -1))
    if not cand:
        return False
    v, t, k = cand[I.h('rc', n) % len(cand)]
    rest = I.scalar(I.ev(X.sub(q, X.scale(t, k))), q)
    d = I.small(('rs', n), 0, 3) if I.seed % 3 else I.small(('rs', n), 0, 160)
    if a.op == 'eq0':
        x = -k * rest + (0 if want else d + 1)
    elif want:
        x = d - rest if k == 1 else rest - d       # k*x + rest = d
    else:
        x = -1 - d - rest if k == 1 else rest + 1 + d
    if a.op == 'ge0' and want and x < 0 and k == -1:
        x = rest
    if not 0 <= x < 1 << 20:
        return False
    I.force[v.k] = x
    I.memo.clear()
    return True


def satisfy(I, assume):
    """random meanings under which the assumptions hold"""
    for n in range(60):
        for c in assume:
            try:
                good = I.scalar(I.ev(c), c) == 1
            except Reject:
                good = False
                if n > 40:
                    raise
            if not good:
                ok = False
                for j in range(4):
                    try:
                        ok = repair(I, c, (n, j))
                    except (Reject, Skip):
                        ok = False
                    if ok:
                        break
                if not ok:
                    raise Reject()
                break
        else:
            return
    raise Reject()


BUILT = ('S', 'E', 'A')


def unlike(x, y):
    """1: different values, 0: equal, None: an assembled value against an opaque one"""
    if isinstance(x, Sym):
        x = x.k
    if isinstance(y, Sym):
        y = y.k
    if isinstance(x, tuple) and isinstance(y, tuple):
        bx, by = x[:1] and x[0] in BUILT, y[:1] and y[0] in BUILT
        if bool(bx) != bool(by):
            return None
        if bx:
            if x[0] != y[0] or len(x) != len(y):
                return 1 if x[0] == y[0] else None
        elif len(x) != len(y):
            return 1
        unk = False
        for a, b in zip(x, y):
            r = unlike(a, b)
            if r == 1:
                return 1
            unk = unk or r is None
        return None if unk else 0
    if isinstance(x, tuple) != isinstance(y, tuple):
        # a number or polynomial against an opaque value
        o, k = (x, y) if isinstance(x, tuple) else (y, x)
        if isinstance(k, (int, P, Fl)) and not isinstance(k, bool):
            return None
        return 1
    return 0 if x == y else 1


def terms_differ(a, b, assume=(), tries=1500, want=24, N=4, more=192, fixed=None):
    """-> (number of admissible interpretations, number that separate a and b, note)"""
    adm = sep = 0
    note = ''
    if a.op == 'weak' or b.op == 'weak':
        return 0, 0, 'unknown value'
    hints = {}
    OPENED.clear()
    cs = thresholds(a, b, *assume, hints=hints)
    exs = exponents(a, b, *assume)
    big = sorted({abs(c) for c in hints.pop(X.N, ())})
    t0 = time.time()
    def meaning(s, salt):
        I = Interp(s, N if s % 2 else 2, fixed)
        I.salt = salt
        if big and s % 16 in (5, 6):
            I.N = 1 << (big[s // 16 % len(big)] - (s // 32) % 2).bit_length()
        I.consts = cs
        I.exponents(exs)
        I.hint(hints)
        satisfy(I, assume)
        x = I.ground(I.ev(a), a)
        y = I.ground(I.ev(b), b)
        if is_ring(a) and is_ring(b):
            if isinstance(x, Fl) or isinstance(y, Fl):
                x, y = Fl(I.flt(x)), Fl(I.flt(y))
            elif isinstance(x, P) or isinstance(y, P):
                x, y = I.poly(x), I.poly(y)
            elif not isinstance(x, tuple) and not isinstance(y, tuple) and not (isinstance(x, Sym) and isinstance(y, Sym)):
                x, y = I.scalar(x, a), I.scalar(y, b)
        return I, x, y

    for s in range(tries):
        if time.time() > t0 + 30:
            break
        try:
            I, x, y = meaning(s, 0)
            if I.oob and meaning(s, 1)[1:] != (x, y):
                continue
        except Reject:
            continue
        except Skip as e:
            note = str(e)
            continue
        except RecursionError:
            note = 'depth'
            continue
        except MemoryError:
            note = 'memory'
            break
        r = 0 if x == y else unlike(x, y)
        if r is None:
            note = 'incomparable shapes'
            continue
        adm += 1
        sep += r
        if adm >= want and (sep * 12 >= adm and sep >= 2 or adm >= more or not sep and time.time() > t0 + 8):
            break
    return adm, sep, note
