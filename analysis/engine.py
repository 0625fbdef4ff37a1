"""Value-flow analysis of MIR bodies: gated joins, scalar-evolution style loop summaries, call inlining.

The abstract state maps cells (locals, heap objects) to value terms.  A conditional is joined at its
post-dominator with gated terms; a loop is summarised from one pass over its body with unknown
header values: the recurrences of the changed locations are solved in closed form (or become weak);
callees are entered through the resolved call graph, or replaced by their specification.
"""
import itertools
import sys
import terms as X
from terms import (T, mk, INT, ZERO, ONE, UNIT, UNDEF, add, sub, mul, scale, neg, div, rem, pow2, xpow, EQ, LT, LE,
                   NOT, AND, OR, ge0, eq0, proj, merge, weak, opq, mk_arr, close_arr, mk_struct, length, discr,
                   payload, subst, Facts, simp, is_ring, poly, close_sum, coef, fc, mono_mul, from_mono, fresh, app)
from ir import RET

sys.setrecursionlimit(20000)


class Diverge(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('c', 'f')

    def __init__(self, c=None, f=None):
        self.c = {} if c is None else c
        self.f = f or Facts()

    def copy(self):
        return State(dict(self.c), self.f)


def ref(cell, path=()):
    return mk('ref', cell, tuple(path))


def rproj(r, item):
    if r is None:
        return weak('not a location')
    if r.op == 'ref':
        return mk('ref', r.a[0], r.a[1] + (item,))
    if r.op == 'iteref':
        return mk('iteref', r.a[0], rproj(r.a[1], item), rproj(r.a[2], item))
    return weak('projection of %s' % r.op)


def tup(*vs):
    return mk_struct('tuple', tuple(enumerate(vs)))


NONE = mk('enum', ZERO, ())


def some(v):
    return mk('enum', ONE, ((1, ((0, v),)),))


def ok(v):
    return mk('enum', ZERO, ((0, ((0, v),)),))


def opt(c, v):
    """Some(v) if c else None"""
    return mk('enum', c, ((1, ((0, v),)),)) if c is not ZERO else NONE


GLWE = ('adt', 'concrete_core::commons::crypto::glwe::ciphertext::GlweCiphertext', ())
GGSW = ('adt', 'concrete_core::commons::crypto::ggsw::standard::StandardGgswCiphertext', ())
FGGSW = ('adt', 'concrete_core::commons::crypto::ggsw::FourierGgsw', ())
POLY = ('adt', 'poly', ())
RING = ('prim', 'ring')


def shape(v):
    t = X.TY.get(v)
    if t is not None:
        return t
    if v.op == 'struct':
        tag = v.a[0]
        if tag == 'tuple':
            return ('tuple', tuple(shape(x) for _, x in v.a[1]))
        if tag == 'Glwe':
            return GLWE
        if tag == 'Ggsw':
            return GGSW
        if tag == 'FGgsw':
            return FGGSW
        if isinstance(tag, str):
            return ('adt', tag, ())
        return None
    if v.op == 'arr':
        return ('slice', shape(v.a[1]))
    if v.op == 'list':
        return ('slice', shape(v.a[0]) if v.a else None)
    if v.op == 'enum':
        return ('enum',)
    if is_ring(v):
        if v.ps:
            return POLY
        if v.op in ('opq', 'fld', 'idx', 'pay', 'key'):
            return None
        if v.op == 'ring':
            # a gated merge has the type of what it selects
            d = {tuple(a for a, e in m if not a.ind) for m, c in v.a[0]}
            if all(len(x) == 1 for x in d):
                ts = {shape(x[0]) for x in d} - {None}
                if len(ts) < 2:
                    return ts.pop() if ts else None
        return RING
    return None


def is_arrayish(v):
    if v.op in ('arr', 'list'):
        return True
    t = X.TY.get(v)
    return t is not None and X.elem_ty(t) is not None


# ---------------------------------------------------------------- functional update
def put(v, it, x):
    op = v.op
    if op == 'weak':
        return v
    if isinstance(it, (int, str)):
        if it == 'fp':
            return mk('fvec', x)
        if it == 'fd':
            if x.op == 'fvec':
                return x.a[0]
            return weak('fourier data overwritten')
        if op == 'struct':
            fs = tuple((n, x if n == it else y) for n, y in v.a[1])
            if not any(n == it for n, _ in v.a[1]):
                return weak('no field %r' % (it,))
            return mk_struct(v.a[0], fs)
        if op == 'undef':
            return weak('partial init')
        if op == 'vnt':
            ns = X.variants(v.a[0]).get(v.a[1])
            if ns and it in ns:
                return mk('struct', ('variant', v.a[1]), tuple((n, x if n == it else X.payload(v.a[0], v.a[1], n)) for n in ns))
        ty = X.strip(X.TY.get(v))
        if ty is not None:
            n = X.nfields(ty)
            if n > 0:
                names = X.FIELD_NAMES.get(ty[1], range(n)) if ty[0] == 'adt' else range(n)
                return mk_struct(X.struct_tag(ty), tuple((k, x if k == it else proj(v, k)) for k in names))
        return weak('field update of %s' % op)
    k = it[0]
    if k == 'i':
        i = it[1]
        if i.op == 'weak':
            return i
        if op == 'list':
            if i.op == 'int':
                n = i.a[0]
                if 0 <= n < len(v.a):
                    return mk('list', *[x if j == n else y for j, y in enumerate(v.a)])
                return weak('index out of range')
            return mk('list', *[merge(EQ(i, INT(j)), x, y) for j, y in enumerate(v.a)])
        if op == 'fvec':
            p = v.a[0]
            return mk('fvec', add(p, mul(sub(x, fc(p, i)), mk('fslot', i))))
        if op == 'arr' or is_arrayish(v):
            oi = proj(v, ('i', i))
            return mk_arr(length(v), lambda y: put_elem(EQ(y, i), x, proj(v, ('i', y)), oi))
        if is_ring(v):
            if not is_ring(x):
                return weak('coefficient of kind %s' % x.op)
            return add(v, mul(sub(x, coef(v, i)), xpow(i)))
        return weak('index update of %s' % op)
    if k == 'c':
        i = it[1]
        if (op == 'struct' and v.a[0] == 'Glwe') or X.is_glwe(v):
            m, b = proj(v, 'mask'), proj(v, 'body')
            c = LT(i, X.N)
            j = sub(i, X.N)
            m2 = add(m, mul(c, sub(x, coef(m, i)), xpow(i)))
            b2 = add(b, mul(NOT(c), sub(x, coef(b, j)), xpow(j)))
            return mk_struct('Glwe', (('mask', m2), ('body', b2)))
        return put(v, ('i', i), x)
    if k == 'k':
        return map_put(v, it[1], x)
    if k == 'v':
        if op == 'enum':
            vs = dict(v.a[1])
            if x.op == 'struct':
                vs[it[1]] = x.a[1]
            else:
                return weak('variant update')
            return mk('enum', v.a[0], tuple(sorted(vs.items())))
        vs = X.variants(v)
        if it[1] in vs and x.op == 'struct':
            return mk('enum', X.discr(v), tuple(sorted((i, x.a[1] if i == it[1] else tuple((n, X.payload(v, i, n)) for n in ns))
                                                       for i, ns in vs.items())))
        return weak('variant update of %s' % op)
    if k == 'sl':
        lo, ln = it[1], it[2]
        return mk_arr(length(v), lambda y: merge(AND(LE(lo, y), LT(y, add(lo, ln))),
                                                 proj(x, ('i', sub(y, lo))), proj(v, ('i', y))))
    if k == 'lv':
        return weak('level matrix update')
    return weak('update %r' % (it,))


def put_elem(c, x, o, oi):
    """element after a store of x: o is the old element, oi the old element at the stored index"""
    if x is oi:
        return o
    if x.op == 'struct' and o.op == 'struct' and oi.op == 'struct' and x.a[0] == o.a[0] == oi.a[0]:
        return mk_struct(x.a[0], tuple((n, put_elem(c, f, proj(o, n), proj(oi, n))) for n, f in x.a[1]))
    if (x.op == 'arr' or is_arrayish(x)) and x.op != 'list' and is_arrayish(oi) and length(x) is length(oi):
        return mk_arr(length(o), lambda z: put_elem(c, proj(x, ('i', z)), proj(o, ('i', z)), proj(oi, ('i', z))))
    return merge(c, x, o)


def map_put(v, key, x):
    if v.op == 'struct' and v.a[0] == 'Map':
        pass
    return weak('map update')


def upd(v, path, x):
    if not path:
        return x
    if len(path) == 1:
        return put(v, path[0], x)
    s = proj(v, path[0])
    return put(v, path[0], upd(s, path[1:], x))


# ---------------------------------------------------------------- engine
FOLD_MAX = 6000


class Engine:
    debug = False

    def __init__(self, lib, binc=None, budget=400000):
        self.lib = lib
        self.bin = binc
        self.bodies = dict(lib.bodies)
        if binc is not None:
            for p, b in binc.bodies.items():
                self.bodies['bin::' + p] = b
        self.specs = {}          # path -> summary(E, st, args, ctx) (assumed at call sites)
        self.models = {}
        self.opaque = set()      # local functions kept uninterpreted
        self.fid = itertools.count()
        self.cid = itertools.count()
        self.pinned = set()
        self.steps = 0
        self.budget = budget
        self.stack = []
        self.unknown = {}        # unmodelled externals reached
        self.visited = set()     # local functions entered
        self.fft_log = []
        self.guards = []         # (functions, condition of continuing, inside a loop)
        self.ran = set()         # conditions that a loop has an iteration
        self.pc = []             # path conditions of the active regions
        self.inloop = 0
        self.folds = 0
        self.out = None          # cell that collects the printed text
        self.clock = 0
        self.unroll = False
        self.events = []
        self.guard_at = {}       # guard -> (function, block that ends in a panic)
        self.guard_never = set() # blocks that end in a panic and that a run excludes: (function, block)
        self.guard_lost = set()  # assertions whose condition is unknown
        self.guard_k = {}        # guard -> iteration numbers of the loops around it
        self.trips = {}          # iteration number -> how many iterations
        self.fresh_enc = False
        self.weak_notes = []
        self.mut_cache = {}
        self.injective = lambda t: False   # tables known to hold pairwise distinct values
        self.kstack = []
        self.phi0 = []
        self.wlog = []           # stores performed by the current pass over a loop body
        self.frames = {}         # frame number -> body

    # ---- cells
    def new_cell(self, st, v):
        c = ('h', next(self.cid))
        st.c[c] = v
        return c

    def box(self, st, v):
        return ref(self.new_cell(st, v))

    # ---- locations
    def norm(self, st, r, follow=False):
        """follow refs inside the path of r; -> ref/iteref/weak"""
        if r is None:
            return weak('not a location')
        if r.op == 'iteref':
            a, b = self.norm(st, r.a[1], follow), self.norm(st, r.a[2], follow)
            if a.op == 'weak':
                return a
            if b.op == 'weak':
                return b
            return a if a is b else mk('iteref', r.a[0], a, b)
        if r.op != 'ref':
            return r
        cell, path = r.a
        n = 0
        while True:
            v = st.c.get(cell, UNDEF)
            i = 0
            moved = False
            while True:
                if v.op in ('ref', 'iteref') and (i < len(path) or follow):
                    if v.op == 'iteref':
                        t = v
                        for it in path[i:]:
                            t = rproj(t, it)
                        return self.norm(st, t, follow)
                    cell, path = v.a[0], v.a[1] + path[i:]
                    moved = True
                    break
                if i == len(path):
                    break
                v = proj(v, path[i])
                i += 1
            if not moved:
                return mk('ref', cell, path)
            n += 1
            if n > 60:
                return weak('reference chain')

    def read(self, st, r):
        r = self.norm(st, r)
        if r.op == 'iteref':
            return merge(r.a[0], self.read(st, r.a[1]), self.read(st, r.a[2]))
        if r.op != 'ref':
            return r if r.op == 'weak' else weak('read through %s' % r.op)
        v = st.c.get(r.a[0], UNDEF)
        for it in r.a[1]:
            v = proj(v, it)
        return self.sv(st, v)

    def sv(self, st, v):
        return v

    def write(self, st, r, x):
        r = self.norm(st, r)
        if r.op == 'iteref':
            a, b = r.a[1], r.a[2]
            va, vb = self.read(st, a), self.read(st, b)
            self.write(st, a, merge(r.a[0], x, va))
            self.write(st, b, merge(r.a[0], vb, x))
            return
        if r.op != 'ref':
            self.note('write through %s' % r.op)
            self.havoc(st)
            return
        cell, path = r.a
        if self.wlog:
            self.wlog[-1].add((cell, path))
        st.c[cell] = upd(st.c.get(cell, UNDEF), path, x) if path else x

    def havoc(self, st):
        for c in list(st.c):
            st.c[c] = weak('unknown store')
            if self.wlog:
                self.wlog[-1].add((c, ()))

    def note(self, s):
        self.weak_notes.append(s)

    # the value behind a reference argument (refs followed to the end)
    def at(self, st, v):
        """location designated by an argument value, or None when the argument is an owned value"""
        if v.op in ('ref', 'iteref'):
            return self.norm(st, v, True)
        return None

    def val(self, st, v):
        n = 0
        while v.op in ('ref', 'iteref') and n < 50:
            v = self.read(st, v)
            n += 1
        return v

    # ---- places
    def lv(self, st, fr, p):
        r = ref(('l', fr, p[0]))
        for e in p[1:]:
            if e == '*':
                v = self.read(st, r)
                if v.op in ('ref', 'iteref'):
                    r = v
                elif v.op == 'weak':
                    return v
            elif isinstance(e, int):
                r = rproj(r, e)
            elif isinstance(e, dict):
                if 'i' in e:
                    r = rproj(r, ('i', self.val(st, st.c.get(('l', fr, e['i']), UNDEF))))
                elif 'ci' in e:
                    i = INT(e['ci'])
                    if e['fe']:
                        i = sub(length(self.val(st, self.read(st, r))), i)
                    r = rproj(r, ('i', i))
                elif 'v' in e:
                    r = rproj(r, ('v', e['v']))
                elif 'ss' in e:
                    ln = length(self.val(st, self.read(st, r)))
                    lo = INT(e['ss'][0])
                    hi = sub(ln, INT(e['ss'][1])) if e['fe'] else INT(e['ss'][1])
                    r = rproj(r, ('sl', lo, sub(hi, lo)))
                else:
                    return weak('place')
            else:
                return weak('place')
            if r.op == 'weak':
                return r
        return r

    def operand(self, st, fr, o):
        p = o.get('cp') or o.get('mv')
        if p is not None:
            if len(p) == 1:
                v = st.c.get(('l', fr, p[0]), UNDEF)
            else:
                v = self.read(st, self.lv(st, fr, p))
            if v.ind or (v.op == 'ring' and v.sz < 60):
                v = simp(v, st.f)
            return v
        return self.const(o)

    def const(self, o):
        c = o['c']
        if c == 'int':
            t = o['ty']
            if 'f' in o:
                return mk('flt', o['f'])
            bits = int(o['bits'])
            if t.get('k') == 'prim' and t['s'] in ('i64', 'i32', 'isize', 'i8', 'i16', 'i128'):
                n = o['size'] * 8
                if bits >> (n - 1):
                    bits -= 1 << n
            if t.get('k') == 'adt':
                return mk_struct(t['path'], ((0, INT(bits)),))
            return INT(bits)
        if c == 'zst':
            t = o['ty']
            if t.get('k') == 'tuple' and not t['args']:
                return UNIT
            if t.get('k') == 'closure':
                return mk_struct(('clo', t['path']), ())
            if t.get('k') == 'adt':
                return mk_struct(t['path'], ())
            return UNIT
        if c == 'fn':
            return mk('fn', FnRef(o))
        if c == 'str':
            return mk('str', o['v'])
        if c == 'bytes':
            return mk('bytes', tuple(o['v']))
        return mk('cst', str(o.get('name')), str(o.get('s')))

    # ---- rvalues
    def rvalue(self, st, fr, body, r):
        k = r['r']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k in ('ref', 'rawptr'):
            l = self.lv(st, fr, r['p'])
            return l
        if k == 'bin':
            ta = self.op_ty(body, r['a'])
            return self.binop(st, r['op'], self.val(st, self.operand(st, fr, r['a'])),
                              self.val(st, self.operand(st, fr, r['b'])), ta)
        if k == 'un':
            a = self.val(st, self.operand(st, fr, r['a']))
            if r['op'] == 'Not':
                t = self.op_ty(body, r['a'])
                if t == ('prim', 'bool'):
                    return NOT(a) if is_ring(a) else weak('not')
                if t is not None and t[0] == 'prim' and t[1] in ('u64', 'usize', 'i64'):
                    return sub(INT(-1), a)
                return app('bnot', a)
            if r['op'] == 'Neg':
                if self.op_ty(body, r['a']) == ('prim', 'f64'):
                    return app('fneg', a)
                return neg(a)
            if r['op'] == 'PtrMetadata':
                return length(a)
            return weak('unop ' + r['op'])
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            ck = r['k']
            if ck.startswith('IntToInt'):
                return self.cast_int(st, v, self.op_ty(body, r['o']), r['ty'])
            if 'Float' in ck:
                t = r['ty'].get('s')
                return app('cast_' + ck.split('(')[0] + '_' + str(t), self.val(st, v))
            return v
        if k == 'agg':
            os = [self.operand(st, fr, o) for o in r['o']]
            a = r['k']
            if a['a'] == 'tuple':
                return tup(*os) if os else UNIT
            if a['a'] == 'array':
                return mk('list', *os)
            if a['a'] == 'closure':
                return mk_struct(('clo', a['path']), tuple(enumerate(os)))
            if a['a'] == 'adt':
                if a['enum']:
                    return mk('enum', INT(a['v']), ((a['v'], tuple(enumerate(os))),) if os else ())
                return mk_struct(a['path'], tuple(enumerate(os)))
            return weak('aggregate')
        if k == 'discr':
            return discr(self.val(st, self.read(st, self.lv(st, fr, r['p']))))
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            n = r['n']
            try:
                return mk_arr(INT(int(n)), lambda x: v)
            except ValueError:
                return weak('repeat')
        return weak('rvalue ' + k)

    def cast_int(self, st, v, src, dst):
        v = self.val(st, v)
        d = dst.get('s')
        s = src[1] if src and src[0] == 'prim' else None
        W = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64,
             'isize': 64, 'bool': 1, 'u128': 128, 'i128': 128, 'char': 32}
        if v.op == 'weak':
            return v
        if s in W and d in W:
            if W[d] >= 64 or W[d] >= W[s]:
                return v
            if v.op == 'int':
                b = v.a[0] & ((1 << W[d]) - 1)
                if d[0] == 'i' and b >> (W[d] - 1):
                    b -= 1 << W[d]
                return INT(b)
            if d == 'u8' and s in ('u64', 'usize', 'u32') and v.ind:
                return v
            return app('trunc_' + d, v)
        return app('cast_%s' % d, v)

    def op_ty(self, body, o):
        p = o.get('cp') or o.get('mv')
        if p is None:
            from ir import conv_ty
            return conv_ty(o.get('ty')) if 'ty' in o else None
        t = body.tys[p[0]]
        for e in p[1:]:
            if t is None:
                return None
            if e == '*':
                t = t[1] if t[0] == 'ref' else (t[2][0] if t[0] == 'adt' and t[2] else None)
            elif isinstance(e, int):
                t = X.field_ty(t, e) if t[0] != 'closure' else None
            elif isinstance(e, dict) and ('i' in e or 'ci' in e):
                t = X.elem_ty(t)
            elif isinstance(e, dict) and 'v' in e:
                return None
            else:
                return None
        return t

    def binop(self, st, op, a, b, ty):
        for x in (a, b):
            if x.op == 'weak':
                return x
        if op.endswith('WithOverflow'):
            return tup(self.binop(st, op[:-12], a, b, ty), ZERO)
        if op.endswith('Unchecked'):
            op = op[:-9]
        isf = ty == ('prim', 'f64') or a.op == 'flt' or b.op == 'flt'
        if isf:
            nm = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}.get(op)
            if nm in ('fadd', 'fmul'):
                a, b = sorted((a, b), key=lambda t: t.id)
            if nm:
                return app(nm, a, b)
            t = app('fcmp_' + {'Gt': 'Lt', 'Ge': 'Le'}.get(op, op), *((b, a) if op in ('Gt', 'Ge') else (a, b)))
            t.ind = True
            return t
        if not (is_ring(a) and is_ring(b)):
            if op in ('Eq', 'Ne') and a.op == b.op == 'str':
                return ONE if (a is b) == (op == 'Eq') else ZERO
            return weak('binop %s on %s,%s' % (op, a.op, b.op))
        isb = ty == ('prim', 'bool')
        uns = ty is not None and ty[0] == 'prim' and ty[1] in ('u64', 'usize', 'u32', 'u8', 'u16')

        def unordered(x):
            # an unsigned word whose ring representation may have wrapped
            return uns and (x.op == 'int' and x.a[0] < 0 or ty[1] == 'u64' and not (a.op == 'int' and b.op == 'int'))
        if op in ('Lt', 'Le', 'Gt', 'Ge') and (unordered(a) or unordered(b)):
            if op == 'Gt':
                op, a, b = 'Lt', b, a
            elif op == 'Ge':
                op, a, b = 'Le', b, a
            if op == 'Le':
                t = app('ult', b, a)
                t.ind = True
                return NOT(t)
            t = app('ult', a, b)
            t.ind = True
            return t
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mul':
            return mul(a, b)
        if op == 'Div':
            if ty and ty[0] == 'prim' and ty[1][0] == 'i' and b.op != 'int':
                return app('sdiv', a, b)
            return div(a, b)
        if op == 'Rem':
            return rem(a, b)
        if op == 'Eq':
            return simp(EQ(a, b), st.f)
        if op == 'Ne':
            return simp(NOT(EQ(a, b)), st.f)
        if op == 'Lt':
            return simp(LT(a, b), st.f)
        if op == 'Le':
            return simp(LE(a, b), st.f)
        if op == 'Gt':
            return simp(LT(b, a), st.f)
        if op == 'Ge':
            return simp(LE(b, a), st.f)
        if op == 'Shl':
            return mul(a, pow2(b))
        if op == 'Shr':
            if ty and ty[0] == 'prim' and ty[1][0] == 'i':
                return app('sar', a, b)
            return div(a, pow2(b))
        if op == 'BitAnd':
            if isb or (a.ind and b.ind):
                return mul(a, b)
            for x, y in ((a, b), (b, a)):
                if x.op == 'int' and x.a[0] >= 0 and (x.a[0] + 1) & x.a[0] == 0:
                    return rem(y, INT(x.a[0] + 1))
                # x & (2^n - 1)
                p = poly(x)
                if len(p) == 2 and p.get((), 0) == -1:
                    (m, c), = [(m, c) for m, c in p.items() if m != ()]
                    if c == 1 and len(m) == 1 and m[0][0].op == 'pow2':
                        return rem(y, m[0][0])
        if op == 'BitOr' and (isb or (a.ind and b.ind)):
            return OR(a, b)
        if op == 'BitXor' and (isb or (a.ind and b.ind)):
            return sub(add(a, b), scale(mul(a, b), 2))
        a, b = sorted((a, b), key=lambda t: t.id)
        return app('bit' + op, a, b)

    def poly_cell(self, c, p):
        """does the declared type of this location say that it holds a polynomial"""
        if c[0] != 'l' or c[1] not in self.frames:
            return False
        ty = self.frames[c[1]].tys[c[2]]
        if ty[0] == 'ref':
            return False
        v = X.special(opq(('decl', repr(ty)), ty))
        for it in p:
            v = proj(v, it)
        return v.ps

    # ---- running a body
    def run_fn(self, path, args, st, closure=False):
        body = self.bodies.get(path)
        if body is None:
            self.note('no body ' + path)
            return self.unknown_call(st, path, args)
        if self.stack.count(path) >= 1:
            self.note('recursion ' + path)
            return self.unknown_call(st, 'recursive ' + path, args)
        self.visited.add(path)
        fr = next(self.fid)
        self.frames[fr] = body
        for i, a in enumerate(args):
            st.c[('l', fr, i + 1)] = a
        self.stack.append(path)
        try:
            out = self.region(body, fr, 0, st, frozenset(body.flow.reach), {RET})
        finally:
            self.stack.pop()
        if RET not in out:
            raise Diverge()
        cond, s2 = out[RET]
        ret = s2.c.get(('l', fr, 0), UNIT)
        if ret.op == 'undef':
            ret = UNIT
        st.c = {c: v for c, v in s2.c.items() if not (c[0] == 'l' and c[1] == fr) or c in self.pinned}
        return ret

    def guard(self, g, at=None):
        """the current path only continues if g holds; at: the block it would end in"""
        if not is_ring(g):
            self.guard_lost.add(at)
            return
        for c in self.pc:
            if not is_ring(c):
                self.guard_lost.add(at)
                return
        pc = mul(*self.pc) if self.pc else ONE
        g = sub(ONE, mul(pc, sub(ONE, g)))
        self.guards.append((tuple(self.stack), g, self.inloop))
        self.guard_k[len(self.guards) - 1] = tuple(self.kstack)
        self.guard_at[len(self.guards) - 1] = at

    def region(self, *a, **k):
        n = len(self.pc)
        self.pc.append(ONE)
        try:
            return self._region(n, *a, **k)
        finally:
            del self.pc[n:]

    def _region(self, ix, body, fr, bb, st, region, sinks, skip_header=None):
        """run from bb; -> {sink: (cond, state)}.  sinks: blocks that end the region"""
        out = {}
        cond = ONE

        def arrive(sink, c, s):
            if sink in out:
                c0, s0 = out[sink]
                out[sink] = (add(c0, c), self.join(c0, s0, s))
            else:
                out[sink] = (c, s)
        first = True
        flow = body.flow
        while True:
            if bb in sinks and not (first and skip_header == bb):
                arrive(bb, cond, st)
                return out
            if bb in flow.loops and not (first and skip_header == bb):
                res = self.cfg_loop(body, fr, bb, st, region, sinks)
                if res is None:
                    return out
                if len(res) == 1:
                    (x, (c, s)), = res.items()
                    bb, st = x, s
                    if x in sinks or x not in region:
                        arrive(x, mul(cond, c), s)
                        return out
                    first = False
                    continue
                # several exits: continue each separately up to where they meet
                j = flow.ipdom(bb, region, frozenset(sinks))
                if j in flow.loops[bb]:
                    j = None
                jo = None
                for x, (c, s) in res.items():
                    if x == j:
                        sub_ = {j: (ONE, s)}
                    elif x in sinks or x not in region:
                        arrive(x, mul(cond, c), s)
                        continue
                    else:
                        self.pc[ix] = mul(cond, c)
                        sk = set(sinks)
                        if j is not None:
                            sk.add(j)
                        sub_ = self.region(body, fr, x, s, region, sk)
                    for k, (c2, s2) in sub_.items():
                        cc = mul(c, c2)
                        if k == j:
                            jo = (cc, s2) if jo is None else (add(jo[0], cc), self.join(jo[0], jo[1], s2, cc))
                        else:
                            arrive(k, mul(cond, cc), s2)
                if jo is None:
                    return out
                c, st2 = jo
                st2.f = st.f.plus_cond(c) if is_ring(c) else st.f
                cond = mul(cond, c)
                self.pc[ix] = cond
                st, bb = st2, j
                first = False
                continue
            first = False
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            blk = body.blocks[bb]
            for s in blk['s']:
                if 'rv' in s:
                    v = self.rvalue(st, fr, body, s['rv'])
                    p = s['p']
                    if len(p) == 1:
                        st.c[('l', fr, p[0])] = v
                    else:
                        self.write(st, self.lv(st, fr, p), v)
                elif 'setd' in s:
                    l = self.lv(st, fr, s['setd'])
                    o = self.read(st, l)
                    self.write(st, l, mk('enum', INT(s['v']), o.a[1] if o.op == 'enum' else ()))
            t = blk['t']
            k = t['t']
            if k == 'goto' or k == 'drop':
                nb = t['b']
            elif k == 'assert':
                c = self.val(st, self.operand(st, fr, t['c']))
                if c.op != 'weak' and is_ring(c):
                    c = c if t['exp'] else NOT(c)
                    st.f = st.f.plus_cond(c)
                    self.guard(c)
                nb = t['b']
            elif k == 'call':
                try:
                    v = self.call(st, fr, body, t)
                except Diverge:
                    return out
                if t['b'] is None:
                    return out
                p = t['p']
                if len(p) == 1:
                    st.c[('l', fr, p[0])] = v
                else:
                    self.write(st, self.lv(st, fr, p), v)
                nb = t['b']
            elif k == 'return':
                nb = RET
            elif k == 'switch':
                d = self.val(st, self.operand(st, fr, t['d']))
                if is_ring(d):
                    d = simp(d, st.f)
                br = self.branches(st, d, t)
                for b in {b for _, b in t['v']} | {t['else']} if len(br) == 1 else ():
                    if b not in flow.live and b != br[0][1]:
                        self.guard_never.add((body.path, b))
                live = [(c, b) for c, b in br if b in flow.live]
                dead = [(c, b) for c, b in br if b not in flow.live]
                for c, b in dead:
                    self.guard(NOT(c) if is_ring(c) else c, (body.path, b))
                if not live:
                    return out
                if dead and len(live) > 1 and all(is_ring(c) and c.op != 'weak' for c, b in live):
                    # the other targets never return: the live ones are complementary
                    rest_ = ONE
                    for c, b in live[:-1]:
                        rest_ = sub(rest_, c)
                    live[-1] = (rest_, live[-1][1])
                if len(live) == 1:
                    c, b = live[0]
                    if is_ring(c):
                        st.f = st.f.plus_cond(c)
                    nb = b
                else:
                    j = flow.ipdom(bb, region, frozenset(sinks))
                    jo = None
                    for c, b in live:
                        s2 = st.copy()
                        self.pc[ix] = mul(cond, c)
                        if is_ring(c):
                            s2.f = s2.f.plus_cond(c)
                        if b == j:
                            res = {j: (ONE, s2)}
                        else:
                            sk = set(sinks)
                            if j is not None:
                                sk.add(j)
                            res = self.region(body, fr, b, s2, region, sk)
                        for x, (c2, s3) in res.items():
                            cc = mul(c, c2)
                            if x == j:
                                jo = (cc, s3) if jo is None else (add(jo[0], cc), self.join(jo[0], jo[1], s3, cc))
                            else:
                                arrive(x, mul(cond, cc), s3)
                    if jo is None:
                        return out
                    c, st2 = jo
                    if is_ring(c):
                        f = st.f.plus_cond(c)
                    else:
                        f = st.f
                    st2.f = f
                    cond = mul(cond, c)
                    self.pc[ix] = cond
                    st = st2
                    nb = j
            else:
                return out      # resume / unreachable / terminate
            if nb is None:
                return out
            bb = nb

    def branches(self, st, d, t):
        vals = [(int(v), b) for v, b in t['v']]
        ty = t.get('ty') or {}
        if ty.get('k') == 'prim' and ty['s'][0] == 'i':
            n = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(ty['s'], 64)
            vals = [((v - (1 << n)) if v >> (n - 1) else v, b) for v, b in vals]
        if d.op == 'int':
            for v, b in vals:
                if d.a[0] == v:
                    return [(ONE, b)]
            return [(ONE, t['else'])]
        if d.op == 'weak' or not is_ring(d):
            out = []
            seen = set()
            for v, b in vals + [(None, t['else'])]:
                if b not in seen:
                    seen.add(b)
                    out.append((weak('branch on unknown'), b))
            return out
        out = []
        restc = ONE
        for v, b in vals:
            c = simp(EQ(d, INT(v)), st.f)
            if c is ZERO:
                continue
            if c is ONE:
                return [(ONE, b)]
            out.append((c, b))
            restc = sub(restc, c)
        if restc.op == 'ring' or restc.ind:
            restc = simp(restc, st.f)
        if restc is not ZERO:
            out.append((restc, t['else']))
        # one target reached by several values
        m = {}
        for c, b in out:
            m[b] = add(m[b], c) if b in m else c
        return [(c, b) for b, c in m.items()]

    def join(self, c0, s0, s1, c1=None):
        if s0 is s1:
            return s0
        # prefer the shorter condition as the selector
        out = State({}, s0.f)
        a, b = s0.c, s1.c
        sel, inv = c0, False
        if c1 is not None and is_ring(c1) and is_ring(c0) and c1.sz < c0.sz:
            sel, inv = c1, True
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                if v.op != 'undef':
                    out.c[k] = v
            elif w is v:
                out.c[k] = v
            elif not is_ring(sel):
                out.c[k] = weak('join on unknown condition')
            else:
                out.c[k] = merge(sel, w, v) if inv else merge(sel, v, w)
        for k, w in b.items():
            if k not in a:
                out.c[k] = w
        return out

    # ---- calls
    def tick(self):
        self.clock += 1
        return self.clock

    def call(self, st, fr, body, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['a']]
        if 'cp' in f or 'mv' in f:
            fv = self.val(st, self.operand(st, fr, f))
            return self.call_value(st, fv, args)
        fn = FnRef(f)
        dty = body.tys[t['p'][0]] if len(t['p']) == 1 else None
        sh = [self.shared_arg(body, o) for o in t['a']]
        r = self.call_fn(st, fn, args, dty, sh)
        if r.op == 'weak' and self.may_write(body.j['locals'][t['p'][0]]):
            # an unknown reference may lead into anything the arguments reach
            for a, s in zip(args, sh):
                if not s:
                    self.clobber(st, a, fn.path)
        return r

    def may_write(self, t):
        """a value of this type may carry a mutable borrow (or lock, or an unknown type)"""
        m = self.mut_cache.get(id(t))
        if m is None:
            s = repr(t)
            m = any(w in s for w in ("'mut': True", 'Mut', 'Mutex', 'RwLock', 'Cell', 'Atomic', 'Guard', "'param'", "'other'", "'deep'", 'closure', 'Closure', 'dyn'))
            self.mut_cache[id(t)] = m
        return m

    def shared_arg(self, body, o):
        """the operand is a shared reference to data without interior mutability"""
        p = o.get('cp') or o.get('mv')
        if p is None:
            return True
        if len(p) != 1:
            return False
        t = body.j['locals'][p[0]]
        if t.get('k') == 'ref' and t.get('mut'):
            return False
        if t.get('k') not in ('ref', 'adt'):
            return False
        return not self.may_write(t)

    def call_fn(self, st, fn, args, dty=None, shared=None):
        self.steps += 1
        path = fn.target
        if self.bin is not None and path.startswith('panacea::') and path[9:] in self.lib.bodies:
            path = path[9:]
        if self.stack and self.stack[0].startswith('bin::') and 'bin::' + path in self.bodies and path not in self.lib.bodies:
            path = 'bin::' + path
        s = self.specs.get(path)
        if s is not None:
            return s(self, st, args, fn)
        m = self.models.get(fn.path) or self.models.get(path)
        if m is not None:
            r = m(self, st, args, fn, dty)
            if r is not NotImplemented:
                return r
        if path in self.bodies and path not in self.opaque:
            b = self.bodies[path]
            if b.kind == 'Closure':
                rest = args[1:]
                if len(rest) == 1 and rest[0].op == 'struct' and rest[0].a[0] == 'tuple':
                    rest = [x for _, x in rest[0].a[1]]      # Fn*::call passes a tuple
                elif len(rest) == 1 and rest[0].op == 'unit':
                    rest = []
                return self.call_closure(st, path, args[0], rest)
            return self.run_fn(path, args, st)
        m = self.model_by_name(fn)
        if m is not None:
            r = m(self, st, args, fn, dty)
            if r is not NotImplemented:
                return r
        self.unknown[fn.path] = self.unknown.get(fn.path, 0) + 1
        return self.unknown_call(st, fn.path, args, shared)

    def model_by_name(self, fn):
        return None

    def unknown_call(self, st, name, args, shared=None):
        for i, a in enumerate(args):
            if not (shared and i < len(shared) and shared[i]):
                self.clobber(st, a, name)
        return weak('call ' + name)

    def clobber(self, st, a, name, depth=0):
        if a.op in ('ref', 'iteref'):
            r = self.norm(st, a, True)
            if r.op == 'ref':
                self.write(st, r, weak('clobbered by ' + name))
            elif r.op == 'iteref':
                self.clobber(st, r.a[1], name)
                self.clobber(st, r.a[2], name)
        elif a.op == 'struct' and depth < 4:
            for _, x in a.a[1]:
                self.clobber(st, x, name, depth + 1)
        elif a.op == 'isrc' and depth < 12:
            for x in a.a[1:]:
                if isinstance(x, X.T):
                    self.clobber(st, x, name, depth + 1)

    def call_value(self, st, f, args):
        """call a function value (closure struct or fn item)"""
        f = self.val(st, f) if f.op in ('ref', 'iteref') else f
        if f.op == 'struct' and isinstance(f.a[0], tuple) and f.a[0][0] == 'clo':
            c = self.box(st, f)
            return self.call_closure(st, f.a[0][1], c, args)
        if f.op == 'fn':
            return self.call_fn(st, f.a[0], args)
        self.note('call of unknown function value')
        return self.unknown_call(st, 'fn value', args + [f])

    def call_closure(self, st, path, envref, args):
        """envref: the closure value or a reference to it; args: list of the call arguments"""
        if path not in self.bodies and 'bin::' + path in self.bodies:
            path = 'bin::' + path
        body = self.bodies[path]
        e = envref
        t1 = body.tys[1]
        if t1[0] == 'ref':
            if e.op not in ('ref', 'iteref'):
                e = self.box(st, e)
        else:
            e = self.val(st, e)
        if body.argc - 1 != len(args):
            if len(args) == 1 and args[0].op in ('struct', 'unit'):
                args = [x for _, x in args[0].a[1]] if args[0].op == 'struct' else []
        return self.run_fn(path, [e] + list(args), st)

    # ---- loops
    def cfg_loop(self, body, fr, h, st, region, sinks):
        flow = body.flow
        lp = frozenset(flow.loops[h])
        exits = set()
        for x in lp:
            for y in flow.succ[x]:
                if y not in lp and y in flow.live:
                    exits.add(y)
        # drop locals that are dead at the header
        live = flow.livein[h]
        lhs = {c for c in st.c if c[0] == 'l' and c[1] == fr}
        borrowed = set()
        for c in lhs:
            if c[2] not in live and c not in self.pinned:
                pass
        dead = [c for c in lhs if c[2] not in live and not self.is_borrowed(st, c)]
        saved = {}
        for c in dead:
            saved[c] = st.c.pop(c)

        def run(s):
            snk = set(exits) | {h} | (set(sinks) - lp)
            out = self.region(body, fr, h, s, lp, snk, skip_header=h)
            latch = out.pop(h, None)
            return latch, out
        res = self.loop(st, run, None, lambda c: c[0] == 'l' and c[1] == fr and c[2] not in live)
        if res is None:
            return None
        # drop what is dead at the exits
        for x, (c, s) in res.items():
            if x in flow.livein:
                lx = flow.livein[x]
                for cc in [cc for cc in s.c if cc[0] == 'l' and cc[1] == fr and cc[2] not in lx]:
                    if not self.is_borrowed(s, cc):
                        del s.c[cc]
        return res

    def is_borrowed(self, st, cell):
        for c, v in st.c.items():
            if c != cell and cell in refs_in(v):
                return True
        return False

    def loop(self, st0, run, n=None, ignore=lambda c: False):
        """run(state) -> (latch (cond,state) or None, {exit: (cond,state)}).  n: trip count when known.
        -> {exit: (cond, state)}"""
        if self.unroll:
            r = self.unrolled(st0, run, n)
            if r is not None:
                return r
        k = fresh('k')
        self.kstack.append(k)
        self.phi0.append(next(_phi))
        self.inloop += 1
        lg = [set()]             # the stores of the final pass
        np = len(self.pc)
        if n is not None and is_ring(n):
            c = simp(X.ge0(sub(n, ONE)), st0.f)     # there is an iteration
            self.pc.append(c)
            self.ran.add(c)
        try:
            return self._loop(st0, run, n, ignore, k, lg)
        finally:
            del self.pc[np:]
            self.kstack.pop()
            self.phi0.pop()
            self.inloop -= 1
            if self.wlog:
                self.wlog[-1] |= lg[0]

    def unrolled(self, st0, run, n):
        """a loop over a list of known length, one pass per element; None when the number of passes is not fixed"""
        if n is not None and not (n.op == 'int' and n.a[0] <= 8):
            return None
        s, mark = st0.copy(), self.checkpoint()
        for i in range(9):
            if n is not None and i == n.a[0]:
                return {'end': (ONE, s)}
            latch, exits = run(s.copy())
            if latch is None or latch[0] is ZERO:
                return exits
            if latch[0] is not ONE or any(c is not ZERO for c, _ in exits.values()):
                break
            s = latch[1]
        self.rollback(mark)
        return None

    def checkpoint(self):
        return len(self.guards), list(self.events)

    def rollback(self, m):
        del self.guards[m[0]:]
        self.events[:] = m[1]

    def _loop(self, st0, run, n, ignore, k, lg):
        leaves = {}       # (cell, path) -> Leaf
        base = set(st0.c)
        trip = n
        for pas in range(40):
            st = st0.copy()
            fx = st.f.plus_ge(k)
            if trip is not None and trip.op != 'weak':
                # the header of a loop is also reached once more, when it exits
                fx = fx.plus_ge(sub(sub(trip, k), ONE) if n is not None else sub(trip, k))
            for L in leaves.values():
                cur = L.current(k)
                st.c[L.cell] = upd(st.c[L.cell], L.path, cur) if L.path else cur
            st.f = fx
            start = dict(st.c)
            self.wlog.append(set())
            try:
                latch, exits = run(st)
            finally:
                log = lg[0] = self.wlog.pop()
            if latch is None:
                return exits        # never iterates a second time
            lc, ls = latch
            new = []
            for c in base:
                if ignore(c):
                    continue
                a, b = start[c], ls.c.get(c, UNDEF)
                if a is not b:
                    self.diff(a, b, (), c, new)
            added = False
            uns0 = {k}
            for L in leaves.values():
                uns0 |= L.unsolved()
            new = [self.narrow(st0, ls, log, uns0, *x) for x in new]
            for c, p, pre, post in new:
                cov = [L for (lc_, lp_), L in leaves.items() if lc_ == c and p[:len(lp_)] == lp_]
                if cov:
                    continue
                sub_ = [q for q in leaves if q[0] == c and q[1][:len(p)] == p]
                for q in sub_:
                    del leaves[q]
                init = st0.c[c]
                for it in p:
                    init = proj(init, it)
                leaves[(c, p)] = Leaf(c, p, init, post, self.poly_cell(c, p))
                added = True
            # the length of a changed array
            for L in leaves.values():
                if L.arr and not L.lenvar:
                    post = ls.c.get(L.cell, UNDEF)
                    for it in L.path:
                        post = proj(post, it)
                    if length(post) is not L.cur_len(k):
                        L.lenvar = opq(('phi', next(_phi), 'len'))
                        added = True
            for L in leaves.values():
                if L.nest:
                    post = ls.c.get(L.cell, UNDEF)
                    for it in L.path:
                        post = proj(post, it)
                    if post.op != 'weak' and not L.nest_ok(post, fx):
                        L.nest = False
                        added = True
            if added:
                for L in leaves.values():
                    L.reset()
                continue
            # solve
            progress = False
            uns = set()
            for L in leaves.values():
                uns |= L.unsolved()
            for L in leaves.values():
                if not L.unsolved():
                    continue
                post = ls.c.get(L.cell, UNDEF)
                for it in L.path:
                    post = proj(post, it)
                # a location changed at leaf granularity only
                # (the values of this pass still mention every header unknown of the pass)
                if L.solve(post, k, uns, fx, self):
                    progress = True
            if trip is None and is_ring(lc):
                t = trip_count(simp(lc, st0.f), k, uns, st0.f)
                if t is not None:
                    trip = t
                    progress = True
            if progress:
                continue
            if uns:
                bad = [L for L in leaves.values() if L.unsolved()]
                if not any(L.forced for L in bad) and self.fix_group(leaves, bad, ls, k, st0, fx, trip):
                    continue
                if self.debug:
                    for L in bad:
                        post = ls.c.get(L.cell, UNDEF)
                        for it in L.path:
                            post = proj(post, it)
                        print('UNSOLVED', self.stack, L.cell, L.path, L.phi, 'k', k, 'arr', L.arr, 'lenvar', L.lenvar)
                        print('   init', X.show(L.init, 8))
                        print('   post', X.show(post, 12))
                for L in bad:
                    self.note('loop-carried value not summarised at %s' % (self.stack[-1:] or '?'))
                    L.force(weak('loop-carried value (%s)' % (self.stack[-1] if self.stack else '')))
                continue
            break
        else:
            for L in leaves.values():
                L.force(weak('loop'))
        if n is None and trip is None:
            trip = weak('trip count (%s)' % (self.stack[-1] if self.stack else ''))
        if n is not None:
            self.trips[k] = n
            # synthetic loop: state after n iterations
            st = st0.copy()
            for L in leaves.values():
                cur = simp_deep(L.current(n), st0.f)
                st.c[L.cell] = upd(st.c[L.cell], L.path, cur) if L.path else cur
            for c in ls.c:
                if c not in st.c and c in self.pinned:
                    st.c[c] = subst(ls.c[c], {k: n}) if n.op != 'weak' else weak('loop')
            return {'end': (ONE, st)}
        res = {}
        multi = len(exits) > 1
        kk, f = trip, st0.f
        conds = {x: ONE for x in exits}
        if multi or trip.op == 'weak':
            r = self.search(lc, exits, k, st0.f)
            if r is not None:
                kk, conds, f = r
            elif multi:
                kk = weak('loop with several exits (%s)' % self.stack[-1])
                conds = {x: weak('loop exit choice') for x in exits}
        self.trips[k] = add(kk, ONE) if multi and kk.op != 'weak' else kk
        for x, (c, s) in exits.items():
            o = State({}, f.plus_cond(conds[x]) if is_ring(conds[x]) else f)
            for cell, v in s.c.items():
                o.c[cell] = simp_deep(subst(v, {k: kk}), o.f) if k in v.fv else v
            res[x] = (conds[x], o)
        return res

    def search(self, lc, exits, k, f):
        """a loop that is left early: the number of the iteration that leaves it, and which way it leaves"""
        if not is_ring(lc) or lc.op == 'weak':
            return None
        cs = {x: simp(c, f.plus_ge(k)) for x, (c, s) in exits.items()}
        if any(c.op == 'weak' or not is_ring(c) for c in cs.values()):
            return None
        n = None
        for x, c in cs.items():
            t = trip_count(simp(NOT(c), f), k, set(), f) if c is not ZERO else None
            if t is not None:
                n = t if n is None else X.MIN(n, t, f)
        if n is None:
            # one exit: a condition with a bound among its factors
            for m, q in poly(lc).items():
                for a, e in m:
                    t = trip_count(a, k, set(), f)
                    if t is not None:
                        n = t if n is None else X.MIN(n, t, f)
                break
        if n is None or k in n.fv:
            return None
        fk = f.plus_ge(k, sub(sub(n, k), ONE))
        stop = simp(add(*cs.values()), fk)
        kk = X.first(n, k, stop)
        if kk.op == 'weak':
            return None
        f2 = f.plus_ge(kk, sub(n, kk))
        out = {}
        inner = [x for x, c in cs.items() if simp(c, fk) is not ZERO]
        for x, c in cs.items():
            if inner == [x] and len(cs) == 2:
                out[x] = simp(LT(kk, n), f2)          # the only way out before the bound
            elif x not in inner:
                out[x] = simp(NOT(LT(kk, n)), f2) if len(cs) - len(inner) == 1 else None
            else:
                out[x] = simp(subst(c, {k: kk}), f2)
            if out[x] is None:
                return None
        if len(out) == 1:
            out = {x: ONE for x in out}
        return kk, out, f2

    def narrow(self, st0, ls, log, uns, cell, path, pre, post):
        """all stores to the location of this pass go through the same loop-invariant element: track that element"""
        while True:
            nxt = set()
            for c, p in log:
                if c != cell or p[:min(len(p), len(path))] != path[:min(len(p), len(path))]:
                    continue
                if len(p) <= len(path):
                    return cell, path, pre, post
                nxt.add(p[len(path)])
            if len(nxt) != 1:
                return cell, path, pre, post
            it, = nxt
            if not (isinstance(it, tuple) and it[0] == 'i' and not (it[1].fv & uns) and it[1].op != 'weak'
                    and all(v in self.kstack or (v.op == 'opq' and isinstance(v.a[0], tuple) and v.a[0][0] == 'phi'
                                                 and v.a[0][1] < self.phi0[-1]) for v in it[1].fv)):
                return cell, path, pre, post
            path = path + (it,)
            pre, post = proj(pre, it), proj(post, it)

    def fix_group(self, leaves, bad, ls, k, st0, fx, trip=None):
        """locations whose recurrences have no closed form: their values are the iterates of the loop body"""
        post, names = {}, {}
        for L in bad:
            p = ls.c.get(L.cell, UNDEF)
            for it in L.path:
                p = proj(p, it)
            if p.op in ('undef', 'ref', 'iteref', 'fn', 'clo') or p.wk or L.init.wk or L.init.op in ('ref', 'iteref') or p.sz > FOLD_MAX:
                continue
            if not L.phi_ok() or L.iter_elem(ZERO) is not None:
                continue
            post[L] = p
        own = {}
        for L in bad:
            for v in L.unsolved():
                own[v] = L
        deps = {}
        for L, p in post.items():
            vs = {v for v in p.fv if v in own}
            if L.lenvar is not None and L.lensol is None:
                vs |= {v for v in length(p).fv if v in own}
            deps[L] = {own[v] for v in vs}
        while True:
            drop = [L for L in deps if not deps[L] <= set(deps)]
            if not drop:
                break
            for L in drop:
                del deps[L]
        if not deps:
            return False
        for L in deps:
            seen, todo = [], [L]
            while todo:
                x = todo.pop(0)
                if x not in seen:
                    seen.append(x)
                    todo += sorted(deps[x], key=lambda y: (repr(y.ty), y.init.id, y.order()))
            seen = [L] + sorted(seen[1:], key=lambda y: (repr(y.ty), y.init.id, y.order()))
            comps = []
            for x in seen:
                comps.append((x.phi, x.ty, x.init, post[x]))
            for x in seen:
                if x.lenvar is not None and x.lensol is None:
                    comps.append((x.lenvar, ('prim', 'usize'), length(x.init), length(post[x])))
            S = fresh('s')
            mp = {v: proj(S, ('st', j, ty, v.ps)) for j, (v, ty, _, _) in enumerate(comps)}
            steps = mk('list', *[simp_deep(subst(p, mp), fx) for _, _, _, p in comps])
            if steps.wk:
                continue
            lam = X.close_lam(trip if trip is not None and trip.op != 'weak' and k not in trip.fv else X.UNIT, k, X.close_lam(X.UNIT, S, steps))
            inits = mk('list', *[i for _, _, i, _ in comps])

            def comp(j):
                v, ty, i, _ = comps[j]
                t = mk('app', 'fold', INT(j), k, inits, lam)
                if ty is not None and t not in X.TY:
                    X.TY[t] = ty
                    X.note_sort(t, ty)
                t.ps = t.ps or v.ps
                t.ind = t.ind or v.ind
                return t
            L.fold = (comp(0), comp(len(seen) + [x for x in seen if x.lenvar is not None and x.lensol is None].index(L))
                      if L.lenvar is not None and L.lensol is None else None)
        done = False
        for L in deps:
            f = L.__dict__.pop('fold', None)
            if f is None:
                continue
            done = True
            if f[1] is not None:
                L.lensol = (k, f[1])
            if L.arr:
                x = fresh('x')
                ln = L.cur_len(k)
                e = proj(f[0], ('i', x))
                if L.nest:
                    w = fresh('x')
                    e = close_arr(length(proj(L.init, ('i', x))), w, proj(e, ('i', w)))
                L.sol = (k, mk('arr', ln, X._close(x, e, ln)))
            else:
                L.sol = (k, f[0])
            self.folds += 1
        return done

    def diff(self, a, b, path, cell, out):
        if a is b:
            return
        if a.op == 'struct' or b.op == 'struct':
            s = a if a.op == 'struct' else b
            o = b if s is a else a
            if o.op == 'struct' and (o.a[0] != s.a[0] or [n for n, _ in o.a[1]] != [n for n, _ in s.a[1]]):
                out.append((cell, path, a, b))
                return
            if o.op in ('struct', 'opq', 'fld', 'idx', 'pay', 'key', 'app', 'xp'):
                for n, _ in s.a[1]:
                    self.diff(proj(a, n), proj(b, n), path + (n,), cell, out)
                return
        if a.op == 'fvec' and b.op == 'fvec':
            self.diff(a.a[0], b.a[0], path + ('fp',), cell, out)
            return
        out.append((cell, path, a, b))

    # synthetic loop used by iterator consumers
    def foreach(self, st, n, body):
        """body(st, k) runs one iteration with index term k.  Mutates st."""
        n = simp(n, st.f) if is_ring(n) else n
        if n is ZERO:
            return
        cnt = self.new_cell(st, ZERO)

        def run(s):
            kk = s.c[cnt]
            try:
                body(s, kk)
            except Diverge:
                return None, {}
            s.c[cnt] = add(kk, ONE)
            return (ONE, s), {}
        r = self.loop(st, run, n)
        if 'end' not in r:
            raise Diverge()
        s2 = r['end'][1]
        st.c = s2.c
        st.c.pop(cnt, None)

    def build_array(self, st, n, elem):
        """collect: elem(st,k) for k<n"""
        acc = self.new_cell(st, mk('list'))

        def body(s, k):
            v = elem(s, k)
            self.push(s, ref(acc), v)
        self.foreach(st, n, body)
        v = st.c.pop(acc)
        return v

    def push(self, st, r, v):
        o = self.val(st, self.read(st, r))
        r = self.norm(st, r, True)
        self.write(st, r, push(o, v))


def push(o, v):
    if o.op == 'list':
        return mk('list', *(o.a + (v,)))
    if o.op == 'weak':
        return o
    ln = length(o)
    if ln.op == 'weak':
        return ln
    return mk_arr(add(ln, ONE), lambda x: merge(LT(x, ln), proj(o, ('i', x)), v))


def refs_in(v, memo={}):
    r = memo.get(v)
    if r is not None:
        return r
    out = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.op == 'ref':
                out.add(x.a[0])
                st.extend(x.a[1])
                continue
            if x.op in ('ring', 'int', 'ge0', 'eq0', 'opq', 'sv', 'bv'):
                continue
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    out = frozenset(out)
    memo[v] = out
    return out


class FnRef:
    __slots__ = ('path', 'target', 'args', 'name', 'local', 'trait', 'j', 'reskind')
    _c = {}

    def __new__(cls, o):
        r = o.get('res')
        key = (o['path'], r['path'] if r else None, str(o.get('args')))
        x = cls._c.get(key)
        if x is None:
            x = object.__new__(cls)
            from ir import conv_ty
            x.path = o['path']
            x.target = r['path'] if r and r['kind'] in ('item',) else o['path']
            x.reskind = r['kind'] if r else None
            x.args = [conv_ty(a) for a in o.get('args', [])]
            x.name = o['name']
            x.local = o.get('local')
            x.trait = o.get('trait')
            x.j = o
            cls._c[key] = x
        return x

    def __repr__(self):
        return self.target


# ---------------------------------------------------------------- recurrences
_phi = itertools.count()


class Leaf:
    """a location changed by a loop: header value as a function of the iteration number"""

    def __init__(self, cell, path, init, post, is_poly=False):
        self.cell, self.path, self.init = cell, path, init
        self.is_poly = is_poly
        self.arr = (init.op in ('list', 'arr') or is_arrayish(init) or post.op in ('list', 'arr')) and init.op != 'undef'
        self.lenvar = None
        self.ty = shape(post) if shape(post) and shape(post) != ('slice', None) else shape(init)
        if init.op != 'undef' and X.TY.get(init) is not None:
            self.ty = X.TY[init]
        self.forced = False
        self.nest = False
        if self.arr and not (init.op == 'list' and not init.a) and self.iter_elem(ZERO) is None:
            e = proj(init, ('i', fresh('x')))
            self.nest = is_arrayish(e) and not (e.op == 'list' and not e.a)
        self.reset()

    def reset(self):
        self.phi = opq(('phi', next(_phi), ''), self.ty)
        if self.init.ps or self.ty == POLY or self.is_poly:
            self.phi.ps = True
        self.sol = None        # (kvar, term)
        self.lensol = None

    def cur_len(self, k):
        if self.lenvar is None:
            return length(self.init)
        if self.lensol is not None:
            return subst(self.lensol[1], {self.lensol[0]: k})
        return self.lenvar

    def current(self, k):
        if self.sol is not None:
            return subst(self.sol[1], {self.sol[0]: k}) if self.sol[0] is not k else self.sol[1]
        if self.arr:
            v = fresh('x')
            ln = self.cur_len(k)
            if ln.op == 'weak':
                return ln
            e = proj(self.phi, ('i', v))
            it = self.iter_elem(v)
            if it is not None:
                e = with_pos(it, proj(e, 'pos'))
            elif self.nest:
                w = fresh('x')
                e = close_arr(length(proj(self.init, ('i', v))), w, proj(e, ('i', w)))
            return mk('arr', ln, X._close(v, e, ln))
        return self.phi

    def phi_ok(self):
        return self.init.op != 'undef' or self.ty is not None

    def order(self):
        return (str(self.cell[0]), repr(self.path))

    def iter_elem(self, v):
        """elements that are iterators: only the position is assumed to change"""
        if self.init.op == 'arr' or (self.init.op == 'list' and self.init.a):
            e = proj(self.init, ('i', v))
            if e.op == 'struct' and e.a[0] == 'Iter':
                return e
        return None

    def nest_ok(self, post, fx):
        """the lengths of the inner arrays are loop-invariant"""
        x = fresh('x')
        f2 = fx.plus_ge(x, sub(sub(length(post), x), ONE))
        a = length(proj(post, ('i', x)))
        b = length(proj(self.init, ('i', x)))
        return is_ring(a) and is_ring(b) and simp(a, f2) is simp(b, f2)

    def unsolved(self):
        s = set()
        if self.sol is None:
            s.add(self.phi)
            if self.lenvar is not None and self.lensol is None:
                s.add(self.lenvar)
        return s

    def appended(self, e, f, i, x, k, uns, fx, f2, ln):
        """each iteration appends elements and leaves the earlier ones alone"""
        cl = self.cur_len(k)
        if not is_ring(cl) or not is_ring(ln):
            return None
        if self.lenvar is not None:
            ln = subst(ln, {self.lenvar: cl})
        m = simp_deep(sub(ln, cl), fx)            # how many of them
        if m.fv & uns or m is ZERO:
            return None
        l0 = subst(cl, {k: ZERO})
        if not same(simp_deep(e, fx.plus_ge(x, sub(sub(cl, x), ONE))), f):
            return None
        if m is ONE:
            y, n = None, simp_deep(subst(e, {x: cl}), fx)
        elif binary(m):
            y, n = None, simp_deep(subst(e, {x: cl}), fx.plus_cond(m))
        else:
            y = fresh('x')
            n = simp_deep(subst(e, {x: add(cl, y)}), fx.plus_ge(y, sub(sub(m, y), ONE)))
        if n.fv & uns or n.op == 'weak':
            return None
        z = sub(x, l0)
        fz = Facts().plus_ge(x, sub(sub(cl, x), ONE))
        if k not in m.fv:
            g = z if m is ONE else X.div(z, m)
            mp = {k: g} if y is None else {k: g, y: X.rem(z, m)}
        else:
            h = fresh('x')
            g = X.first(k, h, simp(LT(x, subst(cl, {k: add(h, ONE)})), fx.plus_ge(h)))
            mp = {k: g}
            if y is not None:
                mp[y] = sub(x, subst(cl, {k: g}))
            fz = fz.plus_ge(g, sub(sub(k, g), ONE))
        n = simp_deep(subst(n, mp), fz)
        if l0 is not ZERO:
            n = merge(LT(x, l0), i, n)
        if n.op == 'weak':
            return None
        self.sol = (k, close_arr(cl, x, n))
        return True

    def force(self, w):
        self.sol = (fresh('k'), w)
        self.forced = True

    def solve(self, post, k, uns, fx, E):
        if post.op == 'weak':
            return False
        if self.arr:
            prog = False
            ln = length(post)
            if self.lenvar is not None and self.lensol is None:
                s = ring_rule(ln, self.lenvar, length(self.init), k, uns, fx, None)
                if s is None:
                    return False
                self.lensol = (k, s)
                return True
            x = fresh('x')
            f2 = fx.plus_ge(x, sub(sub(ln, x), ONE))
            e = proj(post, ('i', x))
            f = proj(self.phi, ('i', x))
            it = self.iter_elem(x)
            if it is not None:
                if e.op != 'struct' or proj(e, 'src') is not proj(it, 'src') or proj(e, 'len') is not proj(it, 'len'):
                    return False
                f = with_pos(it, proj(f, 'pos'))
            L0 = length(self.init)
            known = fx.plus_ge(x, sub(sub(L0, x), ONE))
            if self.init.op == 'list' and not self.init.a:
                i = oob(e)
            else:
                i = proj(self.init, ('i', x))
            if self.lensol is not None:
                s = self.appended(e, f, i, x, k, uns, fx, f2, ln)
                if s is not None:
                    return s
            ctx = Own(self.phi, self.init, [('i', x)], k, self.cur_len(k), E)
            s = elem_rule(e, f, i, k, uns, f2, ctx)
            if s is None:
                return False
            curln = self.cur_len(k)
            f3 = fx.plus_ge(x, sub(sub(curln, x), ONE))
            s = simp_deep(s, f3)
            self.sol = (k, close_arr(curln, x, s))
            return True
        s = elem_rule(post, self.phi, self.init, k, uns, fx, Own(self.phi, self.init, [], k, None, E))
        if s is None:
            return False
        self.sol = (k, s)
        return True


def binary(t):
    """a product of conditions or the negation of one"""
    p = dict(poly(t)) if is_ring(t) else {}
    k = p.pop((), 0)
    return len(p) == 1 and all(a.ind for m in p for a, e in m) and (k, list(p.values())[0]) in ((0, 1), (1, -1))


def with_pos(it, pos):
    return mk_struct('Iter', tuple((n, pos if n == 'pos' else x) for n, x in it.a[1]))


def same(e, f):
    if e is f:
        return True
    if e.op == 'struct':
        return all(same(x, proj(f, n)) for n, x in e.a[1])
    return False


def oob(e):
    """placeholder for an element that does not exist yet; must vanish from any result"""
    if e.op == 'struct':
        return mk_struct(e.a[0], tuple((n, oob(x)) for n, x in e.a[1]))
    if e.op in ('arr', 'list') or is_arrayish(e):
        return opq(('oob', next(_phi)), shape(e))
    t = opq(('oob', next(_phi)), shape(e))
    t.ps = e.ps
    return t


def simp_deep(v, f):
    """simplify the ring leaves of a structured value by facts"""
    if v.op == 'struct':
        return mk_struct(v.a[0], tuple((n, simp_deep(x, f)) for n, x in v.a[1]))
    if v.op == 'enum':
        return X.enum_eta(simp_deep(v.a[0], f), tuple((vi, tuple((n, simp_deep(x, f)) for n, x in fs)) for vi, fs in v.a[1]))
    if v.op == 'list':
        return mk('list', *[simp_deep(x, f) for x in v.a])
    if v.op == 'fvec':
        return mk('fvec', simp_deep(v.a[0], f))
    if v.op == 'arr':
        y = fresh('x')
        b = X.arr_body(v, y)
        ln = simp(v.a[0], f)
        return close_arr(ln, y, simp_deep(b, f.plus_ge(y, sub(sub(ln, y), ONE))))
    if v.op == 'ite':
        return merge(simp_deep(v.a[0], f), simp_deep(v.a[1], f), simp_deep(v.a[2], f))
    if v.op == 'iteref':
        c = simp(v.a[0], f)
        if c is ONE:
            return v.a[1]
        if c is ZERO:
            return v.a[2]
        return v
    if is_ring(v):
        return simp(v, f)
    return v


class Own:
    """describes the array location an element rule is about"""

    def __init__(self, phi, init, items, k, ln, E):
        self.phi, self.init, self.items, self.k, self.ln, self.E = phi, init, items, k, ln, E

    def plus(self, it):
        return Own(self.phi, self.init, self.items + [it], self.k, self.ln, self.E)


def elem_rule(P, f, init, k, uns, fx, ctx):
    if P is f:
        return init
    if P.op == 'weak' or init.op == 'weak':
        return None
    if P.op == 'struct':
        out = []
        for n, x in P.a[1]:
            s = elem_rule(x, proj(f, n), proj(init, n) if init.op != 'undef' else UNDEF, k, uns, fx, ctx.plus(n))
            if s is None:
                return None
            out.append((n, s))
        return mk_struct(P.a[0], tuple(out))
    if (P.op in ('arr', 'list') or is_arrayish(P)) and init.op != 'undef':
        if not (P.fv & uns):
            pass
        ln = length(P)
        fl = length(f)
        il = length(init)
        sl = ring_rule(ln, fl, il, k, uns, fx, ctx.plus('len')) if ln is not fl else il
        if sl is None or sl.op == 'weak':
            return None
        y = fresh('x')
        s = elem_rule(proj(P, ('i', y)), proj(f, ('i', y)), proj(init, ('i', y)), k, uns,
                      fx.plus_ge(y, sub(sub(ln, y), ONE)), ctx.plus(('i', y)))
        if s is None:
            return None
        return close_arr(sl, y, s)
    if P.op == 'enum':
        if not (P.fv & uns):
            if init.op == 'undef':
                return subst(P, {k: sub(k, ONE)})
            return merge(EQ(k, ZERO), init, subst(P, {k: sub(k, ONE)}))
        return None
    if P.op in ('ref', 'iteref', 'unit', 'fn', 'str'):
        if not (P.fv & (uns | {k})):
            return P if init.op in ('undef', P.op) and (init is P or init.op == 'undef') else None
        return None
    if init.op == 'undef':
        if not (P.fv & uns):
            return subst(P, {k: sub(k, ONE)})
        return None
    if P.op == 'app' and P.a[0] == 'fadd' and f in P.a[1:]:
        # a running float sum, in the order of the iterations
        g = P.a[2] if P.a[1] is f else P.a[1]
        if not (g.fv & uns):
            t = fresh('t')
            s = app('fsum', close_arr(k, t, subst(g, {k: t})))
            return s if init.op == 'flt' and float(init.a[0]) == 0 else None
        return None
    if is_ring(P):
        return ring_rule(P, f, init, k, uns, fx, ctx)
    if not (P.fv & uns):
        return merge(EQ(k, ZERO), init, subst(P, {k: sub(k, ONE)}))
    return None


def lin_in(t, k):
    """t = c*k + r with integer c and r free of k -> c, else None"""
    if not is_ring(t):
        return None
    p = poly(t)
    c = p.get(((k, 1),), 0)
    r = X.rmk({m: x for m, x in p.items() if m != ((k, 1),)})
    if k in r.fv:
        return None
    return c


def ring_rule(P, f, init, k, uns, fx, ctx):
    if not is_ring(P) or not is_ring(f) or not is_ring(init):
        return None
    P = simp(P, fx)
    D = sub(P, f)
    if D is ZERO:
        return init
    if D.op == 'weak':
        return None
    if not (D.fv & uns):
        return accum(init, D, k, fx)
    if not (P.fv & uns):
        return merge(EQ(k, ZERO), init, subst(P, {k: sub(k, ONE)}))
    # geometric
    g = geometric(P, f, init, k, uns)
    if g is not None:
        return g
    g = overwritten(P, f, init, k, uns, fx)
    if g is not None:
        return g
    if ctx is None:
        return None
    g = extremum(P, f, init, k, uns)
    if g is not None:
        return g
    # stores through an index that is injective in k
    Dn = own_rewrite(D, f, init, k, uns, fx, ctx)
    if Dn is not None and not (Dn.fv & uns):
        return accum(init, Dn, k, fx)
    return None


def accum(init, D, k, fx):
    t = fresh('t')
    d = subst(D, {k: t})
    f2 = fx.plus_ge(t, sub(sub(k, t), ONE))
    s = close_sum(k, t, d, f2)
    return add(init, s)


def geometric(P, f, init, k, uns):
    p = poly(P)
    if f.op == 'opq':
        ok_ = p and all(any(a is f and e == 1 for a, e in m) for m in p)
        if ok_:
            q = X.rmk({tuple((a, e) for a, e in m if a is not f): c for m, c in p.items()})
            if not (q.fv & uns):
                if q.op == 'int' and q.a[0] > 0 and (q.a[0] & (q.a[0] - 1)) == 0:
                    return mul(init, pow2(scale(k, q.a[0].bit_length() - 1)))
                if q.op == 'pow2' and k not in q.fv:
                    return mul(init, pow2(mul(k, q.a[0])))
                if q.op == 'xpow' and k not in q.fv:
                    return mul(init, xpow(mul(k, q.a[0])))
        if P.op == 'div' and P.a[0] is f:
            b = P.a[1]
            if b.op == 'int' and b.a[0] > 0 and (b.a[0] & (b.a[0] - 1)) == 0:
                return div(init, pow2(scale(k, b.a[0].bit_length() - 1)))
    return None


def overwritten(P, f, init, k, uns, fx):
    """x = g(k) where a condition on k holds, else kept: the value stored last"""
    if f.op != 'opq':
        return None
    q, r = {}, {}
    for m, c in poly(P).items():
        if (f, 1) in m:
            q[tuple((a, e) for a, e in m if a is not f)] = c
        else:
            r[m] = c
    R, c = X.rmk(r), sub(ONE, X.rmk(q))
    if c.op == 'int' or (c.fv | R.fv) & uns or not binary(c):
        return None
    if len(poly(c)) == 1 and c.ind and c.op == 'eq0':
        # every m-th pass
        for m in [a for mm in poly(c.a[0]) for a, _ in mm]:
            if m.op == 'rem' and m.a[0] is k and m.a[1].op == 'int' and m.a[1].a[0] > 0:
                n = m.a[1]
                w = sub(c.a[0], m)
                w = neg(w) if w.op == 'int' else None
                if w is None or not 0 <= w.a[0] < n.a[0]:
                    continue
                j = add(mul(n, div(sub(sub(k, ONE), w), n)), w)
                v = subst(R, {k: j})
                return merge(LT(w, k), v, init)
    t = fresh('t')
    h = X.first(k, t, subst(c, {k: sub(sub(k, ONE), t)}))
    if h.op == 'weak':
        return None
    return merge(LT(h, k), subst(R, {k: sub(sub(k, ONE), h)}), init)


def extremum(P, f, init, k, uns):
    """running maximum / minimum"""
    for m in poly(P):
        for a, e in m:
            if a.op == 'ge0' and f in a.a[0].fv:
                p = poly(a.a[0])
                c = p.get(((f, 1),), 0)
                if c not in (1, -1):
                    continue
                r = X.rmk({mm: cc for mm, cc in p.items() if mm != ((f, 1),)})
                if f in r.fv:
                    continue
                base = neg(r) if c == 1 else r
                for g in (base, add(base, ONE), sub(base, ONE)):
                    if g.fv & uns:
                        continue
                    d = sub(g, f)
                    # P = max(f,g) in either strictness
                    for nm, forms in (('maxover', (add(f, mul(d, ge0(d))), add(f, mul(d, LT(f, g))))),
                                      ('minover', (add(f, mul(d, NOT(ge0(d)))), add(f, mul(d, LT(g, f)))))):
                        if any(P is q for q in forms):
                            t = fresh('t')
                            return app(nm, init, close_arr(k, t, subst(g, {k: t})))
    for m in poly(P):
        for a, e in m:
            if a.op == 'app' and a.a[0] in ('min', 'max') and f in a.a[1:] and P is a:
                g = a.a[2] if a.a[1] is f else a.a[1]
                if not (g.fv & uns):
                    t = fresh('t')
                    return app(a.a[0] + 'over', init, close_arr(k, t, subst(g, {k: t})))
    return None


def own_rewrite(D, f, init, k, uns, fx, ctx):
    """rewrite reads of the loop's own array/polynomial in the increment D to initial values, when
    every iteration writes an element no earlier iteration wrote"""
    tt = fresh('t')
    return own_rw(D, f, init, k, tt, uns, fx, fx.plus_ge(tt, sub(sub(k, tt), ONE)), {}, ctx)


def own_map(m, xs, phi, k):
    """element variables pinned by the equalities of monomial m: x -> index written"""
    mapping = {}
    for a, e in m:
        if a.op != 'eq0':
            continue
        for x in xs:
            if x not in a.fv or x in mapping:
                continue
            p = poly(a.a[0])
            cx = p.get(((x, 1),), 0)
            if cx in (1, -1):
                r = X.rmk({mm: cc for mm, cc in p.items() if mm != ((x, 1),)})
                if any(y in r.fv for y in xs):
                    continue
                idx = neg(r) if cx == 1 else r
                if phi in idx.fv:
                    continue
                mapping[x] = idx
    return mapping


def own_rw(D, f, init, k, tt, uns, fx, fpast, ren, ctx):
    """ren: variables bound by enclosing sums -> the copies used for earlier iterations"""
    phi = ctx.phi
    out = []
    others = uns - {phi}
    xs = [it[1] for it in ctx.items if isinstance(it, tuple) and it[0] == 'i']
    D = eqify(D, xs, fx)
    pre = []
    for m, c in poly(D).items():
        mt = from_mono(m, c)
        if phi in mt.fv:
            # the element variable equals the stored index here: use one spelling
            mapping = own_map(m, xs, phi, k)
            if mapping:
                def fn0(path, rng):
                    v = phi
                    for it in path:
                        if isinstance(it, tuple) and it[0] == 'i':
                            it = ('i', mapping.get(it[1], it[1]))
                        v = proj(v, it)
                    return v
                r = rewrite_reads(mt, phi, fn0)
                mt = mt if r is None else r
        pre.append(mt)
    D = add(*pre)
    for m, c in poly(D).items():
        mt = from_mono(m, c)
        if not (mt.fv & uns):
            out.append(mt)
            continue
        if mt.fv & others:
            return None
        past = dict(ren)
        past[k] = tt
        mapping = own_map(m, xs, phi, k)
        pastm = {x: subst(w, past) for x, w in mapping.items()}
        inj = bool(mapping) and tuples_differ(ctx.E, {x: w for x, w in mapping.items()}, pastm, fpast)
        if inj:
            def fn(path, rng):
                # rewrite a read of phi at `path`
                own = True
                newp = []
                R = {}
                for j, it in enumerate(path):
                    oi = ctx.items[j] if j < len(ctx.items) else None
                    if isinstance(it, tuple) and it[0] == 'i' and isinstance(oi, tuple) and oi[0] == 'i':
                        x = oi[1]
                        if it[1] is x or (x in mapping and sub(mapping[x], it[1]) is ZERO):
                            newp.append(('i', x))
                            R[x] = mapping.get(x, x)
                            continue
                        own = False
                        R[x] = it[1]
                        newp.append(it)
                    else:
                        newp.append(it)
                if own or tuples_differ(ctx.E, R, pastm, fpast.plus_ge(*rng)):
                    v = ctx.init
                    if v.op == 'list' and not v.a:
                        return None if not own else own_init(f, init, newp, ctx)
                    for it in newp:
                        v = proj(v, it)
                    return v
                return None
            r = rewrite_reads(mt, phi, fn)
            if r is None:
                return None
            out.append(r)
            continue
        # the store is inside a sum over an inner index
        sums = [(a, e) for a, e in m if a.op == 'sum' and any(x in a.fv for x in xs)]
        if len(sums) == 1 and sums[0][1] == 1:
            s = sums[0][0]
            h, h2 = fresh('t'), fresh('t')
            hi = s.a[0]
            body = mul(from_mono(tuple((a, e) for a, e in m if a is not s), c), X.sum_body(s, h))
            r1 = sub(sub(hi, h), ONE)
            r2 = subst(sub(sub(hi, h2), ONE), past)
            f1 = fx.plus_ge(h, r1)
            f2 = fpast.plus_ge(h, r1, h2, r2)
            ren2 = dict(ren)
            ren2[h] = h2
            r = own_rw(body, f, init, k, tt, uns, f1, f2, ren2, ctx)
            if r is None:
                return None
            out.append(close_sum(hi, h, r, fx))
            continue
        # polynomial coefficient / Fourier slot stores
        xp = [a for a, e in m if a.op in ('xpow', 'fslot')]
        if len(xp) == 1 and lin_in(xp[0].a[0], k):
            e0 = xp[0].a[0]
            kind = 'coef' if xp[0].op == 'xpow' else 'fc'
            bad = [False]

            def fnc(node):
                i = node.a[1]
                if i is e0 or fpast.decide_term(eq0(sub(i, subst(e0, {k: tt})))) == 0:
                    return (coef if kind == 'coef' else fc)(init, i)
                bad[0] = True
                return node
            r = rewrite_coef(mt, f, kind, fnc)
            if r is None or bad[0] or (r.fv & uns):
                return None
            out.append(r)
            continue
        return None
    return add(*out) if out else ZERO


def tuples_differ(E, R, W, f):
    """index tuples R and W (element variable -> index) differ under facts f"""
    for x, w in W.items():
        if x in R and f.distinct(R[x], w, E.injective):
            return True
    # quotient and remainder by the same divisor determine the dividend
    ks = [x for x in W if x in R]
    for x in ks:
        a, b = R[x], W[x]
        if a.op == 'div' and b.op == 'div' and a.a[1] is b.a[1]:
            for y in ks:
                c, d = R[y], W[y]
                if c.op == 'rem' and d.op == 'rem' and c.a[0] is a.a[0] and d.a[0] is b.a[0] \
                        and c.a[1] is d.a[1] is a.a[1] and f.distinct(a.a[0], b.a[0], E.injective):
                    return True
    return False


def own_init(f, init, newp, ctx):
    # value of the (not yet existing) own element: projections of the placeholder
    base = [it for it in ctx.items]
    if len(newp) == len(base) and all(a == b for a, b in zip(newp, base)):
        return init
    return None


def eqify(D, xs, fx):
    """[x >= A] with x <= A known is [x == A]"""
    rep = {}
    for m in poly(D):
        for a, e in m:
            if a.op == 'ge0' and any(x in a.fv for x in xs):
                d = a.a[0]
                if fx.nonneg(neg(d)):
                    rep[a] = eq0(d)
                elif fx.nonneg(add(d, ONE)):
                    # d >= -1: [d>=0] = 1 - [d+1==0]
                    rep[a] = NOT(eq0(add(d, ONE)))
    if not rep:
        return D
    out = []
    for m, c in poly(D).items():
        r = INT(c)
        for a, e in m:
            r = mul(r, *([rep.get(a, a)] * e)) if e > 0 else mul(r, from_mono(((a, e),)))
        out.append(r)
    return add(*out)


def rewrite_reads(t, phi, fn):
    """replace maximal projection chains rooted at phi by fn(path); None on failure"""
    memo = {}
    fail = [False]
    rng = []            # ranges of the enclosing binders

    def chain(u):
        path = []
        while u.op in ('idx', 'fld', 'mask', 'body', 'key'):
            if u.op == 'idx':
                path.append(('i', u.a[1]))
            elif u.op == 'fld':
                path.append(u.a[1])
            elif u.op == 'key':
                path.append(('k', u.a[1]))
            else:
                path.append(u.op)
            u = u.a[0]
        return (u, path[::-1])

    def go(u):
        if fail[0] or phi not in u.fv:
            return u
        r = memo.get(u)
        if r is not None:
            return r
        if u.op in ('idx', 'fld', 'mask', 'body', 'key') or u is phi:
            root, path = chain(u)
            if root is phi:
                path = [(it[0], go(it[1])) if isinstance(it, tuple) else it for it in path]
                v = fn(path, rng) if path else None
                if v is None:
                    fail[0] = True
                    return u
                memo[u] = v
                return v
        if u.op == 'ring':
            out = []
            for m, c in u.a[0]:
                x = INT(c)
                for a, e in m:
                    y = go(a)
                    x = mul(x, *([y] * e)) if e > 0 else mul(x, from_mono(((y, e),)))
                out.append(x)
            r = add(*out)
        elif u.op in X.BINDERS:
            v = fresh('x')
            ln = go(u.a[0])
            if is_ring(u.a[0]):
                rng.append(sub(sub(u.a[0], v), ONE))
                rng.append(v)
            b = go(subst(u.a[1], {mk('bv', u.h): v}))
            if is_ring(u.a[0]):
                rng.pop()
                rng.pop()
            r = X.close(u.op, ln, v, b)
        else:
            a = [walk(z) for z in u.a]
            r = X.rebuild(u.op, a, u)
        memo[u] = r
        return r

    def walk(z):
        if isinstance(z, T):
            return go(z)
        if isinstance(z, tuple):
            return tuple(walk(y) for y in z)
        return z
    r = go(t)
    return None if fail[0] else r


def rewrite_coef(t, f, kind, fn):
    memo = {}

    def go(u):
        if not isinstance(u, T):
            if isinstance(u, tuple):
                return tuple(go(y) for y in u)
            return u
        r = memo.get(u)
        if r is not None:
            return r
        if u.op == kind and u.a[0] is f:
            r = fn(u)
        elif u.op == 'ring':
            out = []
            for m, c in u.a[0]:
                x = INT(c)
                for a, e in m:
                    y = go(a)
                    x = mul(x, *([y] * e)) if e > 0 else mul(x, from_mono(((y, e),)))
                out.append(x)
            r = add(*out)
        elif not u.fv or u.op in ('opq', 'sv', 'bv', 'int', 'ref'):
            r = u
        elif u.op in X.BINDERS:
            v = fresh('x')
            b = go(subst(u.a[1], {mk('bv', u.h): v}))
            ln = go(u.a[0])
            r = X.close(u.op, ln, v, b)
        else:
            r = X.rebuild(u.op, [go(z) for z in u.a], u)
        memo[u] = r
        return r
    return go(t)


def trip_count(c, k, uns, f):
    """number of leading k for which the 0/1 term c(k) is 1"""
    if c.fv & uns or c.op == 'weak':
        return None
    if c is ONE:
        return None
    ns = []
    p = poly(c)
    facs = None
    if len(p) == 1:
        (m, x), = p.items()
        if x != 1:
            return None
        facs = [(a, True) for a, e in m]
    elif len(p) == 2 and p.get((), 0) == 1:
        (m, x), = [(m, x) for m, x in p.items() if m != ()]
        if x == -1 and len(m) == 1:
            facs = [(m[0][0], False)]
    if facs is None:
        return None
    for a, pos in facs:
        if k not in a.fv:
            return None
        if a.op != 'ge0':
            if a.op == 'eq0' and not pos:
                # while e(k) != 0, e linear with slope -1/+1
                d = a.a[0]
                s = lin_in(d, k)
                if s in (1, -1):
                    r = subst(d, {k: ZERO})
                    ns.append(r if s == -1 else neg(r))
                    continue
            return None
        d = a.a[0]
        s = lin_in(d, k)
        if s is None:
            return None
        d0 = subst(d, {k: ZERO})
        if pos and s < 0:
            n = add(div(d0, INT(-s)), ONE) if s != -1 else add(d0, ONE)
        elif not pos and s > 0:
            # d0 + s*k < 0
            n = neg(d0) if s == 1 else add(div(sub(neg(d0), ONE), INT(s)), ONE)
        else:
            return None
        ns.append(n)
    if not ns:
        return None
    n = ns[0]
    for x in ns[1:]:
        n = X.MIN(n, x, f)
    if f.nonneg(n):
        return n
    return X.MAX(n, ZERO, f)
