"""Secrecy propagation: which values depend on ciphertext contents (interprocedural, flow-insensitive per local).

Levels: 0 public; 1 holds ciphertext contents (coefficients are secret, sizes are not); 2 a size, index, flag or
decision computed from ciphertext contents.  The level of a local is the join over everything stored in it or
borrowed from it; parameters join over all call sites, results over all returns."""
import re
import ir
import flow
from flow import Site, rv_ops, deref, tybits

CIPHER = re.compile(r'(RLWECiphertext|RGSWCiphertext|LWECiphertext|GlweCiphertext|GgswCiphertext|LweCiphertext|FourierPolynomial|'
                    r'Polynomial|PolynomialList|GlweMask|GlweBody|GlweList|LweList|Tensor|KeyswitchKey)$')
COEF = ('u64', 'i64', 'f64', 'u128', 'i128', 'u32', 'i32', 'f32')
INDEX = ('usize', 'isize', 'bool', 'u8', 'char')
DECIDE = re.compile(r'^(eq|ne|lt|le|gt|ge|cmp|partial_cmp|is_zero|is_one|contains|starts_with|ends_with|is_sorted|is_nan|is_sign_negative|is_sign_positive|'
                    r'is_power_of_two|total_cmp|max|min|clamp|position|rposition|binary_search|partition_point|any|all|find|filter|leading_zeros|trailing_zeros|'
                    r'count_ones|count_zeros|ilog2|sum|product|checked_.*|to_usize|try_into|try_from|to_bits)$')
COLLECT = re.compile(r'^(max_by|min_by|max_by_key|min_by_key|sort.*|dedup.*|retain|take_while|skip_while|partition|filter_map|find_map|rev_by|group_by|chunk_by|split)$')


def is_cipher_ty(t):
    return any(x[0] == 'adt' and CIPHER.search(x[1]) for x in tybits(t))


def prim(t):
    return t[1] if t and t[0] == 'prim' else None


def prims(t):
    return {x[1] for x in tybits(t) if x[0] == 'prim'}


def named(t):
    return {x[1].rsplit('::', 1)[-1] for x in tybits(t) if x[0] == 'adt'}


class Taint:
    def __init__(self, C, g, fns, public=()):
        self.C, self.g, self.fns = C, g, fns
        self.lv = {p: [0] * len(g.bodies[p].tys) for p in fns}
        self.why = {}
        self.up = {}              # closure -> level of its captures (field -> level)
        self.public = public
        self.ret = {p: 0 for p in fns}
        for p in fns:
            b = g.bodies[p]
            for i, t in enumerate(b.tys):
                if i and t and is_cipher_ty(t):
                    self.lv[p][i] = 1
        self.changed = True
        n = 0
        while self.changed and n < 60:
            self.changed = False
            n += 1
            for p in fns:
                self.body(p)

    def raise_(self, p, l, v, why=''):
        if v > self.lv[p][l]:
            self.lv[p][l] = v
            self.why.setdefault((p, l), why)
            self.changed = True

    # level of a place
    def place(self, p, pl):
        b = self.g.bodies[p]
        v = self.lv[p][pl[0]]
        t = b.tys[pl[0]]
        # projections by public structures drop the level
        for j, e in enumerate(pl[1:]):
            t = deref(t) if e != '*' else (t[1] if t and t[0] == 'ref' else t)
            if e == '*':
                continue
            if t and t[0] == 'closure' and isinstance(e, int):
                v = self.up.get((t[1], e), self.up.get(('bin::' + t[1], e), 0))
                t = None
                # the remaining projections are of an unknown type: keep the level
                continue
            if isinstance(e, int) and t and t[0] == 'adt':
                a = self.C.lib.adts.get(t[1])
                fs = a['variants'][0]['fields'] if a else None
                if fs and e < len(fs) and len(a['variants']) == 1:
                    t2 = ir.conv_ty(fs[e]['ty'])
                    v = self.clip(v, t2)
                    t = t2
                else:
                    t = None
            elif isinstance(e, int) and t and t[0] == 'tuple' and e < len(t[1]):
                t = t[1][e]
                v = self.clip(v, t)
            elif isinstance(e, dict) and 'i' in e and t and t[0] in ('slice', 'array'):
                t = t[1]
                v = self.clip(v, t)
            else:
                t = None
        return v

    def clip(self, v, t):
        """level 1 means coefficients are secret: a component without any is public"""
        if v == 1 and t is not None and not is_cipher_ty(t):
            ps = prims(t)
            if not (ps & set(COEF)) and not any(x[0] in ('param', 'other', 'deep') for x in tybits(t)) \
                    and not any(x[0] == 'adt' and not x[1].startswith(('alloc::', 'core::', 'std::')) and x[1] not in self.C.lib.adts
                                and re.search('fft|math|crypto', x[1]) and not SIZES.search(x[1]) for x in tybits(t)):
                return 0
        return v

    def op(self, p, o):
        pl = o.get('cp') or o.get('mv')
        if pl:
            return self.place(p, pl)
        return 0

    def opty(self, p, o):
        pl = o.get('cp') or o.get('mv')
        if pl and len(pl) == 1:
            return self.g.bodies[p].tys[pl[0]]
        if pl:
            return None
        return ir.conv_ty(o['ty']) if 'ty' in o else None

    def store(self, p, pl, v, why=''):
        b = self.g.bodies[p]
        t = b.tys[pl[0]]
        if len(pl) == 1:
            v = self.fit(v, t)
        self.raise_(p, pl[0], v, why)

    def fit(self, v, t):
        if v == 1 and t is not None:
            k = prim(t)
            if k in INDEX:
                return 0
            return self.clip(v, t)
        return v

    def body(self, p):
        b = self.g.bodies[p]
        for i in b.flow.reach:
            if i == ir.RET:
                continue
            bl = b.blocks[i]
            for s in bl['s']:
                if 'rv' not in s:
                    continue
                r = s['rv']
                k = r['r']
                v = 0
                if k in ('use', 'repeat'):
                    v = self.op(p, r['o'])
                elif k == 'cast':
                    v = self.op(p, r['o'])
                    st, dt = self.opty(p, r['o']), ir.conv_ty(r['ty'])
                    if v >= 1 and prim(dt) in INDEX:
                        v = 2
                elif k == 'bin':
                    x, y = self.op(p, r['a']), self.op(p, r['b'])
                    v = max(x, y)
                    if v == 1 and r['op'] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                        v = 2
                elif k == 'un':
                    v = self.op(p, r['a'])
                    if r['op'] == 'PtrMetadata':
                        v = 0 if v < 2 else 2
                elif k == 'ref':
                    v = self.place(p, r['p'])
                    # a mutable borrow lets callees store into the owner
                    if r.get('k') == 'mut':
                        w = self.lv[p][s['p'][0]]
                        if w == 2:
                            self.raise_(p, r['p'][0], w, 'stored through a borrow')
                elif k == 'discr':
                    v = self.place(p, r['p'])
                    v = 2 if v == 2 else 0
                elif k == 'agg':
                    vs = [self.op(p, o) for o in r['o']]
                    if r['k'].get('a') == 'closure':
                        c = r['k']['path']
                        for n, x in enumerate(vs):
                            if x > self.up.get((c, n), 0):
                                self.up[(c, n)] = x
                                self.changed = True
                        v = max(vs or [0])
                        v = 1 if v == 2 else v
                    else:
                        v = max(vs or [0])
                self.store(p, s['p'], v, s.get('ln', ''))
            t = bl['t']
            if t['t'] == 'call':
                self.call(p, b, i, t)
        self.ret[p] = max(self.ret[p], self.lv[p][0])

    def call(self, p, b, i, t):
        s = Site(b, i, t)
        vs = [self.op(p, o) for o in t['a']]
        tg = [q for q in self.g.targets(s) if q in self.lv]
        dt = b.tys[t['p'][0]] if len(t['p']) == 1 else None
        clos = [q for q in closure_args(self.g, b, t) if q in self.lv]
        if tg:
            v = 0
            for q in tg:
                c = self.g.bodies[q]
                for n, x in enumerate(vs):
                    if n + 1 <= c.argc:
                        # locals passed by reference into a body keep their own types' levels
                        self.raise_(q, n + 1, self.fit(x, c.tys[n + 1]), 'argument at %s' % t['ln'])
                v = max(v, self.lv[q][0])
            self.store(p, t['p'], v, 'result of %s' % s.path)
            for q in tg:
                c = self.g.bodies[q]
                for n, o in enumerate(t['a']):
                    if n + 1 <= c.argc and self.lv[q][n + 1] == 2 and b_mut(c, n + 1):
                        pl = o.get('cp') or o.get('mv')
                        if pl:
                            self.raise_(p, pl[0], 2, 'stored by %s' % q)
            return
        # closure call through Fn traits or external code
        m = max(vs or [0])
        if s.name in ('call', 'call_mut', 'call_once') and clos:
            # arguments arrive as a tuple
            for q in clos:
                c = self.g.bodies[q]
                for n in range(2, c.argc + 1):
                    self.raise_(q, n, self.fit(m, c.tys[n]), 'argument at %s' % t['ln'])
            self.store(p, t['p'], max(self.lv[q][0] for q in clos), 'result of a closure')
            return
        for q in clos:
            c = self.g.bodies[q]
            for n in range(2, c.argc + 1):
                self.raise_(q, n, self.fit(m, c.tys[n]), 'argument at %s' % t['ln'])
            m = max(m, min(self.lv[q][0], 2))
        v = m
        if dt is not None and v == 1:
            names = named(dt)
            ps = prims(dt)
            if DECIDE.match(s.name) and (ps & {'bool', 'usize', 'isize'} or 'Ordering' in names or s.name in ('find', 'filter')):
                # comparing secret data; comparing sizes (no secret operand type) does not count
                v = 2 if any(self.secret_operand(p, o) for o in t['a']) else 0
            elif prim(dt) in INDEX:
                v = 2 if any(prim(deref(self.opty(p, o) or ('x',))) in COEF and self.op(p, o) for o in t['a']) else 0
            else:
                v = self.fit(v, dt)
        self.store(p, t['p'], v, 'result of %s at %s' % (s.path, t['ln']))
        # &mut arguments of external code may receive the other arguments' contents
        if m == 2 and not clos:
            for n, o in enumerate(t['a']):
                pl = o.get('cp') or o.get('mv')
                if pl and mutref(b, pl[0]) and s.name in ('push', 'insert', 'extend', 'append', 'replace', 'swap', 'write', 'add_assign', 'sub_assign'):
                    self.raise_(p, pl[0], 2, 'stored by %s' % s.path)

    def secret_operand(self, p, o):
        v = self.op(p, o)
        if not v:
            return False
        if v == 2:
            return True
        t = self.opty(p, o)
        if t is None:
            return True
        d = deref(t)
        # iterators and containers of coefficients / ciphertexts, or a coefficient
        return bool(prims(d) & set(COEF)) or is_cipher_ty(d)

    # ---- sinks
    def sinks(self):
        out = []
        n = 0
        for p in sorted(self.fns):
            b = self.g.bodies[p]
            for i in sorted(x for x in b.flow.reach if x != ir.RET):
                bl = b.blocks[i]
                for s in bl['s']:
                    if 'rv' not in s:
                        continue
                    r = s['rv']
                    for pl, ln in _places(s):
                        for e in pl[1:]:
                            if isinstance(e, dict) and 'i' in e:
                                n += 1
                                if self.lv[p][e['i']] == 2:
                                    out.append((p, s['ln'], 'array index', self.expl(p, e['i'])))
                    if r['r'] == 'bin' and r['op'] in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
                        n += 1
                        if self.op(p, r['b']) >= 1:
                            out.append((p, s['ln'], 'shift amount', ''))
                    if r['r'] == 'bin' and r['op'] in ('Div', 'Rem') and max(self.op(p, r['a']), self.op(p, r['b'])) == 2:
                        out.append((p, s['ln'], 'division', ''))
                t = bl['t']
                if t['t'] == 'switch':
                    n += 1
                    if self.op(p, t['d']) >= 1:
                        pl = t['d'].get('cp') or t['d'].get('mv')
                        out.append((p, t['ln'], 'branch', self.expl(p, pl[0]) if pl else ''))
                elif t['t'] == 'assert':
                    n += 1
                    if t['k'] not in ('overflow',) and self.op(p, t['c']) == 2:
                        out.append((p, t['ln'], 'check', ''))
                elif t['t'] == 'call':
                    s = Site(b, i, t)
                    n += 1
                    if any(q in self.lv for q in self.g.targets(s)):
                        continue
                    clos = [q for q in closure_args(self.g, b, t) if q in self.lv]
                    for q in clos:
                        if self.lv[q][0] == 2:
                            out.append((p, t['ln'], 'decision of a closure passed to %s' % s.name, self.expl(q, 0)))
                    for o in t['a']:
                        pl = o.get('cp') or o.get('mv')
                        if pl and self.op(p, o) == 2 and prim(deref(self.opty(p, o) or ('x',))) in INDEX and not passive(s):
                            out.append((p, t['ln'], 'size or index argument of %s' % s.path, self.expl(p, pl[0])))
        return out, n

    def expl(self, p, l):
        return self.why.get((p, l), '')


SIZES = re.compile(r'(PolynomialSize|PolynomialCount|GlweSize|GlweDimension|LweSize|LweDimension|DecompositionBaseLog|DecompositionLevelCount|PlaintextCount|'
                   r'MonomialDegree|DispersionParameter|LogStandardDev|Variance|StandardDev|Count|Size|Index)$')


def passive(s):
    return s.name in ('clone', 'fmt', 'new_display', 'new_debug', 'push', 'drop', 'from', 'into', 'as_ref', 'borrow')


def _places(s):
    yield s['p'], ''
    r = s['rv']
    if r['r'] in ('ref', 'discr', 'rawptr'):
        yield r['p'], ''
    for o in rv_ops(r):
        pl = o.get('cp') or o.get('mv')
        if pl:
            yield pl, ''


def b_mut(c, i):
    j = c.j['locals'][i]
    return j.get('k') == 'ref' and j.get('mut')


def mutref(b, i):
    return b_mut(b, i)


def closure_args(g, b, t):
    out = []
    for o in [t['f']] + t['a']:
        pl = o.get('cp') or o.get('mv')
        if pl:
            for x in tybits(b.tys[pl[0]]):
                if x[0] in ('closure', 'fndef'):
                    for q in (x[1], 'bin::' + x[1]):
                        if q in g.bodies:
                            out.append(q)
        elif o.get('c') == 'fn' and o is not t['f']:
            out += list(g.fn_targets(o))
    return out
