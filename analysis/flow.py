"""Structural flow analyses over the exported MIR: call graph, lock states, dominance, and secrecy (taint) propagation."""
import re
import ir

SECRET_KEYS = re.compile(r'SecretKey')
GUARD = re.compile(r'(MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard)$')


def tybits(t):
    """every constructor path / primitive inside a type"""
    if t is None:
        return
    k = t[0]
    if k == 'adt':
        yield ('adt', t[1])
        for a in t[2]:
            yield from tybits(a)
    elif k in ('slice', 'array', 'ref'):
        yield from tybits(t[1])
    elif k == 'tuple':
        for a in t[1]:
            yield from tybits(a)
    else:
        yield t


def deref(t):
    while t and t[0] == 'ref':
        t = t[1]
    return t


class Site:
    __slots__ = ('body', 'blk', 't', 'f')

    def __init__(self, body, blk, t):
        self.body, self.blk, self.t, self.f = body, blk, t, t['f']

    @property
    def path(self):
        f = self.f
        if f.get('c') != 'fn':
            return ''
        r = f.get('res')
        return (r or f)['path']

    @property
    def decl(self):
        return self.f.get('path', '') if self.f.get('c') == 'fn' else ''

    @property
    def name(self):
        return self.f.get('name', '') if self.f.get('c') == 'fn' else ''

    @property
    def line(self):
        return self.t.get('ln', '')

    def __repr__(self):
        return '%s at %s' % (self.path, self.line)


def operands(b):
    """every operand of a body"""
    for i in b.flow.reach:
        if i == ir.RET:
            continue
        bl = b.blocks[i]
        for s in bl['s']:
            if 'rv' in s:
                yield from rv_ops(s['rv'])
        t = bl['t']
        if t['t'] == 'call':
            yield t['f']
            yield from t['a']
        elif t['t'] == 'switch':
            yield t['d']
        elif t['t'] == 'assert':
            yield t['c']


def rv_ops(r):
    k = r['r']
    if k in ('use', 'cast', 'repeat'):
        return [r['o']]
    if k == 'bin':
        return [r['a'], r['b']]
    if k == 'un':
        return [r['a']]
    if k == 'agg':
        return list(r['o'])
    return []


class Graph:
    def __init__(self, C):
        self.C = C
        self.bodies = dict(C.lib.bodies)
        if C.binc:
            for p, b in C.binc.bodies.items():
                self.bodies.setdefault('bin::' + p, b)
        self.impls = {}
        for p, b in self.bodies.items():
            if b.impltrait:
                self.impls.setdefault((b.impltrait, p.rsplit('::', 1)[-1]), []).append(p)
        self.sites = {}
        self.succ = {}
        for p, b in self.bodies.items():
            ss = []
            for i in sorted(x for x in b.flow.reach if x != ir.RET):
                t = b.blocks[i]['t']
                if t['t'] == 'call':
                    ss.append(Site(b, i, t))
            self.sites[p] = ss
            out = set()
            for s in ss:
                out |= self.targets(s)
            for o in operands(b):
                if o.get('c') == 'fn':
                    out |= self.fn_targets(o)
            for c in self.closures(b):
                out.add(c)
            self.succ[p] = out
        self.pred = {}
        for p, o in self.succ.items():
            for q in o:
                self.pred.setdefault(q, set()).add(p)

    def qual(self, p, binary):
        q = 'bin::' + p if binary else p
        return q if q in self.bodies else (p if p in self.bodies else None)

    def fn_targets(self, f):
        out = set()
        r = f.get('res')
        p = (r or f)['path']
        for q in (p, f['path']):
            if q in self.bodies:
                out.add(q)
                break
            if 'bin::' + q in self.bodies:
                out.add('bin::' + q)
                break
            if q.startswith('panacea::') and q[9:] in self.bodies:
                out.add(q[9:])
                break
        if not out and f.get('trait') and (not r or r.get('kind') == 'virtual'):
            # a method of a type parameter: any implementation in this crate
            out |= set(self.impls.get((f['trait'], f.get('name')), []))
        return out

    def targets(self, s):
        return self.fn_targets(s.f) if s.f.get('c') == 'fn' else set()

    def closures(self, b):
        out = []
        for i in b.flow.reach:
            if i == ir.RET:
                continue
            for s in b.blocks[i]['s']:
                if 'rv' in s and s['rv']['r'] == 'agg' and s['rv']['k'].get('a') == 'closure':
                    p = s['rv']['k']['path']
                    q = p if p in self.bodies else 'bin::' + p
                    if q in self.bodies:
                        out.append(q)
        return out

    def reach(self, roots):
        seen = set(r for r in roots if r in self.bodies)
        st = list(seen)
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def route(self, roots, goal):
        """a call path from a root to goal"""
        prev = {r: None for r in roots if r in self.bodies}
        st = list(prev)
        while st:
            x = st.pop(0)
            if x == goal:
                out = []
                while x:
                    out.append(x)
                    x = prev[x]
                return ' -> '.join(reversed(out))
            for y in sorted(self.succ[x]):
                if y not in prev:
                    prev[y] = x
                    st.append(y)
        return goal

    def summary(self, base):
        """least fixpoint of per-function sets over the call graph: base[p] joined with the callees' sets"""
        out = {p: set(base.get(p, ())) for p in self.bodies}
        work = list(self.bodies)
        while work:
            p = work.pop()
            n = set(base.get(p, ()))
            for q in self.succ[p]:
                n |= out[q]
            if n != out[p]:
                out[p] = n
                work.extend(self.pred.get(p, ()))
        return out


def graph(C):
    if not hasattr(C, '_graph'):
        C._graph = Graph(C)
    return C._graph


# ------------------------------------------------------------------------------------------------ locks
def lock_class(ty):
    """(class, mode) of a guard type"""
    p = ty[1].rsplit('::', 1)[-1]
    inner = repr([x for x in tybits(('tuple', ty[2]))])
    return (inner, {'MutexGuard': 'x', 'RwLockReadGuard': 'r', 'RwLockWriteGuard': 'w'}.get(p, 'x'))


def guard_types(ty):
    """guards owned by a value of this type"""
    if ty is None:
        return []
    if ty[0] == 'adt':
        if GUARD.search(ty[1]):
            return [lock_class(ty)]
        out = []
        for a in ty[2]:
            out += guard_types(a)
        return out
    if ty[0] == 'tuple':
        out = []
        for a in ty[1]:
            out += guard_types(a)
        return out
    return []


ACQ = ('lock', 'read', 'write', 'try_lock', 'try_read', 'try_write')


def acquisition(s):
    p = s.decl
    if s.name in ACQ and ('Mutex' in p or 'RwLock' in p) and 'std::' in p:
        ty = s.body.tys[s.t['p'][0]]
        g = guard_types(ty)
        if g:
            return g[0]
    return None


PAR_OK = ('current_thread_index', 'max_num_threads', 'current_num_threads')


def parallel(s):
    p = s.decl
    if not p.startswith('rayon') and 'rayon' not in p:
        return False
    return s.name not in PAR_OK


class Locks:
    """forward may-analysis: which guard-owning locals are initialised at each call"""

    def __init__(self, g):
        self.g = g
        base = {}
        par = {}
        self.acq_sites = []
        for p, ss in g.sites.items():
            for s in ss:
                a = acquisition(s)
                if a:
                    base.setdefault(p, set()).add(a)
                    self.acq_sites.append((p, s, a))
                if parallel(s):
                    par.setdefault(p, set()).add((p, s.line, s.name))
        self.acq = g.summary(base)
        self.par = g.summary(par)
        self.edges = []       # (function, line, held, acquired)
        self.par_held = []    # (function, line, held, parallel op)
        self.nsites = 0
        for p, b in g.bodies.items():
            self.scan(p, b)

    def scan(self, p, b):
        own = {i for i, t in enumerate(b.tys) if guard_types(t)}
        if not own:
            return
        f = b.flow
        inn = {0: frozenset()}
        work = [0]
        while work:
            i = work.pop()
            if i == ir.RET:
                continue
            h = self.step(b, i, set(inn[i]), own)
            for y in f.succ.get(i, []):
                o = inn.get(y)
                n = frozenset(h) | (o or frozenset())
                if o is None or n != o:
                    inn[y] = n
                    work.append(y)
        for i in inn:
            if i == ir.RET:
                continue
            h = set(inn[i])
            for s in b.blocks[i]['s']:
                self.stmt(b, s, h, own)
            t = b.blocks[i]['t']
            if t['t'] != 'call':
                continue
            s = Site(b, i, t)
            held = []
            moved = {o['mv'][0] for o in t['a'] if 'mv' in o and len(o['mv']) == 1}
            for l in h:
                if l not in moved:
                    held += guard_types(b.tys[l])
            # a guard moved into the call is held during it unless the call only passes it on
            if not (s.name in ('unwrap', 'expect', 'drop', 'unwrap_or_else', 'into', 'from', 'map', 'ok', 'into_inner')):
                for l in moved & h:
                    held += guard_types(b.tys[l])
            if not held:
                continue
            self.nsites += 1
            a = acquisition(s)
            got = {a} if a else set()
            pars = {(p, s.line, s.name)} if parallel(s) else set()
            for q in self.g.targets(s):
                got |= self.acq[q]
                pars |= self.par[q]
            for q in self.closure_args(b, t):
                got |= self.acq[q]
                pars |= self.par[q]
            for x in got:
                for y in held:
                    self.edges.append((p, s.line, y, x, s))
            for x in pars:
                self.par_held.append((p, s.line, held[0], x))

    def closure_args(self, b, t):
        out = []
        for o in t['a']:
            pl = o.get('cp') or o.get('mv')
            if pl:
                for x in tybits(b.tys[pl[0]]):
                    if x[0] in ('closure', 'fndef'):
                        for q in (x[1], 'bin::' + x[1]):
                            if q in self.g.bodies:
                                out.append(q)
            elif o.get('c') == 'fn':
                out += list(self.g.fn_targets(o))
        return out

    def stmt(self, b, s, h, own):
        if 'sd' in s:
            h.discard(s['sd'])
        if 'rv' in s:
            for o in rv_ops(s['rv']):
                if 'mv' in o and len(o['mv']) == 1:
                    h.discard(o['mv'][0])
                elif 'mv' in o and o['mv'][0] in own and not any(x == '*' for x in o['mv'][1:]):
                    h.discard(o['mv'][0])
            if s['p'][0] in own and len(s['p']) == 1 and s['rv']['r'] in ('use', 'agg'):
                h.add(s['p'][0])

    def step(self, b, i, h, own):
        for s in b.blocks[i]['s']:
            self.stmt(b, s, h, own)
        t = b.blocks[i]['t']
        if t['t'] == 'drop' and len(t['p']) == 1:
            h.discard(t['p'][0])
        elif t['t'] == 'call':
            for o in t['a']:
                if 'mv' in o and o['mv'][0] in own and '*' not in o['mv'][1:]:
                    h.discard(o['mv'][0])
            if t['p'][0] in own and len(t['p']) == 1:
                h.add(t['p'][0])
        return h


# ------------------------------------------------------------------------------------------------ locks only one thread can reach
class Own:
    """backward def-use walk: is the lock acquired at a site the element of a table selected by the number of the
    current pool thread?  Such a lock is only ever taken by that thread, so no other thread waits for it."""
    PASS = ('deref', 'deref_mut', 'clone', 'as_ref', 'borrow', 'unwrap', 'expect', 'into', 'from', 'copied', 'cloned')

    def __init__(self, g):
        self.g = g
        self.defs = {}
        self.callers = {}
        self.creators = {}
        for p, ss in g.sites.items():
            for s in ss:
                for q in g.targets(s):
                    self.callers.setdefault(q, []).append(s)
        for p, b in g.bodies.items():
            for i in b.flow.reach:
                if i == ir.RET:
                    continue
                for s in b.blocks[i]['s']:
                    if 'rv' in s and s['rv']['r'] == 'agg' and s['rv']['k'].get('a') == 'closure':
                        q = s['rv']['k']['path']
                        for q in (q, 'bin::' + q):
                            if q in g.bodies:
                                self.creators.setdefault(q, []).append((p, s['rv']['o']))
        self.handed = {}
        self.busy = set()

    def deflist(self, p):
        if p not in self.defs:
            d = {}
            b = self.g.bodies[p]
            for i in b.flow.reach:
                if i == ir.RET:
                    continue
                for s in b.blocks[i]['s']:
                    if 'rv' in s:
                        d.setdefault(s['p'][0], []).append(('s', s))
                t = b.blocks[i]['t']
                if t['t'] == 'call':
                    d.setdefault(t['p'][0], []).append(('c', t))
            self.defs[p] = d
        return self.defs[p]

    def parallel_below(self, p, k):
        """may the closure k, created in p, run on another thread than p?"""
        if p not in self.handed:
            out = set()
            for q in self.g.bodies:
                if q == p or q.startswith(p + '::{closure'):
                    for s in self.g.sites[q]:
                        if parallel(s):
                            for o in s.t['a']:
                                pl = o.get('cp') or o.get('mv')
                                for x in tybits(s.body.tys[pl[0]]) if pl else ():
                                    if x[0] == 'closure':
                                        out |= {y for y in (x[1], 'bin::' + x[1]) if y in self.g.bodies}
            self.handed[p] = self.g.reach(out)
        return k in self.handed[p]

    def operand(self, p, o, goal):
        pl = o.get('cp') or o.get('mv')
        return self.place(p, pl, goal) if pl else False

    def place(self, p, pl, goal):
        """goal 'tid': the value is the thread number; goal 'own': the place is an element selected by it"""
        key = (p, repr(pl), goal)
        if key in self.busy:
            return False
        self.busy.add(key)
        try:
            return self.place_(p, pl, goal)
        finally:
            self.busy.discard(key)

    def place_(self, p, pl, goal):
        b = self.g.bodies[p]
        l, proj = pl[0], pl[1:]
        for e in reversed(proj):
            if isinstance(e, dict) and 'i' in e:
                return goal == 'own' and self.place(p, [e['i']], 'tid')
        flds = [e for e in proj if e != '*']
        ds = self.deflist(p).get(l, [])
        if 1 <= l <= b.argc:
            if ds:
                return False
            if b.kind == 'Closure':
                if l != 1 or len(flds) != 1 or not isinstance(flds[0], int):
                    return False
                cr = self.creators.get(p, [])
                return bool(cr) and all(not self.parallel_below(q, p) and flds[0] < len(os) and self.operand(q, os[flds[0]], goal)
                                        for q, os in cr)
            cs = self.callers.get(p, [])
            return bool(cs) and not flds and not b.pub and all(l - 1 < len(s.t['a']) and self.operand(self.name(s), s.t['a'][l - 1], goal) for s in cs)
        if not ds:
            return False
        return all(self.definition(p, d, flds, goal) for d in ds)

    def name(self, s):
        return next(p for p, b in self.g.bodies.items() if b is s.body)

    def definition(self, p, d, flds, goal):
        if d[0] == 's':
            s = d[1]
            if len(s['p']) != 1:
                return False
            r = s['rv']
            if r['r'] in ('use', 'cast'):
                pl = r['o'].get('cp') or r['o'].get('mv')
            elif r['r'] == 'ref':
                pl = r['p']
            else:
                pl = None
            if not pl:
                return False
            return self.place(p, pl + flds, goal)
        t = d[1]
        s = Site(self.g.bodies[p], -1, t)
        if flds and not all(isinstance(f, dict) or f == 0 for f in flds):
            return False
        if s.name == 'current_thread_index' and 'rayon' in s.decl:
            return goal == 'tid'
        if goal == 'own' and s.name in ('index', 'index_mut', 'get', 'get_mut') and len(t['a']) == 2:
            return self.operand(p, t['a'][1], 'tid')
        if s.name in self.PASS and t['a']:
            return self.operand(p, t['a'][0], goal)
        return False


def private_classes(g, L):
    """lock classes all of whose acquisitions are of the current thread's own element"""
    w = Own(g)
    out = {}
    for p, s, a in L.acq_sites:
        o = w.operand(p, s.t['a'][0], 'own')
        out[a[0]] = out.get(a[0], True) and o
    return {c for c, v in out.items() if v}
