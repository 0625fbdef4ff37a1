"""Loading of the MIR export and the per-body flow facts (reachability, loops, post-dominators, liveness)."""
import json

RET = 'ret'      # virtual exit block


def conv_ty(j):
    if j is None:
        return None
    k = j['k']
    if k == 'adt':
        return ('adt', j['path'], tuple(conv_ty(a) for a in j.get('args', [])))
    if k in ('slice', 'array'):
        return (k, conv_ty(j['e'])) + ((j.get('n'),) if k == 'array' else ())
    if k in ('ref', 'ptr'):
        return ('ref', conv_ty(j['e']))
    if k == 'tuple':
        return ('tuple', tuple(conv_ty(a) for a in j['args']))
    if k == 'param':
        return ('param', j['s'])
    if k == 'closure' or k == 'fndef':
        return (k, j['path'])
    if k == 'prim':
        return ('prim', j['s'])
    return ('other', j.get('s', k))


class Body:
    def __init__(self, j):
        self.j = j
        self.path = j['path']
        self.kind = j['kind']
        self.argc = j['argc']
        self.span = j['span']
        self.blocks = j['blocks']
        self.tys = [conv_ty(t) for t in j['locals']]
        self.names = {int(k): v for k, v in j['names'].items()}
        self.parent = j.get('parent')
        self.pub = j.get('pub', False)
        self.implself = j.get('implself')
        self.impltrait = j.get('impltrait')
        self.derived = j.get('derived', False)
        self._flow = None

    @property
    def flow(self):
        if self._flow is None:
            self._flow = Flow(self)
        return self._flow


def succs(t):
    k = t['t']
    if k in ('goto', 'drop', 'assert'):
        return [t['b']]
    if k == 'call':
        return [t['b']] if t['b'] is not None else []
    if k == 'switch':
        r = []
        for _, b in t['v']:
            if b not in r:
                r.append(b)
        if t['else'] not in r:
            r.append(t['else'])
        return r
    if k == 'return':
        return [RET]
    return []


def place_uses(p, uses):
    """locals read by using place p (base included)"""
    uses.add(p[0])
    for e in p[1:]:
        if isinstance(e, dict) and 'i' in e:
            uses.add(e['i'])


def op_uses(o, uses):
    if 'cp' in o:
        place_uses(o['cp'], uses)
    elif 'mv' in o:
        place_uses(o['mv'], uses)


def rv_uses(r):
    u = set()
    k = r['r']
    if k in ('use', 'cast', 'repeat'):
        op_uses(r['o'], u)
    elif k in ('ref', 'rawptr', 'discr'):
        place_uses(r['p'], u)
    elif k == 'bin':
        op_uses(r['a'], u)
        op_uses(r['b'], u)
    elif k == 'un':
        op_uses(r['a'], u)
    elif k == 'agg':
        for o in r['o']:
            op_uses(o, u)
    return u


class Flow:
    def __init__(self, b):
        self.b = b
        bl = b.blocks
        self.succ = {i: succs(x['t']) for i, x in enumerate(bl) if not x['cleanup']}
        self.succ[RET] = []
        # reachable
        seen = {0}
        st = [0]
        while st:
            x = st.pop()
            for y in self.succ.get(x, []):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        self.reach = seen
        # blocks that can return
        pred = {}
        for x in seen:
            for y in self.succ.get(x, []):
                pred.setdefault(y, []).append(x)
        self.pred = pred
        live = {RET} if RET in seen else set()
        st = list(live)
        while st:
            x = st.pop()
            for y in pred.get(x, []):
                if y not in live:
                    live.add(y)
                    st.append(y)
        self.live = live      # not diverging
        self._dom()
        self._loops()
        self._liveness()
        self.pdom_memo = {}

    def _dom(self):
        order = []
        seen = set()

        def dfs(r):
            stack = [(r, iter(self.succ.get(r, [])))]
            seen.add(r)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(self.succ.get(y, []))))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        self.rpo = {x: i for i, x in enumerate(rpo)}
        dom = {0: {0}}
        allb = set(rpo)
        for x in rpo[1:]:
            dom[x] = allb
        ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                ps = [dom[p] for p in self.pred.get(x, []) if p in dom]
                n = set.intersection(*ps) | {x} if ps else {x}
                if n != dom[x]:
                    dom[x] = n
                    ch = True
        self.dom = dom

    def _loops(self):
        self.loops = {}
        for x in self.reach:
            for y in self.succ.get(x, []):
                if y in self.dom.get(x, ()):     # back edge x->y
                    body = self.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z not in body:
                            body.add(z)
                            st.extend(self.pred.get(z, []))

    def ipdom(self, x, region, sinks):
        """immediate post-dominator of x in the sub-graph `region` whose leaving edges go to sinks.
        Diverging blocks are ignored.  None when there is none before the common virtual end."""
        key = (x, id(region), tuple(sinks))
        r = self.pdom_memo.get(key, 0)
        if r != 0:
            return r
        # all blocks reachable from x inside region
        seen = {x}
        st = [x]
        sc = {}
        while st:
            y = st.pop()
            out = []
            for z in self.succ.get(y, []):
                if z not in self.live:
                    continue
                if z in sinks or z not in region:
                    out.append(('S', z))
                else:
                    out.append(z)
                    if z not in seen:
                        seen.add(z)
                        st.append(z)
            sc[y] = out
        END = ('END',)
        nodes = set(seen)
        sn = {z for o in sc.values() for z in o if isinstance(z, tuple)}
        allx = nodes | sn | {END}
        pd = {n: allx for n in allx}
        pd[END] = {END}
        for s in sn:
            pd[s] = {s, END}
        order = sorted(nodes, key=lambda n: -self.rpo.get(n, 0))
        ch = True
        while ch:
            ch = False
            for n in order:
                ps = [pd[z] for z in sc[n]]
                new = (set.intersection(*ps) if ps else set(allx)) | {n}
                if new != pd[n]:
                    pd[n] = new
                    ch = True
        cand = pd[x] - {x, END}
        best = None
        for c in cand:
            # immediate = the one post-dominated by all the others
            if all(o == c or o in pd[c] for o in cand):
                best = c
                break
        if isinstance(best, tuple):
            best = best[1]
        self.pdom_memo[key] = best
        return best

    def _liveness(self):
        bl = self.b.blocks
        gen, kill = {}, {}
        for i in self.reach:
            if i == RET:
                continue
            g, k = set(), set()

            def use(u):
                g.update(x for x in u if x not in k)
            for s in bl[i]['s']:
                if 'rv' in s:
                    use(rv_uses(s['rv']))
                    p = s['p']
                    if len(p) == 1:
                        k.add(p[0])
                    else:
                        u = set()
                        place_uses(p, u)
                        use(u)
                elif 'setd' in s:
                    u = set()
                    place_uses(s['setd'], u)
                    use(u)
            t = bl[i]['t']
            if t['t'] == 'switch':
                u = set()
                op_uses(t['d'], u)
                use(u)
            elif t['t'] == 'assert':
                u = set()
                op_uses(t['c'], u)
                use(u)
            elif t['t'] == 'call':
                u = set()
                op_uses(t['f'], u)
                for a in t['a']:
                    op_uses(a, u)
                p = t['p']
                if len(p) > 1:
                    place_uses(p, u)
                use(u)
                if len(p) == 1:
                    k.add(p[0])
            elif t['t'] == 'return':
                use({0})
            gen[i], kill[i] = g, k
        li = {i: set() for i in gen}
        ch = True
        order = sorted(gen, key=lambda n: -self.rpo.get(n, 0))
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in self.succ[i]:
                    if s != RET:
                        o |= li[s]
                n = gen[i] | (o - kill[i])
                if n != li[i]:
                    li[i] = n
                    ch = True
        self.livein = li


class Crate:
    def __init__(self, f, dep=None):
        """dep: the library crate this one uses; its types get the names they have there"""
        d = json.load(open(f))
        if dep:
            own = {a['path'] for a in d['adts']}
            stack = [d['bodies'], d['fns'], d['adts']]
            while stack:
                o = stack.pop()
                if isinstance(o, dict):
                    for k in ('path', 'adt'):
                        p = o.get(k)
                        if isinstance(p, str) and p.startswith('panacea::') and p[9:] in dep.adts and p[9:] not in own:
                            o[k] = p[9:]
                    stack.extend(o.values())
                elif isinstance(o, list):
                    stack.extend(o)
        self.name = d['crate']
        self.adts = {a['path']: a for a in d['adts']}
        self.fns = {x['path']: x for x in d['fns']}
        self.unsafe_items = d.get('unsafe_items', [])
        self.bodies = {}
        for b in d['bodies']:
            if b['path'] not in self.bodies:
                self.bodies[b['path']] = Body(b)


def load(libf, binf=None):
    lib = Crate(libf)
    b = Crate(binf, lib) if binf else None
    return lib, b
