"""Structural obligations: locks, check-before-write order, unsafe code, key material and secrecy."""
import re
import ir
import terms as X
import flow
from flow import graph, Locks, Site, acquisition, parallel, tybits, guard_types, rv_ops
from terms import *
from check import *
from canon import canon
from props import obl

SRV = 'oram::Server'


def loc(p):
    return p.rsplit('::{closure', 1)[0] if False else p


def ok(C, leaf, fn='', msg=''):
    C.leaves += 1
    C.results.append(Res(OK, C.cur, msg, leaf, fn, ''))


def bad(C, leaf, fn, line, msg):
    C.leaves += 1
    C.results.append(Res(BAD, C.cur, msg, leaf, fn, line))


def note(C, g, fns):
    C.functions |= {f for f in fns if f in C.lib.bodies}


def locks(C):
    if not hasattr(C, '_locks'):
        C._locks = Locks(graph(C))
    return C._locks


def cls(c):
    n = [x[1].rsplit('::', 1)[-1] for x in eval(c[0]) if not x[1].endswith('Global')]
    return ' of '.join(n)


# ------------------------------------------------------------------------------------------------ C34
@obl('C34', 'no lock class is acquired while a lock of the same class is held')
def lock_nest(C):
    g, L = graph(C), locks(C)
    note(C, g, {p for p, _, _ in L.acq_sites})
    n = 0
    for p, line, h, a, s in L.edges:
        n += 1
        if h[0] == a[0]:
            bad(C, 'nested %s' % cls(a), p, line, 'a lock on %s is acquired at %s (%s) while one is already held' % (cls(a), line, s.path))
        else:
            ok(C, '%s held at %s' % (cls(h), line), p)
    for p, b in g.bodies.items():
        for i, t in enumerate(b.tys):
            if t and any(x[0] == 'adt' and re.search(r'(vec::Vec|HashMap|VecDeque|BTreeMap|Box|Arc|Rc)$', x[1])
                         and guard_types(('tuple', tuple(y for y in [t]))) for x in [t] if x[0] == 'adt') \
                    and t[0] == 'adt' and re.search(r'(vec::Vec|HashMap|VecDeque|BTreeMap)$', t[1]):
                bad(C, 'collection of guards', p, b.span, 'several guards of one class are held at once in a collection of type %r' % (t,))
    for p, s, a in L.acq_sites:
        ok(C, 'acquisition %s at %s' % (cls(a), s.line), p)


@obl('C34', 'the order in which lock classes are acquired is acyclic')
def lock_order(C):
    g, L = graph(C), locks(C)
    own = flow.private_classes(g, L)
    es = {}
    for p, line, h, a, s in L.edges:
        if h[0] in own or a[0] in own:
            # a lock selected by the number of the current thread: no other thread ever waits for it, so it closes no cycle
            ok(C, '%s before %s (own thread only)' % (cls(h), cls(a)), p)
        elif h[0] != a[0]:
            es.setdefault((h[0], a[0]), []).append((p, line))
    succ = {}
    for x, y in es:
        succ.setdefault(x, set()).add(y)

    def reach(x):
        seen, st = set(), [x]
        while st:
            for y in succ.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    for (x, y), w in sorted(es.items()):
        if x in reach(y):
            back = [v for (u, z), v in es.items() if u == y and (z == x)]
            bad(C, 'order %s / %s' % (cls((x,)), cls((y,))), w[0][0], w[0][1],
                '%s is held while %s is acquired at %s, and the reverse at %s' % (cls((x,)), cls((y,)), w[0], back[:1]))
        else:
            ok(C, '%s before %s (%d sites)' % (cls((x,)), cls((y,)), len(w)), w[0][0])
    if not es:
        ok(C, 'no nested acquisitions')


@obl('C34', 'no parallel operation runs while a lock is held')
def lock_par(C):
    g, L = graph(C), locks(C)
    n = 0
    for p, line, h, x in L.par_held:
        bad(C, 'parallel %s under lock' % x[2], p, line, 'the parallel operation %s at %s runs while a lock on %s is held' % (x[2], x[1], cls(h)))
    for p, ss in g.sites.items():
        for s in ss:
            if parallel(s):
                n += 1
                ok(C, 'parallel operation %s at %s' % (s.name, s.line), p)


@obl('C34', 'scratch buffers are shared between threads only behind a lock')
def buffers(C):
    """every type that a parallel task can reach and that holds an FftBuffer holds it inside a Mutex"""
    g = graph(C)
    FB = 'context::FftBuffer'
    if FB not in X.ADT:
        raise Undecided('no type %s' % FB)
    for p, a in sorted(C.lib.adts.items()):
        for v in a['variants']:
            for f in v['fields']:
                t = ir.conv_ty(f['ty'])
                if FB in [x[1] for x in tybits(t) if x[0] == 'adt']:
                    if locked(t, FB):
                        ok(C, 'field %s.%s' % (p, f['n']), p)
                    else:
                        bad(C, 'field %s.%s' % (p, f['n']), p, a['span'], 'a shared structure holds %s outside a lock' % FB)


def locked(t, goal, inside=False):
    if t is None:
        return True
    if t[0] == 'adt':
        if t[1] == goal:
            return inside
        i = inside or t[1].endswith('::Mutex')
        return all(locked(a, goal, i) for a in t[2])
    if t[0] in ('slice', 'array', 'ref'):
        return locked(t[1], goal, inside)
    if t[0] == 'tuple':
        return all(locked(a, goal, inside) for a in t[1])
    return True


# ------------------------------------------------------------------------------------------------ C35
PANIC = re.compile(r'(core|std)::(panicking|rt)::(assert_failed|panic|panic_fmt|panic_display|panic_explicit|begin_panic|assert_matches_failed|'
                   r'unreachable_display|panic_nounwind|panic_str_2015)')


def checks_in(g, p):
    return [s for s in g.sites[p] if PANIC.match(s.path)]


def data_class(C):
    i = C.ftype(SRV, lambda t: 'RwLock' in t)
    return X.ADT[SRV]['variants'][0][1][i][1]


def srv_module(p):
    return p.startswith('oram::')


ROOTS = ('process_one', 'process_multi', 'process_batch')


def reached(g, p):
    if not hasattr(g, '_reached'):
        g._reached = {}
    if p not in g._reached:
        seen, st = set(), [p]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for s in g.sites.get(x, ()):
                st += g.targets(s)
            st += [q for q in g.bodies if q.startswith(x + '::{closure')]
        g._reached[p] = seen
    return g._reached[p]


def never_fails(C, g, p, s):
    """the condition of the check is an identity in every run of query processing that comes to it"""
    f = g.bodies[p].flow
    into = {s.blk}      # blocks from which only this panic follows
    st = [s.blk]
    pred = {}
    for i in f.succ:
        for j in f.succ[i]:
            pred.setdefault(j, []).append(i)
    while st:
        x = st.pop()
        for y in pred.get(x, ()):
            if y not in f.live and y not in into:
                into.add(y)
                st.append(y)
    hit = False
    for fn in ROOTS:
        root = SRV + '::' + fn
        if root not in g.bodies or p not in reached(g, root):
            continue
        try:
            E = C.run(root).E
        except Undecided:
            return False
        if None in E.guard_lost or any((p, b) in E.guard_lost for b in into):
            return False
        mine = [E.guards[j][1] for j in range(len(E.guards)) if (E.guard_at.get(j) or (0, 0))[0] == p and E.guard_at[j][1] in into]
        if not (mine or any((p, b) in E.guard_never for b in into)) or any(canon(c) is not ONE for c in mine):
            return False
        hit = True
    return hit


def effects(C):
    """per function: does it (transitively) take the write lock on the data / contain an explicit check of the
    query-processing module"""
    if hasattr(C, '_eff'):
        return C._eff
    g, L = graph(C), locks(C)
    w, c = {}, {}
    for p, s, a in L.acq_sites:
        if a[1] == 'w':
            w.setdefault(p, set()).add('w')
    for p in g.bodies:
        for s in g.sites[p]:
            if s.name == 'get_mut' and ('RwLock' in s.decl or 'Mutex' in s.decl) and 'std::' in s.decl:
                w.setdefault(p, set()).add('w')
        if srv_module(p) and any(not never_fails(C, g, p, s) for s in checks_in(g, p)):
            c.setdefault(p, set()).add('c')
    C._eff = (g.summary(w), g.summary(c))
    return C._eff


REPEAT = ('for_each', 'map', 'fold', 'reduce', 'try_for_each', 'filter', 'collect', 'unzip', 'any', 'all', 'zip', 'flat_map', 'sum')


@obl('C35', 'in query processing no shape check can run after the database has been written')
def check_order(C):
    g = graph(C)
    L = locks(C)
    W, K = effects(C)
    roots = sorted(p for p, b in g.bodies.items() if p.startswith(SRV + '::') and b.kind == 'AssocFn' and W[p])
    if not roots:
        raise Undecided('no entry point writes the database')
    seen = set()
    work = [(r, False) for r in roots]
    n = 0
    while work:
        p, rep = work.pop()
        if (p, rep) in seen:
            continue
        seen.add((p, rep))
        b = g.bodies[p]
        f = b.flow
        ws, ks = [], []
        for i in f.reach:
            if i == ir.RET or i not in f.reach:
                continue
            t = b.blocks[i]['t']
            if t['t'] != 'call':
                continue
            s = Site(b, i, t)
            tg = set(g.targets(s)) | set(L.closure_args(b, t))
            a = acquisition(s)
            hw = (a and a[1] == 'w') or any(W[q] for q in tg)
            hk = bool(PANIC.match(s.path)) and not never_fails(C, g, p, s) or any(K[q] for q in tg)
            if hw:
                ws.append((i, s, tg))
            if hk:
                ks.append((i, s, tg))
        loops = f.loops
        for i, s, tg in ws:
            # blocks reachable after the write
            after = set()
            st = list(f.succ.get(i, []))
            while st:
                x = st.pop()
                if x in after:
                    continue
                after.add(x)
                st += f.succ.get(x, [])
            for j, k, tk in ks:
                n += 1
                if j == i:
                    closures = bool(L.closure_args(b, s.t)) and not g.targets(s)
                    if closures or i in after or rep:
                        # the same call both checks and writes, and runs more than once
                        bad(C, 'check repeated with writes', p, k.line, 'the call %s at %s both writes the database and checks shapes, and is repeated: '
                            'a later check can fail after an earlier write' % (k.path, k.line))
                    else:
                        for q in tg:
                            work.append((q, rep))
                elif j in after or rep:
                    bad(C, 'check after write', p, k.line, 'the shape check reached through %s at %s can fail after the database was written through %s at %s'
                        % (k.path, k.line, s.path, s.line))
                else:
                    ok(C, 'check at %s precedes write at %s' % (k.line, s.line), p)
        if ws and not ks:
            ok(C, 'writes without checks', p)
        for i, s, tg in ws:
            inloop = any(i in body for body in loops.values())
            for q in tg:
                if W[q] and K[q]:
                    work.append((q, rep or inloop or bool(L.closure_args(b, s.t))))
    note(C, g, {p for p, _ in seen})


def rejects(gt, a, bt, rel):
    """the assertion gt can only hold when rel(a, b)"""
    ok_ = False
    for n in range(5):
        for m in range(0, 18):
            v = canon(X.replace(gt, {a: INT(n), bt: INT(m)}))
            if not rel(n, m):
                if v is not ZERO:
                    return False
                ok_ = True
    return ok_


def has_guard(run, pa, pb, rel):
    for stk, gt, lp in run.E.guards:
        if not is_ring(gt) or gt.wk:
            continue
        gt = X.replace(gt, {c: ONE for c in run.E.ran if c.ind})      # the loops around it have an iteration
        at = [x for x in lens(gt)]
        for a in at:
            if not pa(a):
                continue
            for bb in at:
                if bb is not a and pb(bb) and rejects(gt, a, bb, rel):
                    return gt
    return None


def lens(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, T):
            if x.op == 'len':
                out.append(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


@obl('C35', 'the number of index bits is checked against the row width, and the batch size against the number of rows')
def check_exist(C):
    import obl_oram as O
    for fn in ('process_one', 'process_multi', 'process_batch'):
        r = C.run('oram::Server::' + fn)
        data, _, _, _ = O.server(C, r)
        q = r.arg(1)
        i = C.ftype(O.QRY, lambda t: 'Vec' in t and 'RGSW' in t)

        def isbits(x):
            v = x.a[0]
            return v.op == 'fld' and v.a[1] == i and q in X.atoms(v) | {v.a[0]} | roots(v)

        def isrow(x):
            v = x.a[0]
            return v.op == 'idx' and v.a[0] is data
        vague = any(g.wk or not is_ring(g) for _, g, _ in r.E.guards) or bool(r.E.guard_lost)
        if has_guard(r, isbits, isrow, lambda n, m: m == 1 << n) is not None:
            C.hold(r, fn + ': index bits')
        elif vague:
            C.undecided(r, fn + ': index bits', 'some checks on the way are not summarised')
        else:
            C.fail(r, fn + ': index bits', 'no check on the way rejects a query whose number of index bits does not match the row width')
        if fn == 'process_batch':
            if has_guard(r, lambda x: x.a[0] is q, lambda x: x.a[0] is data, lambda n, m: n == m) is not None:
                C.hold(r, fn + ': batch size')
            elif vague:
                C.undecided(r, fn + ': batch size', 'some checks on the way are not summarised')
            else:
                C.fail(r, fn + ': batch size', 'no check on the way rejects a batch whose size differs from the number of rows')


def roots(v):
    out = {v}
    while v.op in ('fld', 'idx'):
        v = v.a[0]
        out.add(v)
    return out


# ------------------------------------------------------------------------------------------------ C38
ALLOWED = ('into_uninit',)
CONSUME = ('forward_as_torus', 'forward_as_integer', 'backward_as_torus')


@obl('C38', 'unsafe operations are uninitialised views of transform buffers only')
def unsafe_ops(C):
    g = graph(C)
    n = 0
    for p, b in g.bodies.items():
        for s in g.sites[p]:
            if s.f.get('c') != 'fn' or not s.f.get('unsafe'):
                continue
            if s.decl.startswith('core::fmt::'):
                continue            # expansion of the formatting macros
            n += 1
            if s.name not in ALLOWED or not s.decl.startswith('concrete_core::'):
                bad(C, 'unsafe call %s' % s.name, p, s.line, 'call of the unsafe function %s' % s.path)
            else:
                ok(C, 'into_uninit at %s' % s.line, p)
        rawl = {i for i, t in enumerate(b.j['locals']) if t.get('k') == 'ptr'}
        for i in b.flow.reach:
            if i == ir.RET:
                continue
            for pl, ln in places(b.blocks[i]):
                if pl[0] in rawl and '*' in pl[1:]:
                    bad(C, 'raw dereference', p, ln, 'a raw pointer is dereferenced')
        note(C, g, {p} if n else ())
    for cr in (C.lib, C.binc):
        for u in getattr(cr, 'unsafe_items', []):
            bad(C, 'unsafe item', u['what'], u['span'], 'unsafe item: %s' % u['what'])
    ok(C, 'bodies scanned: %d' % len(g.bodies))


def places(bl):
    for s in bl['s']:
        if 'rv' in s:
            ln = s.get('ln', '')
            yield s['p'], ln
            r = s['rv']
            if r['r'] in ('ref', 'discr', 'rawptr'):
                if not (r['r'] == 'rawptr'):
                    yield r['p'], ln
            for o in rv_ops(r):
                pl = o.get('cp') or o.get('mv')
                if pl:
                    yield pl, ln
    t = bl['t']
    if t['t'] == 'call':
        for o in [t['f']] + t['a']:
            pl = o.get('cp') or o.get('mv')
            if pl:
                yield pl, t['ln']
        yield t['p'], t['ln']


def consumed(g, b, blk, cur, skip=None, depth=0):
    """what happens first to the views in cur from block blk on: 'ok' (a filling transform takes them), 'maybe ...' or the offence"""
    cur = set(cur)
    bind = 64
    while blk is not None and blk != ir.RET and bind:
        bind -= 1
        bl = b.blocks[blk]
        for st in bl['s']:
            if 'rv' in st:
                used = [i for i in ir.rv_uses(st['rv']) if i in cur]
                if used:
                    if st['rv']['r'] in ('use', 'ref') or st['rv']['r'] == 'cast':
                        cur.add(st['p'][0])
                    elif st['rv']['r'] == 'agg':
                        return 'maybe stored in an aggregate'
                    else:
                        return 'used by %s' % st['rv']['r']
        t = bl['t']
        if t['t'] == 'call':
            k = Site(b, blk, t)
            hit = [j for j, o in enumerate(t['a']) if (o.get('cp') or o.get('mv') or [None])[0] in cur]
            if hit:
                if k.name in CONSUME and k.decl.startswith('concrete_core::') and hit == [1]:
                    return 'ok'
                q = g.bodies.get(k.path)
                if q is not None and depth < 6:
                    return consumed(g, q, 0, {j + 1 for j in hit}, None, depth + 1)
                if k.path.startswith(('concrete_core::', 'core::mem', 'std::')):
                    return 'handed to %s' % k.path
                return 'maybe handed to %s' % (k.path or 'an unknown function')
            blk = t.get('b')
        elif t['t'] in ('goto', 'drop', 'assert'):
            blk = t.get('b')
        elif t['t'] == 'switch':
            return 'maybe crosses a branch'
        else:
            return 'never used'
    return 'never used' if bind else 'maybe'


@obl('C38', 'every uninitialised view goes straight into a transform that fills it')
def uninit_use(C):
    g = graph(C)
    for p, b in g.bodies.items():
        for s in g.sites[p]:
            if s.name != 'into_uninit' or not s.f.get('unsafe'):
                continue
            res = consumed(g, b, s.t['b'], {s.t['p'][0]})
            if res == 'ok':
                ok(C, 'view at %s consumed by a transform' % s.line, p)
            elif res.startswith('maybe'):
                C.results.append(Res(UNK, C.cur, 'view at %s: %s' % (s.line, res[6:]), 'view in %s' % p, p, s.line))
            else:
                bad(C, 'uninitialised view at %s' % p, p, s.line, 'the view is not handed directly to a transform that fills it (%s)' % res)


@obl('C38', 'every transform buffer has exactly half the polynomial size, the size of its transform')
def uninit_size(C):
    g = graph(C)
    fns = set()
    for p, b in g.bodies.items():
        for s in g.sites[p]:
            if s.name == 'into_uninit' and s.f.get('unsafe') and 'FourierPolynomial' in s.decl:
                fns.add(b.parent or p)
    half = X.div(X.N, INT(2))
    for p in sorted(fns):
        if p not in C.lib.bodies:
            continue
        r = C.run(p)
        seen = {}
        for stk, name, buf, fft, std in r.E.fft_log:
            if not name.startswith('forward'):
                continue
            n = canon(X.length(buf))
            k = (stk[-1], name)
            if buf.wk or n.wk or n.fv or n.op == 'len':
                seen.setdefault(k, None)
                continue
            if n is half and (fft.op != 'app' or fft.a[0] != 'fft' or fft.a[1] is X.N):
                if seen.get(k) is not False:
                    seen[k] = True
            else:
                seen[k] = False
                C.fail(r, '%s buffer in %s' % (name, stk[-1]), 'a buffer of %s values is used for a transform of %s (expected %s)'
                       % (X.show(n, 4), X.show(fft, 4), X.show(half, 3)))
        for k, v in seen.items():
            if v:
                C.hold(r, '%s buffers in %s' % (k[1], k[0]))
            elif v is None:
                C.undecided(r, '%s buffers in %s' % (k[1], k[0]), 'buffer length not summarised')
        if not seen:
            C.undecided(r, 'buffers', 'no transform seen')


# ------------------------------------------------------------------------------------------------ C12
KEY_TY = re.compile(r'(Rlwe|RLWE|Lwe|LWE|Glwe|GLWE)SecretKey$|SecretKey$')
RNG_USE = re.compile(r'(EncryptionRandomGenerator|SecretRandomGenerator)')
ENC_FN = re.compile(r'^(encrypt|fill_.*with_random|generate_|decrypt)')
RNGFIELDS = ('secret_generator', 'encryption_generator', 'random_generator')


def key_in(t):
    return any(x[0] == 'adt' and KEY_TY.search(x[1]) for x in tybits(t))


def closure_types(C, t, seen=None):
    """every ADT reachable through the fields of a type"""
    seen = seen if seen is not None else set()
    for x in tybits(t):
        if x[0] == 'adt' and x[1] not in seen:
            seen.add(x[1])
            a = C.lib.adts.get(x[1])
            if a:
                for v in a['variants']:
                    for f in v['fields']:
                        closure_types(C, ir.conv_ty(f['ty']), seen)
    return seen


@obl('C12', "the server's state and the queries contain no secret key")
def state_no_key(C):
    for ty in ('oram::Server', 'oram::ClientQuery'):
        if ty not in C.lib.adts:
            raise Anchor(ty)
        ts = closure_types(C, ('adt', ty, ()))
        ks = [t for t in ts if KEY_TY.search(t)]
        if ks:
            bad(C, ty, ty, C.lib.adts[ty]['span'], 'a value of type %s contains %s' % (ty, ', '.join(sorted(ks))))
        else:
            ok(C, ty + ': %d reachable types' % len(ts), ty)
        for v in C.lib.adts[ty]['variants']:
            for f in v['fields']:
                if key_in(ir.conv_ty(f['ty'])):
                    bad(C, ty + '.' + f['n'], ty, C.lib.adts[ty]['span'], 'field %s holds key material (%s)' % (f['n'], f['s']))


def server_entries(C, g):
    return sorted(p for p, b in g.bodies.items() if p.startswith('oram::Server::') and b.kind == 'AssocFn')


def key_uses(C, g):
    """per body: the constructs that touch key material or generators"""
    out = {}
    for p, b in g.bodies.items():
        u = []
        for s in g.sites[p]:
            d = s.decl
            if RNG_USE.search(d) and s.name not in ('new', 'drop'):
                u.append((s.line, 'call of %s' % d))
            if KEY_TY.search(selfty(s) or '') or any(key_in(b.tys[pl[0]]) for pl in args_places(s)):
                u.append((s.line, 'call of %s with key material' % d))
            if any(RNG_USE.search(x[1]) for pl in args_places(s) for x in tybits(b.tys[pl[0]]) if x[0] == 'adt'):
                u.append((s.line, 'a random generator is passed to %s' % d))
        names = gen_fields(C)
        for i in b.flow.reach:
            if i == ir.RET:
                continue
            for pl, ln in places(b.blocks[i]):
                t = b.tys[pl[0]]
                for e in pl[1:]:
                    t = flow.deref(t)
                    if e == '*':
                        continue
                    if isinstance(e, int) and t and t[0] == 'adt':
                        if t[1] == 'context::Context' and e in names:
                            u.append((ln, 'the generator %s of a context is used' % names[e]))
                        a = C.lib.adts.get(t[1])
                        fs = a['variants'][0]['fields'] if a else []
                        t = ir.conv_ty(fs[e]['ty']) if e < len(fs) else None
                        if t and key_in(t):
                            u.append((ln, 'a field holding key material is read'))
                    else:
                        t = None
                    if t is None:
                        break
        if u:
            out[p] = u
    return out


def gen_fields(C):
    a = C.lib.adts.get('context::Context')
    return {i: f['n'] for i, f in enumerate(a['variants'][0]['fields']) if 'Generator' in f['s']} if a else {}


def selfty(s):
    f = s.f
    j = f.get('implself')
    if j and j.get('k') == 'adt':
        return j['path']
    return None


def args_places(s):
    for o in s.t['a']:
        pl = o.get('cp') or o.get('mv')
        if pl:
            yield pl


@obl('C12', 'no code reachable from query processing touches a secret key or a generator')
def no_key_use(C):
    g = graph(C)
    ent = [p for p in server_entries(C, g)]
    if not ent:
        raise Anchor('oram::Server')
    uses = key_uses(C, g)
    # setting up the server's own context creates generators; it is not query processing and takes no key
    for p in ent:
        b = g.bodies[p]
        takes_key = any(key_in(t) for t in b.tys[1:b.argc + 1])
        rs = g.reach([p])
        note(C, g, rs)
        is_new = not any(flow.deref(t) and flow.deref(t)[0] == 'adt' and flow.deref(t)[1] == 'oram::Server' for t in b.tys[1:b.argc + 1])
        if takes_key:
            if is_new:
                bad(C, p + ' takes a key', p, b.span, 'the server is constructed from key material')
            elif any(t[0] == 'ref' for t in b.tys[1:b.argc + 1] if key_in(t)) and ro_self(b):
                ok(C, p + ': inspection with a key given by the caller', p)
            else:
                bad(C, p + ' takes a key', p, b.span, 'a processing entry point is handed key material')
            continue
        if is_new:
            hit = [(q, u) for q in sorted(rs) for u in uses.get(q, ()) if 'key material' in u[1]]
        else:
            hit = [(q, u) for q in sorted(rs) for u in uses.get(q, ())]
        if hit:
            q, u = hit[0]
            bad(C, '%s reaches key material' % p, q, u[0], '%s, reached by %s' % (u[1], g.route([p], q)))
        else:
            ok(C, '%s: %d reachable bodies' % (p, len(rs)), p)


def ro_self(b):
    t = b.j['locals'][1]
    return t.get('k') == 'ref' and not t.get('mut')


# ------------------------------------------------------------------------------------------------ C11
@obl('C11', 'no branch, index, loop bound or shift amount of query processing depends on ciphertext contents')
def oblivious(C):
    import taint
    g = graph(C)
    roots = [p for p in server_entries(C, g) if effects(C)[0][p]]
    if not roots:
        raise Undecided('no entry point writes the database')
    fns = g.reach(roots)
    note(C, g, fns)
    Tn = taint.Taint(C, g, fns)
    out, n = Tn.sinks()
    for p, ln, kind, ex in out:
        bad(C, '%s in %s' % (kind, p), p, ln, '%s at %s depends on ciphertext contents (%s); reached by %s' % (kind, ln, ex, g.route(roots, p)))
    for p in sorted(fns):
        if not any(x[0] == p for x in out):
            ok(C, 'body %s' % p, p)
    C.leaves += n
