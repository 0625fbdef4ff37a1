"""Freshness and noise of every ciphertext a client produces.

In the freshness mode of the value-flow analysis every encryption atom carries the position of its draw in the
generator's stream, as a function of the indices of the ciphertext it ends up in."""
import itertools
import time
import interp
import terms as X
from terms import *
from check import *
from canon import canon
from obl_crypto import cf, KSK
from props import obl

SK = 'rlwe::RLWESecretKey::'
ZERO_ = ZERO


def prep(E, st, b, args):
    E.fresh_enc = True
    for k in ('draw', 'draw2'):
        st.c[('g', k)] = ZERO
        E.pinned.add(('g', k))
    return args


def frun(C, path):
    return C.run(path, prep, 'fresh')


def cells(v, name, idx, out):
    """every ciphertext inside a value: (name, [(index, bound)], ciphertext)"""
    if v.op == 'weak':
        out.append((name, idx, v))
        return
    if v.op == 'struct' and v.a[0] in ('Glwe', 'Lwe'):
        out.append((name, idx, v))
        return
    if v.op == 'struct':
        for n, x in v.a[1]:
            cells(x, '%s.%s' % (name, n), idx, out)
        return
    if v.op == 'list':
        for k, x in enumerate(v.a):
            if isinstance(x, T):
                cells(x, '%s[%d]' % (name, k), idx, out)
        return
    if not is_ring(v) and v.op not in ('opq', 'fld', 'idx'):
        n = length(v)
        if n is None or n.op == 'weak':
            if any(x.op == 'app' and x.a[0] in ('Zm', 'Zb', 'ZLm', 'ZLb') for x in atoms(v)):
                out.append((name, idx, weak('shape')))
            return
        if n.op == 'int' and n.a[0] == 0:
            return
        i, f = var('f%d' % len(idx), n)
        cells(canon(proj(v, ('i', i)), f), name + '[]', idx + [(i, n)], out)


def one(t, op):
    """the single encryption atom of a component, if it appears exactly once with coefficient one"""
    zs = {x for x in atoms(t) if x.op == 'app' and x.a[0] == op}
    if not zs:
        return None, 'no fresh randomness'
    if len(zs) > 1:
        return None, 'several encryptions are mixed'
    z = zs.pop()
    rest = X.replace(t, {z: ZERO})
    if any(x.op == 'app' and x.a[0] == op for x in atoms(rest)) or canon(sub(t, rest)) is not canon(z):
        return None, 'scaled randomness'
    return z, ''


def tern(C, r, leaf, name, idx, ct):
    """(noise, generator, counter, sub) of one ciphertext or None after reporting"""
    if any(x.op in ('weak', 'leak') for x in atoms(ct)):
        C.undecided(r, leaf, 'not summarised: %s' % why(ct))
        return None
    ops = ('Zm', 'Zb') if ct.a[0] == 'Glwe' else ('ZLm', 'ZLb')
    mask, body = proj(ct, 'mask'), proj(ct, 'body')
    if ops[0] == 'ZLm':
        i, f = var('coef', length(mask))
        mask = canon(proj(mask, ('i', i)), f)
    zm, e1 = one(mask, ops[0])
    zb, e2 = one(body, ops[1])
    if zm is None or zb is None:
        e = e1 or e2
        if e == 'no fresh randomness':
            C.fail(r, leaf, '%s has a %s without fresh randomness: %s' % (name, 'mask' if zm is None else 'body', show(mask if zm is None else body)[:200]))
        else:
            C.undecided(r, leaf, e)
        return None
    return zm, zb


def draw_of(z):
    g = z.a[3]
    if g.op != 'app' or g.a[0] != 'draw':
        return None
    return g.a[1], g.a[2], (g.a[3] if len(g.a) > 3 else None)


def strides(c, idx):
    """coefficients of the indices in an affine draw position, and its offset"""
    out, off = [], c
    for v, n in idx:
        k = canon(sub(X.replace(c, {v: add(v, ONE)}), c))
        if any(w in atoms(k) for w, _ in idx):
            return None, None
        out.append((v, n, k))
        off = X.replace(off, {v: ZERO})
    return out, canon(off)


def packed(st, unit):
    """the indices enumerate 0..size-1 times unit without collision, in mixed radix: total size, or None"""
    s, left = unit, list(st)
    while left:
        k = [x for x in left if canon(x[2]) is canon(s)]
        if not k:
            return None
        left.remove(k[0])
        s = canon(mul(s, k[0][1]))
    return s


def fresh_all(C, r, roots, std, gen, eqs=()):
    cs = []
    for name, v in roots:
        cells(canon(X.replace(v, dict(eqs))), name, [], cs)
    if not cs:
        raise Undecided('no ciphertext in the result of %s' % r.path)
    fams = []
    for name, idx, ct in cs:
        leaf = name
        z = tern(C, r, leaf, name, idx, ct)
        if z is None:
            continue
        zm, zb = z
        dm, db = draw_of(zm), draw_of(zb)
        if dm is None or db is None:
            C.undecided(r, leaf, 'draw position')
            continue
        bad_ = False
        for z, d, w in ((zm, dm, 'mask'), (zb, db, 'body')):
            if canon(z.a[2]) is not canon(std):
                if any(x.op in ('weak', 'leak') for x in atoms(z.a[2])):
                    C.undecided(r, leaf, 'noise parameter')
                else:
                    C.fail(r, leaf, 'the %s of %s is drawn with noise %s instead of %s' % (w, name, show(z.a[2])[:120], show(std)))
                bad_ = True
                break
            if canon(d[0]) is not canon(gen):
                C.fail(r, leaf, 'the %s of %s is drawn from %s instead of %s' % (w, name, show(d[0])[:120], show(gen)))
                bad_ = True
                break
        if bad_:
            continue
        if zm.a[1] is not zb.a[1] or canon(dm[1]) is not canon(db[1]):
            C.fail(r, leaf, 'mask and body of %s come from different encryptions' % name)
            continue
        fams.append((name, leaf, idx, dm))
    # distinct draws
    flat = []
    for name, leaf, idx, (g, c, sub_) in fams:
        rowv = [v for v, n in idx if sub_ is v]
        main = [(v, n) for v, n in idx if v not in rowv]
        miss = [v for v, n in main if v not in atoms(c) and not (sub_ is not None and v in atoms(sub_))]
        if miss:
            one_ = [n for v, n in main if v in miss]
            if all(n.op == 'int' and n.a[0] <= 1 for n in one_):
                main = [(v, n) for v, n in main if v not in miss]
            else:
                C.fail(r, leaf, 'the same draw is used for different ciphertexts of %s (draw position %s does not depend on every index)' % (name, show(c)[:200]))
                continue
        flat.append((name, leaf, main, canon(c), idx, sub_))
    dup = collide(flat)
    if dup:
        C.fail(r, dup[0], dup[1])
        return
    size, left = place([(x[1], x[2], x[3]) for x in flat], ZERO)
    for x in flat:
        if any(y[0] == x[1] for y in left):
            C.undecided(r, x[1], 'draw position %s' % show(x[3])[:160])
        else:
            C.hold(r, x[1], 'draw position %s' % show(x[3])[:120])


def place(fams, pos):
    """lay the families out in the stream from pos on -> (end of the occupied range, families that do not fit)"""
    left = list(fams)
    # a loop whose body draws for several families
    outer = {x[1][0][0] for x in left if x[1]}
    if len(left) > 1 and len(outer) == 1 and all(x[1] for x in left):
        v, n = left[0][1][0]
        ks = {canon(sub(X.replace(c, {v: add(v, ONE)}), c)) for _, _, c in left}
        if len(ks) == 1 and not any(w in atoms(k) for k in ks for _, m, _ in left for w, _ in m):
            k = ks.pop()
            end, rest = place([(l, m[1:], canon(X.replace(c, {v: ZERO}))) for l, m, c in left], pos)
            room = canon(sub(sub(k, end), neg(pos)))
            if not rest and nonneg(room):
                return canon(add(pos, mul(k, n))), []
    segs = []
    for x in left:
        st, off = strides(x[2], x[1])
        size = packed(st, ONE) if st is not None else None
        segs.append((x, off, size))
    while True:
        k = [y for y in segs if y[2] is not None and nonneg(canon(sub(y[1], pos)))]
        # the nearest one first
        k = [y for y in k if all(nonneg(canon(sub(z[1], y[1]))) for z in k)]
        if not k:
            return pos, [y[0] for y in segs]
        y = k[0]
        segs.remove(y)
        pos = canon(add(y[1], y[2]))


def nonneg(t):
    """sums of products of counts with non-negative coefficients"""
    if t.op == 'int':
        return t.a[0] >= 0
    return is_ring(t) and all(c >= 0 for c in poly(t).values()) and all(count(x) for m in poly(t) for x, _ in m)


def count(t):
    return t.op in ('len', 'pow2', 'div', 'rem') or t.op == 'app' and t.a[0] in ('log2', 'mapHas') or t.ind or \
        t.op in ('fld', 'opq', 'idx') and X.TY.get(t) == ('prim', 'usize')


def collide(flat):
    """two ciphertexts with the same draw position in a small instance"""
    fv = {x for y in flat for t in [y[3]] + [n for _, n in y[4]] + ([y[5]] if y[5] is not None else []) for x in atoms(t)}
    vs = {v for y in flat for v, n in y[4]}
    fv = [x for x in fv if x not in vs and is_ring(x) and (x.op in ('opq', 'fld', 'len', 'idx') or x.op == 'app')]
    for size in (2, 3, 4):
        mp = {x: INT(size) for x in fv}
        seen = {}
        for name, leaf, main, c, idx, sub_ in flat:
            for tup in itertools.product(*[range(min(2 * size, 6)) for _ in idx]):
                m2 = dict(mp)
                m2.update({v: INT(k) for (v, n), k in zip(idx, tup)})
                inside = True
                for (v, n), k in zip(idx, tup):
                    nn = canon(X.replace(n, m2))
                    if nn.op != 'int':
                        return None
                    inside = inside and k < nn.a[0]
                if not inside:
                    continue
                p = canon(X.replace(c, m2))
                q = canon(X.replace(sub_, m2)) if sub_ is not None else ZERO
                if p.op != 'int':
                    return None
                if (p, q) in seen and seen[(p, q)] != (name, tup):
                    o = seen[(p, q)]
                    return leaf, 'ciphertext %s of %s and ciphertext %s of %s share one draw (position %s)' % (list(o[1]), o[0], list(tup), name, show(c)[:120])
                seen[(p, q)] = (name, tup)
    return None


def masks(v, pos, out):
    """(position, coefficients of the mask) of every ciphertext in a concrete value"""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'S' and v[1] == 'Glwe':
        m = dict(v[2:]).get('mask')
        if isinstance(m, interp.P) and m.c and all(abs(x) >> 40 for x in m.c):
            out.append((pos, tuple(m.c)))
    elif v[0] == 'S':
        for k, x in v[2:]:
            masks(x, pos, out)
    elif v[0] == 'A':
        for i, x in enumerate(v[1:]):
            masks(x, pos + (i,), out)


def repeated(C, r, leaf, v, tries=80):
    """no closed form for the draw positions: look for two ciphertexts with one mask in interpretations of the value"""
    ass = r.assume()
    hints = {}
    cs = interp.thresholds(v, *ass, hints=hints)
    exs = interp.exponents(v)
    hints.pop(X.N, None)
    bad_, n, t0 = [], 0, time.time()

    def meaning(s, salt):
        I = interp.Interp(s, 4 if s % 2 else 2)
        I.salt = salt
        I.consts = cs
        I.exponents(exs)
        I.hint(hints)
        interp.satisfy(I, ass)
        return I, I.ev(v)

    for s in range(tries):
        if time.time() > t0 + 40 or len(bad_) >= 3:
            break
        try:
            I, x = meaning(s, 0)
            if I.oob and meaning(s, 1)[1] != x:
                continue
        except (interp.Reject, interp.Skip, RecursionError, KeyError, TypeError):
            continue
        ms = []
        masks(x, (), ms)
        seen = {}
        n += len(ms) > 1
        for pos, m in ms:
            if m in seen:
                bad_.append((seen[m], pos))
                break
            seen[m] = pos
    if len(bad_) >= 2:
        C.fail(r, leaf, 'ciphertexts %s and %s of %s have the same mask, so they share one draw (in %d of %d interpretations of the result)'
               % (list(bad_[0][0]), list(bad_[0][1]), leaf, len(bad_), n))
        return True
    return False


CASES = [
    (SK + 'encode_encrypt_rlwe', [('out', 1)], 3), (SK + 'ternary_encrypt_rlwe', [('out', 1)], 3),
    (SK + 'encrypt_constant_rlwe', [('out', 1)], 3), (SK + 'encrypt_constant_rgsw', [('out', 1)], 3),
    (SK + 'encrypt_rgsw', [('out', 1)], 3), (SK + 'encrypt_constant_rgsw_vec', [('ret', 0)], 2), (SK + 'neg_gsw', [('ret', 0)], 1),
    (SK + 'encrypt_rlwe', [('out', 1)], (3, 4)), ('rlwe::RLWEKeyswitchKey::fill_with_keyswitch_key', [('out', 0)], (3, 4)),
    ('lwe::LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key', [('out', 0)], 2),
    ('lwe::LWESecretKey::encrypt_lwe', [('out', 1)], (3, 4)), ('lwe::LWESecretKey::encode_encrypt_lwe', [('out', 1)], 3),
    ('decision_tree::encrypt_feature_vector', [('ret', 0)], 2),
    ('oram::Client::gen_neg_sk', [('ret', 0)], 'self'), ('oram::Client::gen_enc_op', [('ret', 0)], 'self'),
    ('oram::Client::enc_data_rlwe', [('ret', 0)], 'self'),
    ('decision_tree::bit_decomposed_rgsw', [('ret', 0)], 3),
    ('oram::Client::gen_read_query_one', [('ret', 0)], 'self'), ('oram::Client::gen_write_query_one', [('ret', 0)], 'self'),
    ('oram::Client::gen_read_query_batch', [('ret', 0)], 'self'), ('oram::Client::gen_write_query_batch', [('ret', 0)], 'self'),
]


def case(path, roots, cx):
    def f(C):
        if path.startswith('oram::Client::gen_e') or path.startswith('oram::Client::enc_'):
            C.private(path)
        r = frun(C, path)
        if cx == 'self':
            cx_ = C.fld(r.arg(0), 'oram::Client', 'ctx')
        if isinstance(cx, tuple):
            std, gen = r.arg(cx[0]), r.arg(cx[1])
        else:
            c = cx_ if cx == 'self' else r.arg(cx)
            std, gen = cf(C, c, 'std'), cf(C, c, 'encryption_generator')
        eqs = []
        if 'fill_with_keyswitch_key' in path:
            eqs.append((length(C.fld(r.arg(0), KSK, 'ksks')), proj(C.fld(r.arg(0), KSK, 'decomp_level_count'), 0)))
        rs = [(w + str(i) if w == 'out' else w, r.ret if w == 'ret' else r.out(i)) for w, i in roots]
        n0 = len(C.results)
        try:
            fresh_all(C, r, rs, std, gen, eqs)
        except Undecided:
            if not any([repeated(C, r, w, v) for w, v in rs]):
                raise
            return
        if any(x.status == UNK for x in C.results[n0:]) and not any(x.status == BAD for x in C.results[n0:]):
            for w, v in rs:
                repeated(C, r, w, v)
    obl('C14', 'fresh draws of the configured noise: ' + path)(f)


for _p, _r, _c in CASES:
    case(_p, _r, _c)


# ---------------------------------------------------------------------------------- every encryption site
import ir
import flow
from flow import graph
from obl_flow import ok, bad, note
PRIM = ('encrypt', 'trivial_encrypt', 'fill_with_encryption', 'fill_and_random', 'update_with_wrapping_add_noise', 'fill_tensor_with_random')
CTXN = ('std', 'encryption_generator', 'secret_generator', 'random_generator')


def defs(b):
    """assignments to every whole local"""
    if not hasattr(b, '_defs'):
        d = {}
        for i in b.flow.reach:
            if i == ir.RET:
                continue
            bl = b.blocks[i]
            for s in bl['s']:
                if 'rv' in s and len(s['p']) == 1:
                    d.setdefault(s['p'][0], []).append(('rv', s['rv']))
            t = bl['t']
            if t['t'] == 'call' and len(t['p']) == 1:
                d.setdefault(t['p'][0], []).append(('call', flow.Site(b, i, t)))
        b._defs = d
    return b._defs


def origin_place(C, g, b, pl, seen):
    names = {i: f['n'] for i, f in enumerate(C.lib.adts['context::Context']['variants'][0]['fields'])} if 'context::Context' in C.lib.adts else {}
    t, last = b.tys[pl[0]], None
    for e in pl[1:]:
        t = flow.deref(t)
        if e == '*':
            continue
        if isinstance(e, int) and t and t[0] == 'adt':
            if t[1] == 'context::Context':
                last = ('ctx', names.get(e, '?'))
            a = C.lib.adts.get(t[1])
            fs = a['variants'][0]['fields'] if a else []
            t = ir.conv_ty(fs[e]['ty']) if e < len(fs) else None
        elif isinstance(e, int) and t and t[0] == 'closure' and b.parent:
            return upvar(C, g, b, e, seen)
        else:
            t = None
    if last:
        return {last}
    return origin_local(C, g, b, pl[0], seen)


def upvar(C, g, b, k, seen):
    p = [q for q, x in g.bodies.items() if x is b]
    out = set()
    for q, x in g.bodies.items():
        for i in x.flow.reach:
            if i == ir.RET:
                continue
            for s in x.blocks[i]['s']:
                if 'rv' in s and s['rv']['r'] == 'agg' and s['rv']['k'].get('a') == 'closure' and s['rv']['k'].get('path') in p:
                    o = s['rv']['o']
                    if k < len(o):
                        out |= origin(C, g, x, o[k], seen)
    return out or {('?', 'captured variable')}


def origin_local(C, g, b, l, seen):
    k = (id(b), l)
    if k in seen:
        return set()
    seen.add(k)
    if 1 <= l <= b.argc:
        p = [q for q, x in g.bodies.items() if x is b][0]
        out = set()
        cs = [(q, s) for q, ss in g.sites.items() for s in ss if s.path == p]
        for q, s in cs:
            if l - 1 < len(s.t['a']):
                out |= origin(C, g, g.bodies[q], s.t['a'][l - 1], seen)
        if not cs:
            out.add(('param', p))
        return out
    out = set()
    for kind, d in defs(b).get(l, []):
        if kind == 'rv':
            if d['r'] in ('use', 'cast'):
                out |= origin(C, g, b, d['o'], seen)
            elif d['r'] == 'ref':
                out |= origin_place(C, g, b, d['p'], seen)
            else:
                out.add(('?', d['r']))
        else:
            if d.name in ('clone', 'deref', 'deref_mut', 'borrow_mut', 'borrow', 'as_mut', 'as_ref') and d.t['a']:
                out |= origin(C, g, b, d.t['a'][0], seen)
            else:
                out.add(('call', d.decl or d.path))
    return out or {('?', 'undefined local')}


def origin(C, g, b, o, seen=None):
    seen = set() if seen is None else seen
    pl = o.get('cp') or o.get('mv')
    if pl:
        return origin_place(C, g, b, pl, seen)
    return {('const', str(o.get('v', o.get('c', '?')))[:40])}


@obl('C14', 'every encryption call uses the noise and the encryption generator of a context')
def call_sites(C):
    g = graph(C)
    n = 0
    for p, b in sorted(g.bodies.items()):
        for s in g.sites[p]:
            if not s.decl.startswith('concrete_core::') or not s.name.startswith('encrypt'):
                continue
            gi = [i for i, o in enumerate(s.t['a']) if any(x[0] == 'adt' and x[1].endswith('EncryptionRandomGenerator')
                  for x in flow.tybits(b.tys[(o.get('cp') or o.get('mv') or [0])[0]]))]
            if len(gi) != 1 or gi[0] < 1:
                continue
            n += 1
            note(C, g, [p])
            for i, want in ((gi[0] - 1, 'std'), (gi[0], 'encryption_generator')):
                leaf = '%s: %s of %s' % (p, 'noise' if want == 'std' else 'generator', s.name)
                og = origin(C, g, b, s.t['a'][i])
                wrong = [x for x in og if x[0] == 'const' or x[0] == 'ctx' and x[1] != want or
                         x[0] == 'call' and x[1].startswith('concrete_core::')]
                if wrong:
                    bad(C, leaf, p, s.line, 'the %s argument comes from %s' % ('noise' if want == 'std' else 'generator', ', '.join(x[1] for x in wrong)))
                elif any(x[0] in ('?', 'call') for x in og):
                    C.results.append(Res(UNK, C.cur, 'origin %s' % sorted(og), leaf, p, s.line))
                else:
                    ok(C, leaf, p, 'from %s' % ', '.join(sorted(x[1] for x in og)))
    if not n:
        raise Undecided('no encryption call found')
