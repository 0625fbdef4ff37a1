"""Seeding of the context's generators."""
from obl_flow import ok, bad
from terms import *
import terms as X
from check import *
from canon import canon
from props import obl

CTX, PAR = 'context::Context', 'params::TFHEParameters'
GENS = ('RandomGenerator', 'SecretRandomGenerator', 'EncryptionRandomGenerator')
ENT = ('osrand', 'seedof', 'prngdraw')


def tops(t):
    """outermost entropy atoms of a seed"""
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x.op == 'app' and x.a[0] in ENT:
                out.add(x)
            else:
                st.extend(x.a)
    return out


def entropic(t):
    """does the atom depend on the system's entropy?"""
    return any(x.op == 'app' and (x.a[0] == 'osrand' or x.a[0] == 'new:UnixSeeder') for x in atoms(t))


def bits(t):
    if t.a[0] == 'osrand':
        k = str(t.a[1].a[0])
        return {'os:u128': 128, 'os:i128': 128, 'os:u64': 64, 'os:i64': 64, 'os:usize': 64, 'os:u32': 32, 'os:i32': 32,
                'os:u16': 16, 'os:u8': 8, 'os:i16': 16, 'os:i8': 8}.get(k)
    return 128 if t.a[0] == 'seedof' else None


def seeds(v, out):
    for x in atoms(v):
        if x.op == 'app' and x.a[0] in ('new:DeterministicSeeder',) + tuple('new:' + g for g in GENS):
            out.append((x.a[0][4:], x.a[1]))
    return out


def case(C, r, secure, avail):
    p = r.arg(0)
    mp = {proj(p, C.field(PAR, 'secure_seed')): ONE if secure else ZERO}
    av = app('seederAvailable')
    av.ind = True
    mp[av] = ONE if avail else ZERO
    out = []
    for i, t in enumerate(X.ADT[CTX]['variants'][0][1]):
        for g in GENS:
            if ('::' + g + "'") in repr(t[1]):
                out.append((t[0], g, canon(X.replace(proj(r.ret, i), mp))))
    return out


def gens(C):
    r = C.run(CTX + '::new')
    if r.E.weak_notes and any(n.startswith('write through') for n in r.E.weak_notes):
        raise Undecided('unknown store')
    return r


@obl('C15', 'secure seeding: every generator has its own seed from system entropy')
def secure(C):
    r = gens(C)
    for avail in (True, False):
        l = case(C, r, True, avail)
        if len(l) != 3:
            raise Undecided('generators of the context')
        allt = []
        for name, g, v in l:
            if v.op != 'app' or v.a[0] != 'new:' + g:
                C.results.append(Res(UNK, C.cur, 'generator %s is not built from one seed: %s' % (name, show(v)[:120]), name, r.path))
                continue
            for kind, s in seeds(v, []):
                allt.append((name if kind == g else name + "'s seeder", s))
        used = {}
        for name, s in allt:
            leaf = '%s/%s' % (name, 'system seeder' if avail else 'no system seeder')
            if any(x.op in ('weak', 'leak') for x in atoms(s)):
                C.results.append(Res(UNK, C.cur, show(s)[:120], leaf, r.path))
                continue
            tp = {x for x in tops(s) if entropic(x)}
            if not tp:
                bad(C, leaf, r.path, r.span, '%s is seeded with %s, which does not come from system entropy' % (name, show(s)[:120]))
            elif len(tp) == 1 and (bits(next(iter(tp))) or 128) < 128:
                bad(C, leaf, r.path, r.span, '%s is seeded with only %d bits of system entropy' % (name, bits(next(iter(tp)))))
            elif any(tp <= o for o in used.values()):
                o = [k for k, o in used.items() if tp <= o][0]
                bad(C, leaf, r.path, r.span, '%s and %s share their seed %s' % (name, o, show(s)[:120]))
            else:
                ok(C, leaf, r.path)
            used[name] = tp
    C.functions.add(r.path)


@obl('C15', 'without secure seeding every generator uses the fixed seed zero')
def insecure(C):
    r = gens(C)
    for avail in (True, False):
        l = case(C, r, False, avail)
        if len(l) != 3:
            raise Undecided('generators of the context')
        for name, g, v in l:
            leaf = '%s/%s' % (name, 'system seeder' if avail else 'no system seeder')
            ss = seeds(v, [])
            if v.op != 'app' or v.a[0] != 'new:' + g or any(x.op in ('weak', 'leak') for x in atoms(v)):
                C.results.append(Res(UNK, C.cur, 'generator %s: %s' % (name, show(v)[:120]), leaf, r.path))
            elif any(x.op == 'app' and x.a[0] in ('osrand', 'new:UnixSeeder') for x in atoms(v)):
                bad(C, leaf, r.path, r.span, '%s depends on system entropy although secure seeding is off: %s' % (name, show(v)[:160]))
            elif all(s.op == 'struct' and proj(s, 0) is ZERO for k, s in ss) and ss:
                ok(C, leaf, r.path)
            elif all(s.op == 'struct' and proj(s, 0).op == 'int' for k, s in ss):
                bad(C, leaf, r.path, r.span, '%s is not seeded with zero: %s' % (name, show(v)[:160]))
            else:
                C.results.append(Res(UNK, C.cur, show(v)[:160], leaf, r.path))
