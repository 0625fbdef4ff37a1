"""The command line program: what it prints and which library calls it makes, from the value-flow summary of `main` with every library
call kept uninterpreted.  The printed text is a value of the summary (the list of format pieces written so far)."""
import terms as X
import model
import specs
from terms import *
from check import *
from engine import Engine, rproj, ok as okv, State, ref
from canon import canon
from props import obl
from obl_flow import ok, bad

TF = 'params::TFHEParameters'
OP = 'params::ORAMParameters'
SP = 'params::ServerParams'
CLIP = 'cli::Cli'


class Call:
    def __init__(self, t, name, args, ret, post):
        self.t, self.name, self.args, self.ret, self.post = t, name, args, ret, post


def uninterpreted(C, E, path, calls):
    body = C.lib.bodies[path]

    def f(E, st, args, fn):
        t = E.tick()
        vals = [E.val(st, a) for a in args]
        short = path.rsplit('::', 1)[-1]
        ret = model.typed_app('call:' + path, body.tys[0], INT(t), *vals)
        post = {}
        for i, a in enumerate(args):
            ty = body.tys[i + 1]
            if ty[0] == 'ref' and a.op in ('ref', 'iteref') and body.j['locals'][i + 1].get('mut'):
                post[i] = model.typed_app('post:' + path, ty[1], INT(t), INT(i), *vals)
                E.write(st, E.at(st, a), post[i])
        calls[:] = [c for c in calls if c.t != t] + [Call(t, path, vals, ret, post)]
        return ret
    return f


INLINE = ('params::', '<params::', 'cli::', '<cli::', 'utils::')


def program(C, params=None, cli=None, facts=None):
    """summary of main.  params: the list a readable parameter file expands to (None: no readable file); cli: parsed options"""
    body = C.body('bin::main')
    E = C.engine()
    calls = E.events
    E.unroll = True
    E.specs = {}
    for p, b in C.lib.bodies.items():
        if '{' not in p and not p.startswith(INLINE) and b.kind != 'Closure':
            E.specs[p] = uninterpreted(C, E, p, calls)
    E.models = dict(E.models)
    opened = []

    def fopen(E, st, a, fn, dty):
        opened.append(E.val(st, a[0]))
        if params is None:
            return mk('enum', ONE, ((0, ((0, opq('file', None)),)), (1, ((0, opq('io-error', None)),))))
        return okv(opq('file', None))
    for n, f in (('std::fs::File::open', fopen),
                 ('clap_builder::derive::Parser::parse', lambda E, st, a, fn, dty: cli),
                 ('alloc::io::buffered::bufreader::BufReader::<R>::new', lambda E, st, a, fn, dty: app('reader', a[0])),
                 ('serde_json::de::from_reader', lambda E, st, a, fn, dty: mk('enum', app('unreadable'), ((0, ((0, app('parsed', a[0])),)), (1, ((0, opq('err', None)),))))),
                 ('core::result::Result::<T, E>::unwrap_or_default', lambda E, st, a, fn, dty: merge(discr(a[0]), app('default'), payload(a[0], 0, 0))),
                 ('core::time::Duration::as_secs_f64', lambda E, st, a, fn, dty: E.val(st, a[0]))):
        E.models[n] = f
    expanded = []

    def expand(E, st, args, fn):
        expanded.append(E.val(st, args[0]))
        return mk('list', *params) if params is not None else weak('parameter file')
    E.specs['params::ServerParams::from_input_params_list'] = expand
    st = State()
    if facts is not None:
        st.f = facts
    E.out = E.new_cell(st, mk('list'))
    r = Run(C, E, 'bin::main', body, [], st)
    r.calls = calls
    r.opened, r.expanded = opened, expanded
    r.text = st.c[E.out]
    return r


def struct(C, adt, **vals):
    d = X.ADT[adt]['variants'][0][1]
    return mk_struct(adt, tuple((i, vals.get(n, X.special(opq(('opt', adt, n), ty)))) for i, (n, ty) in enumerate(d)))


def options(C, **vals):
    return struct(C, CLIP, **vals)


def config(C, v, tag):
    """an arbitrary parameter set of the given kind, with two iterations"""
    d = X.ADT[OP]['variants']
    fs = []
    for j, (vn, fl) in enumerate(d):
        fs.append((j, tuple((i, INT(2) if n == 'iterations' else opq(('cfg', tag, vn, n), ty)) for i, (n, ty) in enumerate(fl))))
    o = mk('enum', INT(v), tuple(fs))
    t = X.special(opq(('tfhe', tag), ('adt', TF, ())))
    return mk_struct(SP, ((C.field(SP, 'oram'), o), (C.field(SP, 'tfhe'), t)))


def lines(C, r):
    """printed lines, each a list of comma separated fields, each a list of pieces (text or printed value)"""
    if r.text.op != 'list':
        raise Undecided('printed text: %s' % show(r.text)[:120])
    out, cur = [], [[]]
    for t in r.text.a:
        if t.op == 'struct' and t.a[0] == 'Out':
            cur[-1].append(t)
            continue
        if t.op != 'str':
            raise Undecided('printed text: %s' % show(t)[:120])
        for ch in t.a[0]:
            if ch == '\n':
                out.append(cur)
                cur = [[]]
            elif ch == ',':
                cur.append([])
            elif cur[-1] and isinstance(cur[-1][-1], str):
                cur[-1][-1] += ch
            else:
                cur[-1].append(ch)
    if cur != [[]]:
        out.append(cur)
    return out


def log2(C, x):
    r = C.run('utils::log2')
    return X.replace(r.ret, {r.arg(0): x})


def setting(C, p, v, name):
    """value of a named parameter of configuration p (kind v)"""
    o = proj(p, C.field(SP, 'oram'))
    for i, (n, ty) in enumerate(X.ADT[OP]['variants'][v][1]):
        if n == name:
            return payload(o, v, i)
    raise Undecided('no parameter %s' % name)


DB = ('setup_random_oram', 'process_one', 'process_multi', 'process_batch')
PROCESS = ('process_one', 'process_multi', 'process_batch')
KIND = ('single', 'parallel', 'batched')


def named(r, *names):
    return [c for c in r.calls if c.name.rsplit('::', 1)[-1] in names]


def column(C, r, h, p, v):
    """what the column named h of a record of kind v shows: list of texts and values; None when it is a measurement"""
    t = proj(p, C.field(SP, 'tfhe'))
    if h == 'plaintext_modulus':
        return ['2^', log2(C, proj(t, C.field(TF, h)))]
    if any(n == h for n, _ in X.ADT[TF]['variants'][0][1]):
        return [proj(t, C.field(TF, h))]
    if h == 'mode':
        return [str(v)]
    items = setting(C, p, v, 'item_count') if v < 2 else div(mul(setting(C, p, v, 'rows'), setting(C, p, v, 'cols')), INT(3))
    if h == 'item_count':
        return [items]
    if h == 'n':
        return ['2^', log2(C, items)]
    if h == 'query_count':
        return [setting(C, p, v, h)] if v == 1 else ['-']
    if h in ('rows', 'cols'):
        return [setting(C, p, v, h)] if v == 2 else ['-']
    return None


HEADER = ('mode', 'item_count', 'query_count', 'rows', 'cols', 'n', 'setup_duration', 'server_duration', 'response_duration', 'final_noise')


def check_records(C, r, ps, dry, tag):
    fn, at = 'bin::main', r.span
    ls = lines(C, r)
    recs = [l for l in ls if not (l[0] and isinstance(l[0][0], str) and l[0][0].startswith('#'))]
    if not recs or not all(len(f) == 1 and isinstance(f[0], str) for f in recs[0]):
        bad(C, tag + 'header', fn, at, 'the first line printed is not the header')
        return
    head, recs = [f[0] for f in recs[0]], recs[1:]
    want = [n for n, _ in X.ADT[TF]['variants'][0][1]] + list(HEADER)
    if sorted(head) != sorted(want):
        raise Undecided('unknown header')
    ok(C, tag + 'header', fn)
    if len(recs) != len(ps):
        bad(C, tag + 'records', fn, at, '%d records printed for %d configurations' % (len(recs), len(ps)))
        return
    ok(C, tag + 'records', fn)
    for j, ((v, p), rec) in enumerate(zip(ps, recs)):
        leaf = '%s%s %d' % (tag, KIND[v], j)
        if len(rec) != len(head):
            bad(C, leaf + ' fields', fn, at, 'the record of a %s%s run has %d fields, the header %d' % ('dry ' if dry else '', KIND[v], len(rec), len(head)))
            continue
        for h, f in zip(head, rec):
            exp = column(C, r, h, p, v)
            if exp is None:
                if dry and f != ['-']:
                    bad(C, leaf + ' ' + h, fn, at, 'a dry run reports a %s' % h)
                elif not dry:
                    measured(C, r, leaf + ' ' + h, h, f, j)
                continue
            if len(f) != len(exp) or any(isinstance(a, str) != isinstance(b, str) or isinstance(a, str) and a != b for a, b in zip(f, exp)):
                bad(C, leaf + ' ' + h, fn, at, 'column %s of a %s record shows %s' % (h, KIND[v], [x if isinstance(x, str) else show(proj(x, 'v'))[:60] for x in f]))
                continue
            for a, b in zip(f, exp):
                if not isinstance(a, str):
                    C.expect(r, leaf + ' ' + h, proj(a, 'v'), b)
            if all(isinstance(a, str) for a in f):
                ok(C, leaf + ' ' + h, fn)


def segment(r, j):
    """calls that belong to the j-th configuration: from its set-up to the next one"""
    st = [c.t for c in named(r, 'setup_random_oram')]
    if j >= len(st):
        return []
    hi = st[j + 1] if j + 1 < len(st) else 1 << 60
    return [c for c in r.calls if st[j] <= c.t < hi]


def measured(C, r, leaf, h, f, j):
    fn, at = 'bin::main', r.span
    seg = segment(r, j)
    pr = [c for c in seg if c.name.rsplit('::', 1)[-1] in PROCESS][:1]
    if len(f) != 1 or isinstance(f[0], str):
        bad(C, leaf, fn, at, '%s is not a measured value' % h)
        return
    x = proj(f[0], 'v')
    if not seg or not pr or x.wk:
        C.results.append(Res(UNK, C.cur, show(x)[:100], leaf, fn))
        return
    su, pr = seg[0], pr[0]
    q = max([c.t for c in seg if c.name.rsplit('::', 1)[-1].startswith('gen_read_query') and c.t < pr.t] or [su.t])
    if h in ('setup_duration', 'server_duration'):
        if not (x.op == 'app' and x.a[0] == 'elapsed' and x.a[1].op == 'app' and x.a[1].a[0] == 'instant'):
            (bad if x is proj(pr.ret, 1) else unk)(C, leaf, fn, at, '%s shows %s' % (h, show(x)[:80]))
            return
        a, b = x.a[1].a[1].a[0], x.a[2].a[0]
        good = a < su.t and q < b < pr.t if h == 'setup_duration' else q < a < pr.t < b
    elif h == 'response_duration':
        good = x is proj(pr.ret, 1)
        if not good and not (x.op == 'app' and x.a[0] == 'elapsed'):
            unk(C, leaf, fn, at, show(x)[:100])
            return
    else:
        good = mentions(x, 'call:rlwe::compute_noise_encoded')
        if not good and not (x.op == 'app' and x.a[0] == 'elapsed') and x is not proj(pr.ret, 1):
            unk(C, leaf, fn, at, show(x)[:100])
            return
    if good:
        ok(C, leaf, fn)
    else:
        bad(C, leaf, fn, at, 'the column %s does not show the %s: %s' % (h, h.replace('_', ' '), show(x)[:120]))


def unk(C, leaf, fn, at, msg):
    C.results.append(Res(UNK, C.cur, msg, leaf, fn))


def mentions(x, name):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'app' and y.a[0] == name:
                return True
            todo.extend(y.a)
        elif isinstance(y, tuple):
            todo.extend(y)
    return False


def check_calls(C, r, ps, dry, tag):
    fn, at = 'bin::main', r.span
    if dry:
        if r.calls:
            bad(C, tag + 'dry run', fn, at, 'a dry run calls %s' % r.calls[0].name)
        else:
            ok(C, tag + 'dry run', fn)
        return
    su = named(r, 'setup_random_oram')
    if len(su) != len(ps):
        bad(C, tag + 'set-ups', fn, at, '%d set-ups for %d configurations' % (len(su), len(ps)))
        return
    for j, (v, p) in enumerate(ps):
        leaf = '%s%s %d' % (tag, KIND[v], j)
        c = su[j]
        rows, cols = (ONE, setting(C, p, v, 'item_count')) if v < 2 else (setting(C, p, v, 'rows'), setting(C, p, v, 'cols'))
        C.expect(r, leaf + ' rows', c.args[0], rows)
        C.expect(r, leaf + ' cols', c.args[1], cols)
        C.expect(r, leaf + ' parameters', c.args[3], proj(p, C.field(SP, 'tfhe')))
        seg = segment(r, j)
        pr = [x for x in seg if x.name.rsplit('::', 1)[-1] in PROCESS]
        if not pr or any(x.name != 'oram::Server::' + PROCESS[v] for x in pr):
            bad(C, leaf + ' query', fn, at, 'a %s experiment runs %s' % (KIND[v], ', '.join(x.name for x in pr) or 'no query'))
            continue
        ok(C, leaf + ' query', fn)
        if v == 1:
            C.expect(r, leaf + ' number of queries', length(pr[0].args[1]), setting(C, p, v, 'query_count'))
        hs = [x for x in r.calls if x.name == 'naive_hash::NaiveHash::new' and x.ret is c.args[2]]
        if len(hs) != 1:
            unk(C, leaf + ' hash', fn, at, 'hash functions of the experiment')
            continue
        C.expect(r, leaf + ' hash functions', hs[0].args[0], INT(3) if v == 2 else ONE)
        C.expect(r, leaf + ' items', hs[0].args[1], column(C, r, 'item_count', p, v)[0])


def from_cli(C, v, cli):
    """the configuration the command line options describe"""
    get = lambda n: proj(cli, C.field(CLIP, n))
    o = mk('enum', INT(v), tuple((j, tuple((i, ONE if n == 'iterations' else get(n)) for i, (n, ty) in enumerate(fl)))
                                 for j, (vn, fl) in enumerate(X.ADT[OP]['variants'])))
    t = mk_struct(TF, tuple((i, get(n)) for i, (n, ty) in enumerate(X.ADT[TF]['variants'][0][1])))
    return mk_struct(SP, ((C.field(SP, 'oram'), o), (C.field(SP, 'tfhe'), t)))


FILES = ((0, 1, 2), (2, 2, 1, 0))


def with_file(C):
    for dry in (0, 1):
        for vs in FILES:
            ps = [(v, config(C, v, 'p%d' % i)) for i, v in enumerate(vs)]
            r = program(C, [p for v, p in ps], options(C, dryrun=INT(dry)))
            yield r, ps, dry, 'file %s%s: ' % ('dry ' if dry else '', vs)


def with_options(C):
    for dry in (0, 1):
        for m in (0, 1, 2):
            mode = INT(m) if m < 2 else opq(('opt', CLIP, 'mode'), ('prim', 'usize'))
            cli = options(C, dryrun=INT(dry), mode=mode)
            r = program(C, None, cli, Facts().plus_ge(sub(mode, INT(m))))
            yield r, [(m, from_cli(C, m, cli))], dry, 'options %s%s: ' % ('dry ' if dry else '', KIND[m])


def runs(C):
    if not hasattr(C, '_cli'):
        C._cli = list(with_file(C)) + list(with_options(C))
    return C._cli


@obl('C18', 'every configuration prints one record that matches the header')
def records(C):
    for r, ps, dry, tag in runs(C):
        check_records(C, r, ps, dry, tag)


@obl('C18', 'the experiment of the mode runs with its own sizes, and nothing runs in a dry run')
def experiments(C):
    for r, ps, dry, tag in runs(C):
        check_calls(C, r, ps, dry, tag)


@obl('C18', 'the parameter file named on the command line is read and expanded')
def file(C):
    for r, ps, dry, tag in runs(C):
        fn, at = 'bin::main', r.span
        if len(r.opened) != 1 or r.opened[0] is not opq(('opt', CLIP, 'params')):
            unk(C, tag + 'path', fn, at, 'files opened: %s' % [show(x)[:50] for x in r.opened])
            continue
        ok(C, tag + 'path', fn)
        if tag.startswith('file'):
            x = r.expanded[0] if len(r.expanded) == 1 else X.weak('expansion')
            x = X.replace(x, {app('unreadable'): ZERO})
            if x is app('parsed', app('reader', opq('file', None))):
                ok(C, tag + 'expansion', fn)
            elif x.wk:
                unk(C, tag + 'expansion', fn, at, show(x)[:100])
            else:
                bad(C, tag + 'expansion', fn, at, 'the parameters used are %s' % show(x)[:100])


if __name__ == '__main__':
    import sys, check
    C = check.Ctx(sys.argv[1])
    r = program(C, params=[config(C, int(sys.argv[2]), 'p')], cli=options(C, dryrun=INT(int(sys.argv[3]))))
    print(str(r.text)[:3000])
    for c in r.calls:
        print(c.t, c.name, [str(x)[:60] for x in c.args][:5])
    print(r.opened, [str(x)[:200] for x in r.expanded], r.E.unknown, r.E.weak_notes[:5])
