"""Analyse single functions on opaque arguments and print the resulting value terms (development aid)."""
import sys, time, traceback
import ir, terms as X, model
from engine import *

def mkengine(d='/tmp/w/out'):
    lib, binc = ir.load(d + '/panacea-lib.json', d + '/panacea-bin.json')
    model.setup_terms(lib)
    E = Engine(lib, binc)
    model.install(E)
    import specs
    specs.install(E)
    return E

def opaque_args(E, st, body):
    args = []
    for i in range(1, body.argc + 1):
        t = body.tys[i]
        nm = body.names.get(i, 'a%d' % i)
        args.append(opaque_val(E, st, nm, t))
    return args

def opaque_val(E, st, nm, t):
    if t[0] == 'ref':
        c = ('arg', nm)
        st.c[c] = opaque_val(E, st, nm, t[1])
        return ref(c)
    return X.special(opq(('arg', nm, t), t))

if __name__ == '__main__':
    E = mkengine()
    E.debug = True
    for pat in sys.argv[1:]:
        for p, b in E.bodies.items():
            if pat == p or p.endswith('::' + pat):
                st = State()
                args = opaque_args(E, st, b)
                E.unknown.clear(); E.weak_notes.clear(); E.steps = 0
                print('=====', p)
                t0 = time.time()
                try:
                    r = E.run_fn(p, args, st)
                    print('ret =', X.show(r, 12))
                    for c, v in st.c.items():
                        if c[0] == 'arg':
                            print('  ', c[1], '=', X.show(v, 12))
                except Exception:
                    traceback.print_exc()
                print('   [%.2fs steps %d] unknown: %s notes: %s' % (time.time() - t0, E.steps, E.unknown, E.weak_notes))
