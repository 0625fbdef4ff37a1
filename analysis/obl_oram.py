"""ORAM protocol obligations."""
import terms as X
from terms import *
from check import *
from specs import rlwe, mb, extp, radd, rsub, RLWE
from props import obl

CTX = 'context::Context'
SRV = 'oram::Server'
QRY = 'oram::ClientQuery'
RGSW = 'rgsw::RGSWCiphertext'


def ctxf(C, ctx, n):
    return C.fld(ctx, CTX, n)


def row_of(g, k):
    return proj(proj(proj(g, 0), 'rows'), ('i', k))


def gadget_shift(C, ctx, lvl):
    """64 - base_log*(lvl+1)"""
    bl = proj(ctxf(C, ctx, 'base_log'), 0)
    return sub(INT(64), mul(bl, add(lvl, ONE)))


def selectors(C, ctx, neg_s, bits, cols):
    """L_j: the RGSW selector of column j assembled from the demultiplexed gadget terms"""
    lc = proj(ctxf(C, ctx, 'level_count'), 0)

    def L(j):
        def row(k):
            lvl = X.div(k, INT(2))
            base = rlwe(ZERO, pow2(gadget_shift(C, ctx, lvl)))
            c = rlwe(*ext(app('dmx', bits, ZERO, j), *mb(base)))
            s = extp(neg_s, c)
            return merge(EQ(X.rem(k, INT(2)), ZERO), proj(s, 0), proj(c, 0))
        rows = mk_arr(scale(lc, 2), row)
        return mk_struct(RGSW, ((0, mk_struct('Ggsw', (('rows', rows), ('bl', proj(ctxf(C, ctx, 'base_log'), 0)),
                                                        ('lc', lc)))),))
    return L


def rsum(n, f):
    m = mk_sum(n, lambda j: mb(f(j))[0])
    b = mk_sum(n, lambda j: mb(f(j))[1])
    return rlwe(m, b)


def server(C, r):
    s = r.arg(0)
    data = proj(s, C.ftype(SRV, lambda t: 'RwLock' in t))
    neg_s = proj(s, C.ftype(SRV, lambda t: 'RGSWCiphertext' in t))
    ctx = proj(s, C.ftype(SRV, lambda t: 'context::Context' in t))
    so = r.out(0)
    return data, neg_s, ctx, proj(so, C.ftype(SRV, lambda t: 'RwLock' in t))


def query(C, q):
    bits = proj(q, C.ftype(QRY, lambda t: 'Vec' in t and 'RGSW' in t))
    op = proj(proj(q, C.ftype(QRY, lambda t: 'EncOP' in t)), 0)
    data = proj(q, C.ftype(QRY, lambda t: 'RLWECiphertext' in t))
    return bits, op, data


def rw_val(op, new, old):
    return radd(old, extp(op, rsub(new, old)))


@obl('C01', 'single query: response is the selector-weighted sum of every column')
def one_read(C):
    r = C.run('oram::Server::process_one')
    data, neg_s, ctx, _ = server(C, r)
    bits, op, new = query(C, r.arg(1))
    D = proj(data, ('i', ZERO))
    L = selectors(C, ctx, neg_s, bits, length(D))
    y = rsum(length(D), lambda j: extp(L(j), proj(D, ('i', j))))
    C.expect(r, 'response', proj(r.ret, 0), y)


@obl('C02', 'single query: database update')
def one_write(C):
    r = C.run('oram::Server::process_one')
    data, neg_s, ctx, out = server(C, r)
    bits, op, new = query(C, r.arg(1))
    D = proj(data, ('i', ZERO))
    L = selectors(C, ctx, neg_s, bits, length(D))

    def upd_(j):
        d = proj(D, ('i', j))
        return radd(d, extp(L(j), rsub(rw_val(op, new, d), d)))
    C.expect(r, 'database row 0', proj(out, ('i', ZERO)), mk_arr(length(D), upd_))
    row, f = var('r', length(data))
    f = f.plus_ge(sub(row, ONE))
    C.expect(r, 'other rows unchanged', proj(out, ('i', row)), proj(data, ('i', row)), facts=f)
