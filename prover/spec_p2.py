"""Contracts of crypto/p256: secp256k1 points, hash to group."""
import hashlib

from contract import *
import contract as C
from logic import *
import lib as L
from tower import SP, SN

assert pow(7, (SP - 1) // 2, SP) == SP - 1        # no point has x = 0; the odd order leaves none with y = 0
CUR = f'(*{P2}MyBitCurve).'
BC = '(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).'
R = ('mod', SP)


def curve_ref(ex, st):
    return st.heap[ex.gaddr[P2 + 'CURVE']][1]


def is_curve(c, recv):
    """the receiver is the curve object, with the parameters of secp256k1"""
    ex, st = c.ex, c.st
    o = curve_ref(ex, st)
    if not isinstance(recv, Ref) or recv.o != o.o:
        raise NotApplicable('another curve')
    P, N, B, Gx, Gy, bits = st.heap[o.o][1][0]
    ok = [ex.cell(st, q).const() for q in (P, N, B, Gx, Gy)] == [SP, SN, 7] + list(SECPG)
    if not ok:
        raise NotApplicable('curve parameters')


def curve_variants(path, ge=False):
    """coordinates: arbitrary reduced integers, or those of a point"""
    def gen(V, con, f):
        def build(ex, st):
            it = ex.P.tid['math/big.Int']
            a = [Ref(curve_ref(ex, st).o, path)]
            for n in con.params[1:]:
                a.append(Ref(st.new(it, var(n, 0, SP - 1))))
            return a
        yield 'reduced coordinates', build
    return gen


def ints(c, *ns):
    return [view_int(c.ex, c.st, c.ref[n]) for n in ns]


def new_coords(c, g):
    """results of a curve operation for a group element: (0, 0) for infinity"""
    z = c.case(g.is_zero_cond())
    if z:
        return New('int', ZERO), New('int', ZERO)
    return New('int', g.coord(0)), New('int', g.coord(1))


def slope(x1, y1, num, den):
    l = num * mkinv(den, SP)
    x3 = l * l - x1[0] - x1[1]
    return x3, l * (x1[0] - x3) - y1


@contract(CUR + 'Add', 'c x1 y1 x2 y2', variants=curve_variants(()), shares=True)
def _(c):
    is_curve(c, c.ref['c'])
    x1, y1, x2, y2 = ints(c, 'x1', 'y1', 'x2', 'y2')
    a, b = secp_recognise(c.st, x1, y1), secp_recognise(c.st, x2, y2)
    if a is not None and b is not None and c.mode == 'apply':
        if a.iszero() or b.iszero():
            raise NotApplicable('infinity')
        if a.same(b):
            return c.ret(New('int', ZERO), New('int', ZERO))
        if not a.same(-b) and c.st.facts.decide(eq0(x1 - x2)) is not False:
            raise NotApplicable('points that may be equal')
        return c.ret(*new_coords(c, a + b))
    for q in (x1, x2, y1, y2):
        c.requires(not_(lt0(q)))
        c.requires(lt0(q - SP))
    if c.case(cong0(x1 - x2, SP)):
        c.ret(New('int', ZERO), New('int', ZERO))
    else:
        x3, y3 = slope((x1, x2), y1, y2 - y1, x2 - x1)
        c.ret(New('int', x3, R), New('int', y3, R))


@contract(BC + 'Double', 'c x y', variants=curve_variants((0,)), shares=True)
def _(c):
    is_curve(c, c.ref['c'])
    x, y = ints(c, 'x', 'y')
    a = secp_recognise(c.st, x, y)
    if a is not None and c.mode == 'apply':
        if a.iszero():
            raise NotApplicable('infinity')
        return c.ret(*new_coords(c, a + a))
    for q in (x, y):
        c.requires(not_(lt0(q)))
        c.requires(lt0(q - SP))
    c.requires(not_(cong0(y, SP)))
    x3, y3 = slope((x, x), y, x * x * 3, y * 2)
    c.ret(New('int', x3, R), New('int', y3, R))


@contract(BC + 'ScalarMult', 'c x y k', trusted=True)
def _(c):
    is_curve(c, c.ref['c'])
    x, y = ints(c, 'x', 'y')
    a = secp_recognise(c.st, x, y)
    if a is None or a.iszero():
        raise NotApplicable('point of unknown value')
    s = L.bytes_of(c.ex, c.st, c.ref['k'])
    k = L.int_of_bytes(s)
    lo, hi = interval(k)
    if lo is None or hi is None or lo < 0 or hi >= 1 << 256:
        raise NotApplicable('scalar of unknown size')
    # the C function refuses zero and unreduced scalars, the wrapper then returns nil
    if c.case(eq0(k)) or c.case(not_(lt0(k - SN))):
        return c.ret(NIL, NIL)
    g = a.mul(k)
    c.ret(New('int', g.coord(0)), New('int', g.coord(1)))


M = f'(*{P2}P256).'


@contract(M + 'IsZero', 'p')
def _(c):
    c.ret(c.p.is_zero_cond())


@contract(M + 'SetInfinity', 'p', outonly=('p',), shares=True)
def _(c):
    c.set('p', gzero('secp'))
    c.ret('p')


@contract(M + 'Neg', 'p a', outonly=('p',), shares=True)
def _(c):
    c.set('p', -c.a)
    c.ret('p')


@contract(M + 'Add', 'p a b', outonly=('p',), shares=True, partial=True)
def _(c):
    a, b = c.a, c.b
    if not a.iszero() and not b.iszero():
        c.requires(not_((a - b).is_zero_cond()))
    c.set('p', a + b)
    c.ret('p')


@contract(M + 'Multiply', 'p a b', outonly=('p',), shares=True)
def _(c):
    c.set('p', c.a + c.b)
    c.ret('p')


@contract(M + 'Double', 'p a', outonly=('p',), shares=True)
def _(c):
    c.set('p', c.a + c.a)
    c.ret('p')


@contract(M + 'ScalarMult', 'p a n', outonly=('p',), shares=True)
def _(c):
    c.set('p', c.a.mul(c.n))
    c.ret('p')


@contract(M + 'ScalarBaseMult', 'p n', outonly=('p',), shares=True)
def _(c):
    c.set('p', base('secp', 'SecpG').mul(c.n))
    c.ret('p')


@contract(PKG + 'util.CommitG1', 'x r h')
def _(c):
    c.ret(New('P256', base('secp', 'SecpG').mul(c.x) + c.h.mul(c.r)), NIL)


# ---------------------------------------------------------------- hash to group
def twos(N):
    """the integer that 32 bytes of unsigned value N denote"""
    return N - mkdiv(N, const(1 << 255)) * (1 << 256)


def candidate(m, i):
    """x-coordinate number i for a string: SHA-256(decimal i, m) in two's complement, modulo the field prime"""
    return mkmod(twos(L.int_of_bytes(Str((('sha', (Str((('dec', const(i)),)) + m).p),)))), SP)


def h2g_value(m):
    """the point for a literal string, by computation; None when there is none"""
    for i in range(256):
        N = int.from_bytes(hashlib.sha256(str(i).encode() + m).digest(), 'big')
        x = (N - (N >> 255) * (1 << 256)) % SP
        f = (x ** 3 + 7) % SP
        y = pow(f, (SP + 1) // 4, SP)
        if y * y % SP == f:
            return x, y
    return None


def h2g_apply(con, ex, st, args):
    """at a call with a literal: the point depends on the string only; it is on the curve and not infinity"""
    m = args[0].lit_() if isinstance(args[0], Str) else None
    if m is None or h2g_value(m) is None:
        return None
    r = alloc_any(ex, st, P2 + 'P256')
    write_p256(ex, st, r, base('secp', ('h2g', bytes(m))))
    return [(st, (r, NIL))]


def pure(p):
    """nothing but hashes of the argument enters the value"""
    return all(ATOMS[a].kind != 'var' or str(ATOMS[a].name).startswith('len:m') for a in deps(p))


def h2g_post(V, c, ent, fs, r, ob):
    ex = c.ex
    m = c.args[0]
    F = fs.facts
    if isinstance(r[1], Ifc):
        bad = [i for i in range(256) if F.decide(square(candidate(m, i))) is not False]
        return ob('an error only when no candidate is on the curve', not bad, f'untried: {bad[:5]}')
    if r[0] is NIL:
        return ob('a point or an error', False)
    X_, Y_ = ex.cell(fs, r[0])
    if X_ is NIL or Y_ is NIL:
        return ob('the point has coordinates', False)
    x, y = F.sub(ex.cell(fs, X_)), F.sub(ex.cell(fs, Y_))
    n = next((i for i in range(256) if F.decide(square(candidate(m, i))) is not False), None)
    ob('a candidate for the string', n is not None, f'x is {x}')
    if n is None:
        return
    ob('the first candidate on the curve', F.decide(eq0(x - candidate(m, n))) is True, f'x is {x}, expected candidate {n}: {candidate(m, n)}')
    ob('the candidate is on the curve', F.decide(square(candidate(m, n))) is True, f'candidate {n}')
    ob('the point satisfies the curve equation', F.decide(on_curve(x, y)) is True, f'{x}, {y}')
    lo, hi = interval(y)
    ob('reduced coordinates', lo is not None and lo >= 0 and hi is not None and hi < SP, f'{y}')
    ob('not infinity', F.decide(and_(eq0(x), eq0(y))) is False or F.decide(on_curve(ZERO, ZERO)) is False)
    ob('the same point for the same string', pure(x) and pure(y), f'{x}, {y}')


def square(x):
    """x^3 + 7 is a square"""
    return Cond('pred', 'square', normal(x * x * x + 7, SP), SP)


def on_curve(x, y):
    return cong0(y * y - x * x * x - 7, SP)


def h2g_variants(V, con, f):
    yield 'any string', lambda ex, st: [Str((('sym', 'm', var('len:m', 1, 1 << 40)),))]
    yield 'empty string', lambda ex, st: [Str(())]


@contract(P2 + 'MapToGroup', 'm', apply=h2g_apply, variants=h2g_variants, post=h2g_post)
def _(c):
    pass


def int_coord_variants(V, con, f):
    def mk(ex, st):
        it = ex.P.tid['math/big.Int']
        return [Ref(st.new(ex.P.tid[P2 + 'P256'], tuple(Ref(st.new(it, var(n))) for n in 'XY')))]
    yield 'any coordinates', mk


@contract(M + 'IsOnCurve', 'p', variants=int_coord_variants, apply=lambda con, ex, st, args: None)
def _(c):
    X_, Y_ = c.ex.cell(c.st, c.ref['p'])
    c.ret(on_curve(c.ex.cell(c.st, X_), c.ex.cell(c.st, Y_)))


def congruent_post(want):
    def post(V, c, ent, fs, r, ob):
        ob('no error', r[1] is NIL, f'error is {r[1]}')
        w = c.ex.cell(fs, r[0])
        v = want(c.ex.cell(ent, c.args[0]) if isinstance(c.args[0], Ref) else c.args[0])
        ob('the result modulo the field prime', fs.facts.decide(cong0(w - v, SP)) is True, f'{w}, expected {v}')
    return post


@contract(P2 + 'F', 'x', post=congruent_post(lambda x: x ** 3 + 7), apply=lambda con, ex, st, args: None)
def _(c):
    pass


def buffer_variants(V, con, f):
    yield 'any contents', lambda ex, st: [Str((('sym', 'b', var('len:b', 1, 1 << 40)),))]
    yield 'empty', lambda ex, st: [Str(())]


@contract(P2 + 'HashToInt', 'b', variants=buffer_variants, apply=lambda con, ex, st, args: None,
          post=congruent_post(lambda b: twos(L.int_of_bytes(Str((('sha', b.p),))))))
def _(c):
    pass
