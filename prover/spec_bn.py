"""Contracts for crypto/bn256: number pool, field tower, curves."""
from contract import *
import tower

Pm = tower.P


# ---------------------------------------------------------------- pool
def pool_get(con, ex, st, args):
    if args[0] is NIL:
        return [(st, Ref(st.new(ex.P.tid['math/big.Int'], ZERO)))]
    return [(st, Ref(st.new(ex.P.tid['math/big.Int'], fresh('pooled'))))]


def recycle(ex, st, o, what='number'):
    if o in st.dead:
        ex.viol(st, 'recycled', f'a {what} is recycled twice')
    if o in ex.gaddr.values() or o not in st.alloc[ex.entry:] and ex.entry is not None:
        ex.viol(st, 'recycled', f'a {what} that belongs to someone else is recycled')
    st.dead.add(o)


def pool_put(con, ex, st, args):
    if args[0] is NIL:
        return [(st, ())]
    r = args[1]
    if r is NIL:
        return None
    if not isinstance(r, Ref) or r.p:
        raise Unsupported('recycling ' + repr(r))
    recycle(ex, st, r.o)
    return [(st, ())]


def nospec(c):
    raise Unsupported('no functional specification')


CONTRACTS['(*' + BN + 'bnPool).Get'] = Contract('(*' + BN + 'bnPool).Get', 'pool', nospec, apply=pool_get, special='pool')
CONTRACTS['(*' + BN + 'bnPool).Put'] = Contract('(*' + BN + 'bnPool).Put', 'pool bn', nospec, apply=pool_put, special='pool')


def new_apply(tn):
    def ap(con, ex, st, args):
        if tn in ex.leafs:
            return [(st, alloc_any(ex, st, tn))]
        return None
    return ap


def put_apply(tn):
    def ap(con, ex, st, args):
        r = args[0]
        if isinstance(r, Ref) and isinstance(st.heap[r.o][1], Leaf):
            if args[1] is not NIL:
                recycle(ex, st, r.o, tn.split('.')[-1])
            return [(st, ())]
        return None
    return ap


for nm, fn in (('gfP2', 'newGFp2'), ('gfP6', 'newGFp6'), ('gfP12', 'newGFp12'), ('curvePoint', 'newCurvePoint'),
               ('twistPoint', 'newTwistPoint')):
    def spec(c, nm=nm):
        c.ret(New(nm, ANY))
    CONTRACTS[BN + fn] = Contract(BN + fn, 'pool', spec, apply=new_apply(BN + nm), nilpool=True)

    def spec2(c):
        pass
    n = f'(*{BN}{nm}).Put'
    CONTRACTS[n] = Contract(n, 'e pool', spec2, apply=put_apply(BN + nm), putself=True, nilpool=True,
                            kinds={'e': [None]})

# ---------------------------------------------------------------- fields
TOW = ('gfP2', 'gfP6', 'gfP12')


def sub_rng(a, b):
    if a.reduced() and b.reduced():
        return 'diff'
    return 'any'


def add_rng(nm, a, b):
    if a.reduced() and b.reduced() and 'gfP2' == nm and red(a.p - b.p) == ZERO:
        return 'wf'
    return 'any'


def nm_leaf(c):
    return isinstance(c.ex.cell(c.st, c.ref['e']), Leaf)


for nm in TOW:
    RED = {n: [None, 'red'] for n in 'ab'}

    @contract(nm + '.Set', 'e a')
    def _(c):
        a = c.a
        if isinstance(a, GE):
            c.set('e', a)
            return c.ret('e')
        c.set('e', a, 'exact' if a.ints is not None else a.rng or 'any', a.ints)
        c.ret('e')

    @contract(nm + '.SetZero', 'e')
    def _(c, nm=nm):
        c.set('e', ZERO, 'exact', (ZERO,) * {'gfP2': 2, 'gfP6': 6, 'gfP12': 12}[nm])
        c.ret('e')

    @contract(nm + '.SetOne', 'e')
    def _(c, nm=nm):
        if c.ex.mono and BN + nm == c.ex.monot and nm_leaf(c):
            c.set('e', gzero(c.ex.mono))
            return c.ret('e')
        c.set('e', ONE, 'exact', (ZERO,) * ({'gfP2': 2, 'gfP6': 6, 'gfP12': 12}[nm] - 1) + (ONE,))
        c.ret('e')

    @contract(nm + '.Minimal', 'e', kinds={'e': [None]})
    def _(c):
        c.set('e', c.e, 'red')

    @contract(nm + '.Add', 'e a b', kinds=RED)
    def _(c, nm=nm):
        c.set('e', c.a.p + c.b.p, add_rng(nm, c.a, c.b))
        c.ret('e')

    @contract(nm + '.Sub', 'e a b', kinds=RED)
    def _(c):
        c.set('e', c.a.p - c.b.p, sub_rng(c.a, c.b))
        c.ret('e')

    if nm != 'gfP12':
        @contract(nm + '.Double', 'e a')
        def _(c, nm=nm):
            c.set('e', c.a.p * 2, add_rng(nm, c.a, c.a))
            c.ret('e')

    @contract(nm + '.Negative', 'e a', kinds=RED)
    def _(c):
        c.set('e', -c.a.p, 'diff' if c.a.reduced() else 'any')
        c.ret('e')

    @contract(nm + '.Mul', 'e a b pool')
    def _(c, nm=nm):
        if isinstance(c.a, GE):
            c.set('e', c.a + c.b)
            return c.ret('e')
        c.set('e', red(c.a.p * c.b.p), 'red' if nm == 'gfP2' else 'any')
        c.ret('e')

    @contract(nm + '.Square', 'e a pool')
    def _(c, nm=nm):
        if isinstance(c.a, GE):
            c.set('e', c.a + c.a)
            return c.ret('e')
        c.set('e', red(c.a.p * c.a.p), 'red' if nm == 'gfP2' else 'any')
        c.ret('e')


def zero_ints(c, e):
    """condition: every integer coefficient is 0"""
    if e.ints is not None:
        return and_(*(eq0(x) for x in e.ints))
    if e.p.const() is not None:
        return e.p.const() == 0
    if e.rng in ('red', 'diff', 'wf'):
        return el_cong0(e.p, c.st.facts)
    raise NotApplicable('zero test of an unreduced value')


def one_ints(c, e):
    if e.ints is not None:
        return and_(*(eq0(x) for x in e.ints[:-1]), eq0(e.ints[-1] - 1))
    if e.p.const() is not None:
        return e.p.const() == 1
    if e.rng == 'red':
        return el_cong0(e.p - 1, c.st.facts)
    raise NotApplicable('one test of an unreduced value')


for nm in ('gfP2', 'gfP6'):
    @contract(nm + '.IsZero', 'e', kinds={'e': [None, 'red']})
    def _(c):
        if c.mode == 'verify' and not c.e.reduced():
            # exactness is only promised on reduced elements; elsewhere only
            # that true means zero
            c.ret(Implies(eq_mod0(c.e)))
            return
        c.ret(zero_ints(c, c.e))

    @contract(nm + '.IsOne', 'e', kinds={'e': ['red', 'nn']})
    def _(c):
        if not c.e.reduced() and c.mode == 'verify':
            # on an unreduced non-negative representation: true only for one
            xs = c.e.ints
            c.ret(Implies(and_(*(cong0(x, Pm) for x in xs[:-1]), cong0(xs[-1] - 1, Pm))))
            return
        if not c.e.reduced() and c.e.rng == 'wf':
            p = c.e.p
            if p.const() is not None:
                c.ret(p.const() == 1)
                return
            r = c.case(Cond('pred', 'printed as one', p))
            if r:
                c.learn(el_cong0(p - 1, c.st.facts))
            c.ret(r)
            return
        if not c.e.reduced():
            raise NotApplicable('one test of an unreduced value')
        c.ret(one_ints(c, c.e))


def eq_mod0(e):
    return and_(*(cong0(x, Pm) for x in e.ints))


for nm in ('gfP12',):
    @contract(nm + '.IsZero', 'e')
    def _(c):
        c.set('e', c.e, 'red')
        c.ret(and_(*(cong0(x, Pm) for x in need_ints(c.e))))

    @contract(nm + '.IsOne', 'e')
    def _(c):
        if isinstance(c.e, GE):
            c.ret(c.e.is_zero_cond())
            return
        c.set('e', c.e, 'red')
        xs = need_ints(c.e)
        c.ret(and_(*(cong0(x, Pm) for x in xs[:-1]), cong0(xs[-1] - 1, Pm)))


def need_ints(e):
    if e.ints is None:
        raise NotApplicable('abstract element')
    return e.ints


@contract('gfP2.Conjugate', 'e a')
def _(c):
    x, y = need_ints(c.a)
    c.set('e', y - x * I, 'any')
    c.ret('e')


@contract('gfP12.Conjugate', 'e a')
def _(c):
    # a^(p^6): W -> -W
    if isinstance(c.a, GE):
        c.set('e', c.a.mul(Pm ** 6))
        return c.ret('e')
    d = split(c.a.p)
    c.set('e', join({k: -v if k[0] else v for k, v in d.items()}), 'any')
    c.ret('e')


@contract('gfP2.MulScalar', 'e a b')
def _(c):
    c.set('e', c.a.p * c.b, 'any')
    c.ret('e')


@contract('gfP2.MulXi', 'e a pool')
def _(c):
    c.set('e', red(c.a.p * XI), 'any')
    c.ret('e')


@contract('gfP6.MulTau', 'e a pool')
def _(c):
    c.set('e', red(c.a.p * T), 'any')


@contract('gfP6.MulScalar', 'e a b pool')
def _(c):
    c.set('e', red(c.a.p * c.b.p), 'red')
    c.ret('e')


@contract('gfP6.MulGFP', 'e a b')
def _(c):
    c.set('e', red(c.a.p * c.b), 'any')
    c.ret('e')


@contract('gfP12.MulScalar', 'e a b pool')
def _(c):
    c.set('e', red(c.a.p * c.b.p), 'any')
    c.ret('e')


def frobenius(p, n):
    """p^(P^n) for an element with integer coefficients: I -> (-1)^n I,
    T -> T * XI^((P^n-1)/3), W -> W * XI^((P^n-1)/6)"""
    k = (n,)
    if k not in _fro:
        w = powtower(XI, (Pm ** n - 1) // 6)
        _fro[k] = (red(w * w), w)
    ft, fw = _fro[k]
    out = ZERO
    for (w, t, i), v in split(p).items():
        q = v
        if i:
            q = q * I if n % 2 == 0 else q * (-I)
        m = ONE
        for _ in range(t):
            m = red(m * ft)
        if w:
            m = red(m * fw)
        out = out + red(q * m) * T ** t * (W if w else ONE)
    return red(out)


_fro = {}
for nm in ('gfP6', 'gfP12'):
    @contract(nm + '.Frobenius', 'e a pool')
    def _(c):
        if isinstance(c.a, GE):
            c.set('e', c.a.mul(Pm))
            return c.ret('e')
        need_ints(c.a)
        c.set('e', frobenius(c.a.p, 1), 'any')
        c.ret('e')

    @contract(nm + '.FrobeniusP2', 'e a' + (' pool' if nm == 'gfP12' else ''))
    def _(c):
        if isinstance(c.a, GE):
            c.set('e', c.a.mul(Pm ** 2))
            return c.ret('e')
        need_ints(c.a)
        c.set('e', frobenius(c.a.p, 2), 'any')
        c.ret('e')


def norm(nm, a):
    if nm == 'gfP2':
        d = split(a)
        x, y = d.get((0, 0, 1), ZERO), d.get((0, 0, 0), ZERO)
        return x * x + y * y
    if nm == 'gfP6':
        d = split(a)
        z, y, x = (join({(0, 0, i): c for (w, t, i), c in d.items() if t == k}) for k in range(3))
        return red(x * x * x * XI * XI + y * y * y * XI + z * z * z - 3 * XI * x * y * z)
    # coefficients of 1 and W
    y = Poly({mo: c for mo, c in a.t.items() if aW not in dict(mo)})
    x = Poly({tuple(q for q in mo if q[0] != aW): c for mo, c in a.t.items() if aW in dict(mo)})
    return red(y * y - x * x * T)


def inverse(nm, a):
    """the inverse of a nonzero element, by the norm to the subfield"""
    n = inv_res(el_normal(norm(nm, a)), Pm)
    d = split(a)
    if nm == 'gfP2':
        return (d.get((0, 0, 0), ZERO) - d.get((0, 0, 1), ZERO) * I) * n
    if nm == 'gfP6':
        z, y, x = (join({(0, 0, i): c for (w, t, i), c in d.items() if t == k}) for k in range(3))
        return red((y * y - x * z) * n * T * T + (XI * x * x - y * z) * n * T + (z * z - XI * x * y) * n)
    y = Poly({mo: c for mo, c in a.t.items() if aW not in dict(mo)})
    x = Poly({tuple(q for q in mo if q[0] != aW): c for mo, c in a.t.items() if aW in dict(mo)})
    return red((y - x * W) * n)


for nm, mode in (('gfP2', 'int'), ('gfP6', 'leaf2'), ('gfP12', 'leaf6')):
    @contract(nm + '.Invert', 'e a pool', modes=[mode])
    def _(c, nm=nm):
        c.ret('e')
        if isinstance(c.a, GE):
            c.set('e', -c.a)
            return
        a = c.a.p
        rng = 'red' if nm == 'gfP2' else 'any'
        if c.a.ints is None and nm == 'gfP2' or nm == 'gfP6' and 'gfP6' in str(c.ex.leafs):
            # an element of a leaf field is its own norm
            if c.case(el_cong0(a, c.st.facts)):
                c.set('e', ANY)
                c.panics = True
            else:
                c.set('e', inv_res(el_normal(a), Pm), rng)
            return
        n = norm(nm, a)
        if c.case(el_cong0(n, c.st.facts)):
            c.set('e', ANY)
            c.panics = True
        else:
            c.set('e', inverse(nm, a), rng)

# ---------------------------------------------------------------- curves
def padd(c, A, B):
    if isinstance(A, GE):
        return A + B
    if A.inf:
        return B
    if B.inf:
        return A
    F = c.st.facts
    if c.elzero(A.x - B.x):
        if c.elzero(A.y - B.y):
            return pdbl(c, A)
        return Aff(True)        # on the curve, equal x and different y: opposite points
    l = (B.y - A.y) * inv_res(el_normal(B.x - A.x, F), Pm)
    x = l * l - A.x - B.x
    return Aff(False, x, l * (A.x - x) - A.y)


def pdbl(c, A):
    if isinstance(A, GE):
        return A + A
    if A.inf:
        return A
    l = 3 * A.x * A.x * inv_res(2 * el_normal(A.y, c.st.facts), Pm)    # y is not 0: no point of order two
    x = l * l - 2 * A.x
    return Aff(False, x, l * (A.x - x) - A.y)


def pneg(A):
    if isinstance(A, GE):
        return -A
    return A if A.inf else Aff(False, A.x, -A.y)


def infcond(A):
    return A.is_zero_cond() if isinstance(A, GE) else A.inf


for nm, mode in (('curvePoint', 'int'), ('twistPoint', 'leaf2')):
    pl = ' pool' if nm == 'twistPoint' else ''
    M = [mode]

    def setpt(c, n, v):
        c.set(n, PtRep(v))

    @contract(nm + '.Set', 'c a', modes=M, outonly=('c',))
    def _(c):
        c.set('c', PtRep(c.a, like=c.ref['a']))

    @contract(nm + '.SetInfinity', 'c', modes=M, outonly=('c',))
    def _(c, nm=nm):
        if c.ex.group:
            c.set('c', PtRep(gzero(POINTS[BN + nm])))
        else:
            c.set('c', PtRep(Aff(True)))

    @contract(nm + '.IsInfinity', 'c', modes=M)
    def _(c):
        if c.ex.group:
            c.ret(c.c.is_zero_cond())
            return
        c.ret(c.c.inf)

    @contract(nm + '.Double', 'c a pool', modes=M, outonly=('c',))
    def _(c):
        c.set('c', PtRep(pdbl(c, c.a)))

    @contract(nm + '.Add', 'c a b pool', modes=M, outonly=('c',))
    def _(c):
        c.set('c', PtRep(padd(c, c.a, c.b)))

    @contract(nm + '.Negative', 'c a' + pl, modes=M, outonly=('c',))
    def _(c):
        c.set('c', PtRep(pneg(c.a), zlike=c.ref['a']))

    @contract(nm + '.MakeAffine', 'c pool', modes=M, kinds={'c': ['inf', 'fin', 'one']}, nilpool=True)
    def _(c, nm=nm):
        if c.ex.group:
            c.case(c.c.is_zero_cond())
        c.set('c', PtRep(c.c, 'aff'))
        c.ret('c')

    @contract(nm + '.Mul', 'c a scalar pool', modes=['group'], outonly=('c',), nilpool=True, kinds={'scalar': ['nn']})
    def _(c):
        c.requires(ge0(c.scalar))
        if not c.ex.group:
            raise NotApplicable('coordinates')
        c.set('c', PtRep(c.a.mul(c.scalar)))
        c.ret('c')

# ---------------------------------------------------------------- exponentiation
@contract('gfP2.Exp', 'c a power pool', modes=['mono'], monot=BN + 'gfP2', outonly=('c',), nilpool=True, kinds={'power': ['nn']})
@contract('gfP12.Exp', 'c a power pool', modes=['mono'], outonly=('c',), nilpool=True, kinds={'power': ['nn']})
def _(c):
    # as an element of the monoid generated by a
    c.requires(ge0(c.power))
    if isinstance(c.a, GE):
        c.set('c', c.a.mul(c.power))
    else:
        n = c.power.const()
        if n is None or c.a.p.const() is None:
            raise NotApplicable('power of an explicit element')
        c.set('c', const(pow(c.a.p.const(), n, Pm)))
    c.ret('c')


# ---------------------------------------------------------------- groups
WRAP = {'G1': 'curvePoint', 'G2': 'twistPoint'}
GRP = ['group']
for nm in ('G1', 'G2'):
    grp = POINTS[BN + WRAP[nm]]

    @contract(nm + '.SetInfinity', 'e', modes=GRP)
    def _(c, grp=grp):
        c.set('e', PtRep(gzero(grp)))
        c.ret('e')

    @contract(nm + '.ScalarBaseMult', 'e k', modes=GRP)
    def _(c, grp=grp):
        c.set('e', PtRep(base(grp, grp.upper() + 'gen').mul(c.k)))
        c.ret('e')

    @contract(nm + '.ScalarMult', 'e a k', modes=GRP)
    def _(c):
        c.set('e', PtRep(c.a.mul(c.k)))
        c.ret('e')

    @contract(nm + '.Add', 'e a b', modes=GRP)
    def _(c):
        c.set('e', PtRep(c.a + c.b))
        c.ret('e')

    @contract(nm + '.Neg', 'e a', modes=GRP)
    def _(c):
        c.set('e', PtRep(-c.a))
        c.ret('e')

    @contract(nm + '.IsZero', 'e', modes=GRP, recv='')
    def _(c):
        c.ret(c.e.is_zero_cond())


@contract('GT.IsOne', 'e', modes=GRP, recv='')
def _(c):
    c.ret(c.e.is_zero_cond())


@contract('G1.SetZero', 'e', modes=GRP, recv='')
def _(c):
    c.set('e', PtRep(gzero('g1')))


for fn in ('ScalarMult', 'Exp'):
    @contract('GT.' + fn, 'e a k', modes=GRP)
    def _(c):
        c.set('e', c.a.mul(c.k))
        c.ret('e')

for fn in ('Invert', 'Neg'):
    @contract('GT.' + fn, 'e a', modes=GRP)
    def _(c):
        c.set('e', -c.a)
        c.ret('e')


@contract('GT.Add', 'e a b', modes=GRP)
def _(c):
    c.set('e', c.a + c.b)
    c.ret('e')


@contract('github.com/ing-bank/zkrp/util.Commit', 'x r h', modes=GRP)
def _(c):
    c.ret(New('G2', PtRep(base('g2', 'G2gen').mul(c.x) + c.h.mul(c.r))), NIL)
