"""Contracts of the pairing: line functions, Miller loop, final exponentiation.

The Miller value is described by the divisor of the function that is evaluated at the point of G1.  A line
through A and B has the divisor (A) + (B) + (-A-B) - 3(O).  Vertical lines take values in F_p^6 at these points
and disappear in the final exponentiation, so divisors are taken modulo (A) + (-A) - 2(O): the line is
(A) + (B) - (A+B).  An element of group fp12 named 'D...' stands for the class of such values modulo F_p^6*;
it is meaningful after the final exponentiation only, which is all the contracts of this file use."""
from contract import *
import contract as C
from base import *
import lib as L
import tower

Pm, R, U = tower.P, tower.ORDER, tower.U
FE = (Pm ** 12 - 1) // R
assert FE * R == Pm ** 12 - 1


def divisor(g, at):
    """the class of (g), evaluated at a point of G1"""
    if g.iszero():
        return gzero('fp12')
    s = 1
    if len(g.t) == 1:
        (b, k), = g.t.items()
        k = k.const()
        if k is not None:
            if k > R // 2:
                k, s = R - k, -1
            return base('fp12', f'D({k}*{b} at {at})').mul(s)
    a, b = sorted((repr(g.key()), repr((-g).key())))
    return base('fp12', f'D({a} at {at})').mul(1 if a == repr(g.key()) else -1)


def line(A, B, at):
    return divisor(A, at) + divisor(B, at) - divisor(A + B, at)


POISON = itertools.count()


def poisoned(g):
    return any(str(b).startswith('poison!') for b in g.t)


def affine(ex, st, ref, tn):
    """the point of an object whose x and y are the affine coordinates"""
    w = ex.cell(st, ref)
    if isinstance(w, Leaf):
        if w.v.iszero():
            return w.v
        raise NotApplicable('not affine')
    x, y, z, t = C.point_fields(ex, st, ref, tn)
    g = C.abstract_point(ex, st, tn, x.p, y.p, z.p)
    if g is None:
        raise NotApplicable('point of unknown value')
    return g


def jac(ex, st, ref):
    """a point of the twist with t = z^2"""
    w = ex.cell(st, ref)
    if isinstance(w, Leaf):
        if w.v.iszero():
            return w.v
        if w.rng != 't':
            raise NotApplicable('t coordinate')
        return w.v
    g = affine(ex, st, ref, BN + 'twistPoint')
    t = C.view_el(ex, st, w[3], BN + 'gfP2')
    if not g.iszero() and t.p != ONE:
        raise NotApplicable('t coordinate')
    return g


def line_apply(con, ex, st, args):
    if not ex.group:
        return None
    add = len(con.params) == 5

    def go(s):
        a = dict(zip(con.params, args))
        A = jac(ex, s, a['r'])
        at = affine(ex, s, a['q'], BN + 'curvePoint')
        bad = poisoned(A) or A.iszero() or at.iszero()
        B = affine(ex, s, a['p'], BN + 'twistPoint') if add and not bad else A
        it, gt = ex.P.tid['math/big.Int'], ex.P.tid[BN + 'gfP2']
        bad = bad or poisoned(B) or B.iszero()
        if not bad and add:
            y, r2 = C.view_el(ex, s, ex.cell(s, a['p'])[1], BN + 'gfP2'), C.view_el(ex, s, a['r2'], BN + 'gfP2')
            if el_normal(red(Tm.normal(r2.p, Pm)) - red(Tm.normal(y.p, Pm) * Tm.normal(y.p, Pm)), s.facts).t:
                raise NotApplicable('r2')
            for d in (A - B, A + B):
                if s.facts.decide(d.is_zero_cond()) is not False:
                    raise NotApplicable('equal or opposite points')
        if not bad and s.facts.decide(A.is_zero_cond()) is not False:
            raise NotApplicable('infinity')
        out = []
        for n in 'abc':
            cs = [fresh('poison') if bad else app(f'line.{n}.{i}', (A, B, at), None, None) for i in 'xy']
            out.append(Ref(s.new(gt, tuple(Ref(s.new(it, q)) for q in cs))))
        g = base('g2', f'poison!{next(POISON)}') if bad else A + B
        out.append(Ref(s.new(ex.P.tid[BN + 'twistPoint'], Leaf('g', g, 't'))))
        return tuple(out)
    return ex.split(st, go)


def line_variants(V, con, f):
    add = len(con.params) == 5

    def mk(rk, nilpool):
        def go(ex, st):
            r = V.mk(ex, st, BN + 'twistPoint', 'r', rk)
            q = V.mk(ex, st, BN + 'curvePoint', 'q', 'aff')
            pool = NIL if nilpool else Ref(st.new(ex.P.tid[BN + 'bnPool'], (POOLED, POOLED)))
            if not add:
                return [r, q, pool]
            p = V.mk(ex, st, BN + 'twistPoint', 'p', 'aff')
            st.facts.nz.append((var('p.X') - var('r.X'), Pm))       # neither equal nor opposite
            r2 = Ref(st.new(ex.P.tid[BN + 'gfP2'], Leaf('f', var('p.Y') * var('p.Y'), None)))
            return [r, p, q, r2, pool]
        return go
    for nilpool in (False, True):
        n = ' pool=nil' if nilpool else ''
        yield 'r finite, any representation' + n, mk('jac', nilpool)
        yield 'r infinite' + n, mk('inf', nilpool)


def line_post(V, c, ent, fs, r, ob):
    ex, F = c.ex, fs.facts
    add = len(c.con.params) == 5
    if not (isinstance(r, tuple) and len(r) == 4 and all(isinstance(x, Ref) for x in r)):
        return ob('three coefficients and a point', False, f'{r}')
    for x, n in zip(r, ('a', 'b', 'c', 'the point')):
        ob(f'{n} is new', x.o not in ent.heap, '')
    A = C.view_point(ex, ent, c.ref['r'], BN + 'twistPoint')
    if A.inf:
        return
    a, b, cc = (C.view_el(ex, fs, x, BN + 'gfP2').p for x in r[:3])
    x1, y1 = A.x, A.y
    if add:
        x2, y2 = var('p.X'), var('p.Y')
        l = (y2 - y1) * inv_res(el_normal(x2 - x1, F), Pm)
        x3 = l * l - x1 - x2
        what = 'sum'
    else:
        l = 3 * x1 * x1 * inv_res(2 * el_normal(y1, F), Pm)
        x3 = l * l - 2 * x1
        what = 'double'
    want = Aff(False, x3, l * (x1 - x3) - y1)
    V.check_point(ex, fs, r[3], BN + 'twistPoint', want, False,
                  lambda w, *a: None if w.endswith(' is wf') else ob(w, *a), f'the {what}')
    x, y, z, t = C.point_fields(ex, fs, r[3], BN + 'twistPoint')
    ob('t is the square of z', el_zero(t.p - z.p * z.p, F), f't is {t.p}')
    xq, yq = var('q.X'), var('q.Y')
    ob('the line is not zero', F.decide(el_cong0(cc, F)) is False, f'c is {cc}')
    d = el_normal(b * yq + l * xq * cc, F)
    ob('the slope is that of the line through the operands', not d.t, f'b*yq + slope*xq*c = {d}')
    d = el_normal(a * yq - (l * x1 - y1) * cc, F)
    ob('the line passes through the operands', not d.t, f'a*yq - (slope*x - y)*c = {d}')


for n, ps in (('lineFunctionAdd', 'r p q r2 pool'), ('lineFunctionDouble', 'r q pool')):
    contract(BN + n, ps, modes=['leaf2'], variants=line_variants, apply=line_apply, post=line_post)(lambda c: None)


def triple(ex, st, refs):
    """the line whose coefficients these are"""
    key = None
    for n, r in zip('abc', refs):
        for q, i in zip(C.view_el(ex, st, r, BN + 'gfP2').ints, 'xy'):
            s = single(q)
            if s and s[1].name.startswith('poison'):
                return 'poison'
            if s is None or s[0] != 1 or s[2] or s[1].kind != 'app' or s[1].data[0] != f'line.{n}.{i}' or \
                    key is not None and s[1].data[1] != key:
                raise NotApplicable('coefficients of no known line')
            key = s[1].data[1]
    return key


@contract(BN + 'mulLine', 'ret a b c pool', modes=['leaf2'], kinds={n: [None] for n in ('ret', 'a', 'b', 'c')}, noalias=True)
def _(c):
    v = c.view('ret')
    if isinstance(v, GE):
        k = triple(c.ex, c.st, [c.ref[n] for n in 'abc'])
        if k == 'poison':
            c.set('ret', base('fp12', f'poison!{next(POISON)}'))
        else:
            A, B, at = k
            c.set('ret', v + line(A, B, at))
        return
    a, b, cc = c.view('a').p, c.view('b').p, c.view('c').p
    c.set('ret', red(v.p * (cc + b * tower.W + a * tower.W * tower.T)), 'any')


def frob_defs(q):
    """the images of q under the Frobenius and the negative of its square: on G2 the Frobenius is multiplication by p"""
    xx, xy, yx, yy = (q.coord(i) for i in range(4))
    g = tower.split

    def xipw(e):
        r, b = ONE, tower.XI
        while e:
            if e & 1:
                r = red(r * b)
            b = red(b * b)
            e >>= 1
        return r
    d3, d2 = xipw((Pm - 1) // 3), xipw((Pm - 1) // 2)

    def parts(p):
        d = split(red(p))
        return [d.get((0, 0, 1), ZERO), d.get((0, 0, 0), ZERO)]
    q1 = parts((xy - xx * I) * d3) + parts((yy - yx * I) * d2)
    e3 = xipw((Pm ** 2 - 1) // 3)
    e2 = xipw((Pm ** 2 - 1) // 2)           # -1
    q2 = parts((xy + xx * I) * e3) + parts((yy + yx * I) * e2)
    out = []
    for k, cs in ((Pm, q1), (Pm ** 2, q2)):
        out.append((q.mul(k), [Tm.normal(z, Pm) for z in cs]))
        out.append((q.mul(-k), [Tm.normal(z, Pm) for z in cs[:2] + [-w for w in cs[2:]]]))
    return out


def ate_divisor(q, p):
    """the divisor of the optimal ate pairing function at a point of G1"""
    n = 6 * U + 2
    q1, q2 = q.mul(Pm), q.mul(Pm ** 2)
    return divisor(q, p).mul(n) + divisor(q1, p) - divisor(q2, p) - divisor(q.mul(n) + q1 - q2, p)


def miller_variants(V, con, f):
    def mk(qi, pi, nilpool):
        def go(ex, st):
            q = gzero('g2') if qi else base('g2', 'q')
            p = gzero('g1') if pi else base('g1', 'p')
            ex.pointdefs += frob_defs(q) if not qi else []
            ex.loophook = None                  # the loop runs over a constant table
            pool = NIL if nilpool else Ref(st.new(ex.P.tid[BN + 'bnPool'], (POOLED, POOLED)))
            return [Ref(st.new(ex.P.tid[BN + 'twistPoint'], Leaf('g', q))), Ref(st.new(ex.P.tid[BN + 'curvePoint'], Leaf('g', p))), pool]
        return go
    for nilpool in (False, True):
        n = ' pool=nil' if nilpool else ''
        yield 'any points' + n, mk(False, False, nilpool)
        yield 'first infinite' + n, mk(True, False, nilpool)
        yield 'second infinite' + n, mk(False, True, nilpool)


def look(c, st, n):
    return Ctx(c.ex, st, c.con, c.args, 'verify').look(n if isinstance(n, Ref) else c.ref[n])


def miller_post(V, c, ent, fs, r, ob):
    if not isinstance(r, Ref):
        return ob('a value', False, f'{r}')
    ob('the result is new', r.o not in ent.heap)
    q, p = look(c, ent, 'q'), look(c, ent, 'p')
    if q.iszero() or p.iszero():
        return
    g = look(c, fs, r)
    if not isinstance(g, GE):
        raise Unsupported('value of the result')
    w = ate_divisor(q, p)
    ob('the value is that of the ate function', g.same(w), f'{g}, expected {w}')


def fp12mode(fn):
    def ap(con, ex, st, args):
        if not (ex.group and ex.mono == 'fp12'):
            return None
        return ex.split(st, lambda s: fn(con, ex, s, args, Ctx(ex, s, con, args, 'apply')))
    return ap


def nonzero(c, g):
    return not c.case(g.is_zero_cond())


def miller_apply(con, ex, st, args, c):
    q, p = c.q, c.p
    if nonzero(c, q) and nonzero(c, p):
        v = ate_divisor(q, p)
    else:
        v = base('fp12', f'poison!{next(POISON)}')
    return Ref(st.new(ex.P.tid[BN + 'gfP12'], Leaf('m', v)))


contract(BN + 'miller', 'q p pool', modes=['group'], mono='fp12', variants=miller_variants, apply=fp12mode(miller_apply),
         post=miller_post)(lambda c: None)


@contract(BN + 'finalExponentiation', 'in pool', modes=['mono'], mono='fp12', leafs=(BN + 'gfP6',), nilpool=True,
          renorm=True)
def _(c):
    v = c.view('in')
    if not isinstance(v, GE) or v.g != 'fp12':
        raise NotApplicable('explicit element')
    c.ret(New('gfP12', v.mul(FE)))


def ate_spec(c, q, p):
    """the pairing of two points"""
    if nonzero(c, q) and nonzero(c, p):
        return ate_divisor(q, p).mul(FE)
    return gzero('fp12')


@contract(BN + 'optimalAte', 'a b pool', modes=['group'], mono='fp12', nilpool=True)
def _(c):
    if c.ex.mono != 'fp12':
        raise NotApplicable('pairing')
    c.ret(New('gfP12', ate_spec(c, c.a, c.b)))


def check_variants(V, con, f):
    def mk(n):
        def go(ex, st):
            ex.loophook = None
            out = []
            for nm, tn, g in (('a', 'G1', 'g1'), ('b', 'G2', 'g2')):
                es = []
                for i in range(n):
                    p = Ref(st.new(ex.P.tid[BN + {"G1": "curvePoint", "G2": "twistPoint"}[tn]], Leaf('g', base(g, f'{nm}{i}', False))))
                    es.append(Ref(st.new(ex.P.tid[BN + tn], (p,))))
                et = ex.P.tid['*' + BN + tn]
                out.append(Slc(st.new(('array', et), tuple(es)), (), 0, const(n), const(n)))
            return out
        return go
    for n in range(4):
        yield f'{n} pairs', mk(n)


def check_post(V, c, ent, fs, r, ob):
    w = gzero('fp12')
    for x, y in zip(*[Ctx(c.ex, ent, c.con, c.args, 'verify').tree(n) for n in 'ab']):
        z = [fs.facts.decide(g.is_zero_cond()) for g in (x, y)]
        if True in z:
            continue
        if None in z:
            raise Unsupported('undecided whether a point is infinity')
        w = w + ate_divisor(y, x).mul(FE)
    V.check_result(c.ex, c.con, ent, fs, r, w.is_zero_cond(), c, ob, 'the verdict')


def check_apply(con, ex, st, args):
    """outside the proofs about the pairing itself: the product of the pairings, for as many pairs as verified"""
    import spec_bb
    if not ex.group or ex.mono != 'gt':
        return None

    def go(s):
        c = Ctx(ex, s, con, args, 'apply')
        a, b = [c.tree(n) or [] for n in 'ab']
        if len(a) != len(b) or len(a) > 3 or not all(isinstance(g, GE) for g in a + b):
            raise NotApplicable('these lists')
        w = gzero('gt')
        for x, y in zip(a, b):
            w = w + spec_bb.pair(x, y)
        return w.is_zero_cond()
    return ex.split(st, go)


contract(BN + 'PairingCheck', 'a b', modes=['group'], mono='fp12', variants=check_variants, post=check_post,
         apply=check_apply)(lambda c: None)
