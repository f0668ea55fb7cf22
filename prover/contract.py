"""Contracts: specifications attached to functions of /repo, the generation of
proof obligations for a function against its contract, and the use of a contract
at a call site in place of the function body."""
import itertools
import time

from terms import *
import terms as Tm
from logic import *
from exec import *
import exec as X
from tower import *
import tower
from loops import ge_same, bits_equal, shr, bitat, bl, asge, ofge
import arrays as A
import lib as L

PKG = 'github.com/ing-bank/zkrp/'
BN = PKG + 'crypto/bn256.'
P2 = PKG + 'crypto/p256.'

FIELDS = {BN + 'gfP2': ('x', 'y'), BN + 'gfP6': ('x', 'y', 'z'), BN + 'gfP12': ('x', 'y')}
BASIS = {BN + 'gfP2': (I, ONE), BN + 'gfP6': (T * T, T, ONE), BN + 'gfP12': (W, ONE)}
POINTS = {BN + 'curvePoint': 'g1', BN + 'twistPoint': 'g2'}
SHORT = {'gfP2': BN + 'gfP2', 'gfP6': BN + 'gfP6', 'gfP12': BN + 'gfP12', 'curvePoint': BN + 'curvePoint',
         'twistPoint': BN + 'twistPoint', 'P256': P2 + 'P256', 'G1': BN + 'G1', 'G2': BN + 'G2', 'GT': BN + 'GT', 'int': 'math/big.Int'}


class NotApplicable(Exception):
    pass


class Fail(Exception):
    pass


def typename(ex, t):
    y = ex.P.types[t]
    return y.get('name') or y['str']


class El:
    """a field element: p its value in the tower; ints the integer coefficients
    of a concrete representation (or None); rng flags of a leaf"""
    __slots__ = ('p', 'ints', 'rng')

    def __init__(self, p, ints=None, rng=None):
        self.p, self.ints, self.rng = p, ints, rng

    def reduced(self):
        if self.ints is None:
            return self.rng == 'red'
        for v in self.ints:
            lo, hi = interval(v)
            if lo is None or hi is None or lo < 0 or hi >= tower.P:
                return False
        return True


class Aff:
    """a curve point by its affine coordinates (field elements), or infinity"""
    __slots__ = ('inf', 'x', 'y')

    def __init__(self, inf, x=None, y=None):
        self.inf, self.x, self.y = inf, x, y

    def __repr__(self):
        return 'infinity' if self.inf else f'({self.x}, {self.y})'


class Any:
    """an output about which nothing is promised"""


ANY = Any()


class PtRep:
    """what is promised about the representation of a point written to an object: affine: z = 1 and,
    on the twist, t = 1; like: all four coordinates are those of another object; zlike: z is"""

    def __init__(self, pt, affine=False, like=None, zlike=None):
        self.pt, self.affine, self.like, self.zlike = pt, affine, like, zlike


class Implies:
    """a boolean result that may be true only if the condition holds"""

    def __init__(self, cond):
        self.cond = cond


class New:
    """a freshly allocated object"""

    def __init__(self, t, v, rng=None):
        self.t, self.v, self.rng = t, v, rng


class NewVec:
    """a new slice; fn(i): value of element i; kind: int, int64, byte, point; shared: elements may be older objects"""

    def __init__(self, n, fn, kind, shared=False):
        self.n, self.fn, self.kind, self.shared = P_(n), fn, kind, shared


class Err:
    """some error"""


ERR = Err()


class Vec:
    """a slice argument"""

    def __init__(self, c, s):
        self.c, self.s = c, s
        self.n = ZERO if s is NIL else s.ln

    def at(self, i):
        i = P_(i)
        ex, st, s = self.c.ex, self.c.st, self.s
        v = st.heap[s.o][1]
        for q in s.p:
            v = v[q]
        i = s.off + i
        if isinstance(v, Lazy) and v.k == v.n and not v.w:
            t = v.t
            if isinstance(t, A.Obj):
                return A.inst(t.v, i)
            if isinstance(t, Poly):
                return A.inst(t, i)
            return self.c.look(t)
        k = i.const()
        if k is None:
            raise NotApplicable('symbolic index')
        if isinstance(v, Str):
            return v.byte(k)
        return self.c.look(ex.index(st, v, k))


def Sum(n, fn):
    n = P_(n)
    k = n.const()
    if k is None:
        t = fn(A.JV)
        return A.gsum(t, n) if isinstance(t, GE) else A.mksum(t, n)
    r = None
    for i in range(k):
        r = fn(const(i)) if r is None else r + fn(const(i))
    return r


class Lit:
    """an exact structural value"""

    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- views
def tname(ex, st, ref):
    t = st.heap[ref.o][0]
    if isinstance(t, tuple):
        return None
    t = ex.typeat(t, ref.p)
    return typename(ex, t)


def view_int(ex, st, ref):
    v = ex.cell(st, ref)
    if not isinstance(v, Poly):
        raise Unsupported('not an integer')
    return v


def view_el(ex, st, ref, tn):
    v = ex.cell(st, ref)
    if isinstance(v, Leaf):
        return El(v.v, None, v.rng)
    if tn == 'math/big.Int':
        return El(v, (v,))
    p = ZERO
    ints = ()
    for b, r in zip(BASIS[tn], v):
        if r is NIL:
            raise NotApplicable('nil coefficient')
        ft = 'math/big.Int' if tn == BN + 'gfP2' else SUB[tn]
        e = view_el(ex, st, r, ft)
        p = p + e.p * b
        ints = None if ints is None or e.ints is None else ints + e.ints
    return El(p, ints)


SUB = {BN + 'gfP6': BN + 'gfP2', BN + 'gfP12': BN + 'gfP6'}
COORD = {BN + 'curvePoint': 'math/big.Int', BN + 'twistPoint': BN + 'gfP2'}


def point_fields(ex, st, ref, tn):
    v = ex.cell(st, ref)
    return [view_el(ex, st, r, COORD[tn]) for r in v]


def view_point(ex, st, ref, tn):
    """the point an object stands for; forks when it is not known whether it is infinity"""
    v = ex.cell(st, ref)
    if isinstance(v, Leaf):
        return v.v
    x, y, z, t = point_fields(ex, st, ref, tn)
    if ex.group:
        g = abstract_point(ex, st, tn, x.p, y.p, z.p)
        if g is None:
            raise NotApplicable('point of unknown value')
        return g
    c = el_cong0(z.p, st.facts)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if d:
        return Aff(True)
    zi = inv_res(el_normal(z.p, st.facts), tower.P)
    X_ = el_normal(x.p * zi * zi, st.facts)
    Y_ = el_normal(y.p * zi * zi * zi, st.facts)
    return Aff(False, X_, Y_)


SECPG = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
         0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
SECPNAMED = {SECPG: base('secp', 'SecpG')}       # points with known coordinates


def secp_recognise(st, x, y):
    """the point with the given affine coordinates, if it is known"""
    x, y = st.facts.sub(x), st.facts.sub(y)
    cx, cy = x.const(), y.const()
    if cx is not None and cy is not None:
        if cx == 0 and cy == 0:
            return gzero('secp')
        if (cx, cy) in SECPNAMED:
            return SECPNAMED[cx, cy]
        if (cx, tower.SP - cy) in SECPNAMED:
            return -SECPNAMED[cx, tower.SP - cy]
        return None
    s = single(x)
    if s is None or s[0] != 1 or s[2] != 0 or s[1].kind != 'app' or s[1].data[0] != 'secp.x':
        return None
    g = s[1].data[1][0]
    for h in (g, -g):
        if h.coord(0) == x and h.coord(1) == y:
            return h
    lo, hi = interval(y)
    if lo is not None and hi is not None and lo >= 0 and hi < tower.SP:
        for h in (g, -g):
            if h.coord(0) == x and Tm.normal(y - h.coord(1), tower.SP) == ZERO:
                return h
    return None


def view_p256(ex, st, r):
    X_, Y_ = ex.cell(st, r)
    if X_ is NIL or Y_ is NIL:
        return gzero('secp')
    if isinstance(X_, Coord) and isinstance(Y_, Coord):
        if X_.g == Y_.g and (X_.i, Y_.i) == (0, 1):
            return X_.g
        raise NotApplicable('coordinates of two points')
    g = secp_recognise(st, ex.cell(st, X_), ex.cell(st, Y_))
    if g is None:
        raise NotApplicable('point of unknown value')
    return g


def write_p256(ex, st, ref, g):
    ex.store(st, ref, (NIL, NIL) if g.iszero() else (Coord(g, 0), Coord(g, 1)))


def g1gen(ex):
    return base('g1', 'G1gen'), base('g2', 'G2gen')


G1GEN = (1, -2)
G2GEN = (11559732032986387107991004021392285783925812861821192530917403151452391805634 * I
         + 10857046999023057135944570762232829481370756359578518086990519993285655852781,
         4082367875863433681332203403145435568316851327593401208105741076214120093531 * I
         + 8495653923123431417604973247489272438418190587263600148770280649306958101930)


def abstract_point(ex, st, tn, x, y, z):
    """group element of a concrete representation, if recognisable"""
    g = POINTS[tn]
    if z.const() == 0:
        return gzero(g)
    if z.const() != 1:
        return None
    if g == 'g1':
        if red(x - 1) == ZERO and red(y + 2) == ZERO:
            return base('g1', 'G1gen')
        cs = [x, y]
    else:
        if red(x - G2GEN[0]) == ZERO and red(y - G2GEN[1]) == ZERO:
            return base('g2', 'G2gen')
        sx, sy = split(x), split(y)
        cs = [sx.get((0, 0, 1), ZERO), sx.get((0, 0, 0), ZERO), sy.get((0, 0, 1), ZERO), sy.get((0, 0, 0), ZERO)]
    ds = [Tm.normal(st.facts.sub(c), tower.P) for c in cs]
    s = single(ds[0])
    if s is not None and s[1].kind == 'app' and s[1].data[0].startswith(g + '.'):
        e = s[1].data[1][0]
        for h in (e, -e):
            if all(Tm.zero_mod(h.coord(i) - d, tower.P) for i, d in enumerate(ds)):
                return h
    for e, xs in ex.pointdefs:
        if len(xs) == len(ds) and all(Tm.zero_mod(a - b, tower.P) for a, b in zip(xs, ds)):
            return e
    return None


# ---------------------------------------------------------------- writing
def write_el(ex, st, ref, tn, p, rng, ints=None):
    v = ex.cell(st, ref)
    if isinstance(v, Leaf):
        ex.store(st, ref, Leaf('f', red(p), None if rng == 'exact' else rng))
        return
    if tn == 'math/big.Int':
        ex.store(st, ref, mkint(p, rng))
        return
    if tn == BN + 'gfP2':
        if rng == 'exact' and ints is not None:
            cs = ints
        else:
            d = split(p)
            if any(k not in ((0, 0, 0), (0, 0, 1)) for k in d):
                raise Unsupported('value outside F_p^2')
            cs = [mkint(d.get((0, 0, 1), ZERO), rng), mkint(d.get((0, 0, 0), ZERO), rng)]
        for r, c in zip(v, cs):
            ex.store(st, r, c)
        return
    d = split(p)
    sub = SUB[tn]
    n = len(FIELDS[tn])
    k0 = {BN + 'gfP6': 2, BN + 'gfP12': 6}[tn]
    for j, r in enumerate(v):
        if tn == BN + 'gfP6':
            q = join({(0, 0, i): c for (w, t, i), c in d.items() if t == 2 - j and not w})
        else:
            q = join({(0, t, i): c for (w, t, i), c in d.items() if w == 1 - j})
        write_el(ex, st, r, sub, q, rng, None if ints is None else ints[j * k0:(j + 1) * k0])


def mkint(p, rng):
    if rng == 'exact':
        return p
    if rng == 'red':
        return mkmod(p, tower.P)
    if isinstance(rng, tuple):
        return mkmod(p, rng[1])
    if rng == 'diff':
        c = Tm.res(p, tower.P).const()
        return mkcong(p, tower.P, -(tower.P - 1), tower.P - 1)
    return mkcong(p, tower.P)


def havoc(ex, st, ref, tn):
    """arbitrary new contents"""
    v = ex.cell(st, ref)
    if isinstance(v, Leaf):
        if v.k == 'f':
            ex.store(st, ref, Leaf('f', fresh('any'), None))
        else:
            ex.store(st, ref, Leaf('g', base(v.v.g, f'any!{next(Tm._ctr)}', False), None))
    elif isinstance(v, Poly):
        ex.store(st, ref, fresh('any'))
    elif isinstance(v, tuple):
        for r in v:
            if isinstance(r, Ref):
                havoc(ex, st, r, None)
    else:
        raise Unsupported('havoc')


def write_point(ex, st, ref, tn, pt, affine):
    g = POINTS[tn]
    v = ex.cell(st, ref)
    if isinstance(pt, GE):
        if affine:
            z = pt.is_zero_cond()
            d = st.facts.decide(z)
            assert d is not None
            o = [ex.P.zero(st.heap[ref.o][0])]
            # the coordinates are known modulo P: a point that is affine already stays as it is
            co = [mkcong(pt.coord(i), tower.P) for i in range(2 if g == 'g1' else 4)] if not d else None
            if g == 'g1':
                vals = (ZERO, ONE, ZERO, ZERO) if d else (co[0], co[1], ONE, fresh('t'))      # t is not maintained on this curve
            else:
                vals = (ZERO, ONE, ZERO, ZERO) if d else (co[0] * I + co[1], co[2] * I + co[3], ONE, ONE)
            if d and g == 'g2':
                vals = (ZERO, ZERO, ZERO, ZERO)
            new = []
            for q in vals:
                new.append(alloc_el(ex, st, COORD[tn], q))
            ex.store(st, ref, tuple(new))
        else:
            ex.store(st, ref, Leaf('g', pt))
        return
    if isinstance(v, Leaf):
        raise Unsupported('coordinates written to an abstract point')
    x, y, z, t = v
    ft = COORD[tn]
    if pt.inf:
        vals = [None, None, ZERO, None]
    elif affine:
        vals = [pt.x, pt.y, ONE, ONE]
    else:
        zn = fresh('z', 0 if ft == 'math/big.Int' else None)
        st.facts.nz.append((zn, tower.P))
        vals = [pt.x * zn * zn, pt.y * zn * zn * zn, zn, None]
    for i, (r, q) in enumerate(zip(v, vals)):
        if q is None:
            havoc(ex, st, r, ft)
        elif i == 2 and not affine and not pt.inf:
            w = ex.cell(st, r)
            if isinstance(w, Leaf):
                ex.store(st, r, Leaf('f', q, 'wf'))
            else:
                ex.store(st, r, q)
        else:
            write_el(ex, st, r, ft, q, 'exact' if q.const() is not None else 'red' if affine else 'any')


def isone(ex, st, r, ft):
    i = view_el(ex, st, r, ft).ints
    return i is not None and i[-1] == ONE and all(q == ZERO for q in i[:-1])


def alloc_ints(ex, st, ft, ints):
    it = ex.P.tid['math/big.Int']
    if ft == 'math/big.Int':
        return Ref(st.new(it, ints[0]))
    return Ref(st.new(ex.P.tid[ft], tuple(Ref(st.new(it, q)) for q in ints)))


def write_like(ex, st, ref, tn, v, w):
    """a copy of the coordinates (like), or the affine coordinates of the value (zlike)"""
    ft = COORD[tn]
    if v.like is not None:
        cs = [view_el(ex, st, q, ft).ints for q in w]
    else:
        n = 1 if ft == 'math/big.Int' else 2
        co = [mkcong(v.pt.coord(i), tower.P) for i in range(2 * n)]
        one = (ZERO,) * (n - 1) + (ONE,)
        cs = [co[:n], co[n:], one, tuple(fresh('t') for _ in range(n))]
    ex.store(st, ref, tuple(alloc_ints(ex, st, ft, q) for q in cs))


def expand(ex, st, o):
    """the fields of an abstract object: of a new one they are unknown, of an element of F_p^12 they are
    functions of the element"""
    t, v = st.heap[o]
    tn = typename(ex, t)
    if v.k == 'g' and isnew(v.v):
        w = tuple(alloc_any(ex, st, COORD[tn]) for _ in range(4))
    elif v.k == 'm' and v.v.g == 'fp12' and BN + 'gfP6' in ex.leafs:
        if isnew(v.v):
            w = tuple(alloc_any(ex, st, BN + 'gfP6') for _ in range(2))
        else:
            w = tuple(Ref(st.new(ex.P.tid[BN + 'gfP6'], Leaf('f', app('fp12.' + i, (v.v,), None, None)))) for i in 'xy')
    else:
        return v
    st.heap[o] = (t, w)
    if o < ex.firstnew or o in ex.partof:
        for x in w:
            for y in footprint(ex, st, x):
                ex.partof[y] = o
    return w


def isnew(g):
    return len(g.t) == 1 and all(isinstance(b, str) and b.startswith('new!') and c == ONE for b, c in g.t.items())


def recognise12(ex, st, r):
    """the element with the given two coefficients, if it is known"""
    w = ex.cell(st, r)
    try:
        x, y = (ex.cell(st, q).v for q in w)
    except AttributeError:
        return None
    s = single(y)
    if s is None or s[1].kind != 'app' or s[1].data[0] != 'fp12.y' or s[0] != 1 or s[2]:
        return None
    g = s[1].data[1][0]
    a = app('fp12.x', (g,), None, None)
    if el_zero(x - a, st.facts):
        return g
    if el_zero(x + a, st.facts):
        return g.mul(tower.P ** 6)          # the p^6 Frobenius changes the sign of W
    return None


def alloc_el(ex, st, tn, p):
    """a new concrete or leaf object with exact value p"""
    if tn == 'math/big.Int':
        return Ref(st.new(ex.P.tid['math/big.Int'], p))
    if tn in ex.leafs:
        return Ref(st.new(ex.P.tid[tn], Leaf('f', red(p), 'red')))
    d = split(p)
    if tn == BN + 'gfP2':
        return Ref(st.new(ex.P.tid[tn], (alloc_el(ex, st, 'math/big.Int', d.get((0, 0, 1), ZERO)),
                                         alloc_el(ex, st, 'math/big.Int', d.get((0, 0, 0), ZERO)))))
    raise Unsupported('allocation of ' + tn)


def alloc_any(ex, st, tn, leafval=None):
    """a new object of the type with unknown contents"""
    t = ex.P.tid[tn]
    if tn in ex.leafs:
        if tn in POINTS:
            return Ref(st.new(t, Leaf('g', leafval or base(POINTS[tn], f'new!{next(Tm._ctr)}', False))))
        if ex.mono and tn == ex.monot:
            return Ref(st.new(t, Leaf('m', leafval or base(ex.mono, f'new!{next(Tm._ctr)}', False))))
        return Ref(st.new(t, Leaf('f', leafval or fresh('new'))))
    if tn == 'math/big.Int':
        return Ref(st.new(t, fresh('new')))
    if tn in FIELDS:
        sub = SUB.get(tn, 'math/big.Int')
        return Ref(st.new(t, tuple(alloc_any(ex, st, sub) for _ in FIELDS[tn])))
    if tn in POINTS:
        return Ref(st.new(t, tuple(alloc_any(ex, st, COORD[tn]) for _ in range(4))))
    if tn == P2 + 'P256':
        return Ref(st.new(t, (NIL, NIL)))
    if tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
        return Ref(st.new(t, (NIL,)))
    raise Unsupported('allocation of ' + tn)


# ---------------------------------------------------------------- footprints
def footprint(ex, st, ref):
    """objects reachable from a struct of this program through pointers"""
    out = []
    todo = [ref]
    while todo:
        r = todo.pop()
        if not isinstance(r, (Ref, Slc)) or r.o in out:
            continue
        out.append(r.o)
        todo.extend(refs_in(st.heap[r.o][1]))
    return out


def refs_in(v):
    if isinstance(v, (Ref, Slc)):
        return [v]
    if isinstance(v, tuple):
        return [r for x in v for r in refs_in(x)]
    if isinstance(v, Ifc):
        return refs_in(v.v)
    if isinstance(v, MapV):
        return [r for kv in v.e for x in kv for r in refs_in(x)]
    return []


# ---------------------------------------------------------------- the spec side
class Ctx:
    def __init__(self, ex, st, con, args, mode):
        self.ex, self.st, self.con, self.args, self.mode = ex, st, con, args, mode
        self.outs = {}
        self.result = None
        self._v = {}
        self.ref = dict(zip(con.params, args))
        self.assumed = []
        self.panics = False     # outside the domain of the function: a panic is as good as a value

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return self.view(n)

    def view(self, n):
        if n in self._v:
            return self._v[n]
        r = self.ref[n]
        v = self.look(r)
        self._v[n] = v
        return v

    def look(self, r):
        ex, st = self.ex, self.st
        if isinstance(r, Ref):
            tn = tname(ex, st, r)
            if tn == 'math/big.Int':
                return view_int(ex, st, r)
            if tn in FIELDS:
                w = ex.cell(st, r)
                if isinstance(w, Leaf) and w.k == 'm':
                    return w.v
                if ex.mono == 'fp12' and tn == BN + 'gfP12':
                    g = recognise12(ex, st, r)
                    if g is not None:
                        return g
                return view_el(ex, st, r, tn)
            if tn in POINTS:
                return view_point(ex, st, r, tn)
            if tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
                p = ex.cell(st, r)[0]
                if p is NIL:
                    raise NotApplicable('nil group element')
                return self.look(p)
            if tn == P2 + 'P256':
                return view_p256(ex, st, r)
        if isinstance(r, Coord):
            return ex.cell(st, r)
        if isinstance(r, Slc):
            return Vec(self, r)
        if r is NIL:
            raise NotApplicable('nil argument')
        return r

    def tree(self, n):
        """the value of a parameter, everything it points to included"""
        f = self.ex.P.funcs[self.con.name]
        return deep(self.ex, self.st, self.ref[n], f['params'][self.con.params.index(n)]['t'])

    def case(self, cond):
        d = self.st.facts.decide(cond)
        if d is None:
            raise Fork(cond)
        return d

    def learn(self, cond):
        if not self.st.assume(cond, True):
            raise Infeasible()

    def elzero(self, p):
        return self.case(el_cong0(p, self.st.facts))

    def requires(self, cond):
        d = self.st.facts.decide(cond)
        if self.mode == 'apply':
            if d is not True:
                raise NotApplicable(f'precondition {cond}')
        else:
            if not self.st.assume(cond, True):
                raise Infeasible()

    def set(self, n, v, rng='any', ints=None):
        self.outs[n] = (v, rng, ints)

    def ret(self, *vs):
        self.result = vs[0] if len(vs) == 1 else vs


def deep(ex, st, v, t, lists=True):
    """the value of a Go value without its addresses: integers, group elements, lists, dicts"""
    y = ex.P.under(t)
    k = y['k']
    if k == 'ptr':
        if v is NIL:
            return None
        if isinstance(v, Coord):
            return ex.cell(st, v)
        if not isinstance(v, Ref):
            raise Unsupported('pointer')
        tn = typename(ex, y['elem'])
        if tn == 'math/big.Int':
            return view_int(ex, st, v)
        if tn == P2 + 'P256':
            return view_p256(ex, st, v)
        if tn in POINTS or tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
            c = Ctx.__new__(Ctx)
            c.ex, c.st = ex, st
            return c.look(v)
        return deep(ex, st, ex.cell(st, v), y['elem'])
    if k == 'slice':
        if v is NIL:
            return []
        if isinstance(v, Str):
            return v
        a = st.heap[v.o][1]
        for q in v.p:
            a = a[q]
        n, off = v.ln.const(), v.off.const()
        if n is None or off is None or not isinstance(a, (tuple, Str)):
            return Vec(Ctx_(ex, st), v)
        if isinstance(a, Str):
            return [a.byte(off + i) for i in range(n)]
        return [deep(ex, st, a[off + i], y['elem']) for i in range(n)]
    if k == 'struct':
        tn = typename(ex, t)
        if tn == P2 + 'P256':
            o = Ref(st.new(t, v))
            r = view_p256(ex, st, o)
            del st.heap[o.o]
            st.alloc.pop()
            return r
        return {f['name']: deep(ex, st, x, f['t']) for f, x in zip(y['fields'], v)}
    return v


def Ctx_(ex, st):
    c = Ctx.__new__(Ctx)
    c.ex, c.st = ex, st
    return c


CONTRACTS = {}


class Contract:
    def __init__(self, name, params, spec, **o):
        self.name, self.params, self.spec = name, params.split(), spec
        self.modes = o.get('modes', ['int'])
        self.o = o
        self.trusted = o.get('trusted')

    # ---------------------------------------------------- use at a call site
    def apply(self, ex, st, args):
        if ex.verifying is self and ex.depth == 0 and not self.o.get('recursive'):
            return None
        if len(args) != len(self.params):
            return None
        ap = self.o.get('apply')
        try:
            if ap:
                return ap(self, ex, st, args)
            return ex.split(st, lambda s: self.apply1(ex, s, args))
        except NotApplicable as e:
            ex.rejected[self.name] = str(e)
            return None

    def apply1(self, ex, st, args):
        c = Ctx(ex, st, self, args, 'apply')
        self.spec(c)
        if self.o.get('post') and c.result is None and not c.outs:
            raise NotApplicable('the contract says what to check, not what to assume')
        for n, (v, rng, ints) in c.outs.items():
            self.write(ex, st, c.ref[n], v, rng, ints)
        return self.result_value(ex, st, c, c.result)

    def result_value(self, ex, st, c, r):
        if isinstance(r, tuple):
            return tuple(self.result_value(ex, st, c, x) for x in r)
        if isinstance(r, str):
            return c.ref[r]
        if r is ERR:
            return L.mkerr(st)
        if isinstance(r, NewVec):
            return new_vec(ex, st, r)
        if isinstance(r, New):
            if r.t in SHORT:
                tn = SHORT[r.t]
            else:
                tn = r.t
            if tn == 'math/big.Int':
                return Ref(st.new(ex.P.tid[tn], mkint(r.v, r.rng) if r.rng else r.v))
            ref = alloc_any(ex, st, tn)
            if r.v is not ANY:
                self.write(ex, st, ref, r.v, r.rng or 'any', None)
            return ref
        return r

    def write(self, ex, st, ref, v, rng, ints):
        tn = tname(ex, st, ref)
        if tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
            p = ex.cell(st, ref)[0]
            if p is NIL:
                p = alloc_any(ex, st, {'G1': BN + 'curvePoint', 'G2': BN + 'twistPoint', 'GT': BN + 'gfP12'}[tn.split('.')[-1]])
                ex.store(st, ref, (p,))
            return self.write(ex, st, p, v, rng, ints)
        if tn == P2 + 'P256':
            return write_p256(ex, st, ref, v)
        if v is ANY:
            return havoc(ex, st, ref, tn)
        if tn == 'math/big.Int':
            ex.store(st, ref, v if rng in ('exact', None) else mkint(v, rng))
            return
        if isinstance(v, PtRep):
            src = v.like or v.zlike
            if src is not None and isinstance(v.pt, GE):
                w = ex.cell(st, src)
                if v.like is not None and isinstance(w, Leaf):
                    return ex.store(st, ref, Leaf('g', v.pt, w.rng))
                if not isinstance(w, Leaf) and (v.like is not None or isone(ex, st, w[2], COORD[tn])):
                    return write_like(ex, st, ref, tn, v, w)
            return write_point(ex, st, ref, tn, v.pt, v.affine)
        if isinstance(v, (Aff,)):
            return write_point(ex, st, ref, tn, v, False)
        if isinstance(v, GE) and tn in POINTS:
            return write_point(ex, st, ref, tn, v, False)
        if isinstance(v, GE):
            ex.store(st, ref, Leaf('m', v))
            return
        if isinstance(v, El):
            v = v.p
        write_el(ex, st, ref, tn, v, rng, ints)


VECT = {'int': 'math/big.Int', 'point': P2 + 'P256'}


def new_vec(ex, st, r):
    k = r.n.const()
    et = ex.P.tid[{'int': '*math/big.Int', 'point': '*' + P2 + 'P256', 'int64': 'int64', 'byte': 'byte'}[r.kind]]

    def elem(v):
        if r.kind == 'int':
            return Ref(st.new(ex.P.tid[VECT['int']], v))
        if r.kind == 'point':
            ref = alloc_any(ex, st, P2 + 'P256')
            write_p256(ex, st, ref, v)
            return ref
        return v
    if k is not None:
        c = tuple(elem(r.fn(const(i))) for i in range(k))
    else:
        t = r.fn(A.JV)
        c = A.SymArr(et, r.n, r.n, A.Obj(VECT[r.kind], t) if r.kind in VECT else t)
    return Slc(st.new(('array', et), c), (), 0, r.n, r.n)


def contract(name, params, **o):
    def d(f):
        n = name
        for k in ('gfP2', 'gfP6', 'gfP12', 'curvePoint', 'twistPoint', 'G1', 'G2', 'GT', 'bnPool'):
            if n.startswith(k + '.'):
                n = f'(*{BN}{k}).{n[len(k) + 1:]}'
        CONTRACTS[n] = Contract(n, params, f, **o)
        return f
    return d


# ---------------------------------------------------------------- verification
def scratch(v):
    """the value mentions what a recycled or new number happened to hold"""
    if isinstance(v, Poly):
        return any(ATOMS[a].name.startswith(('pooled', 'new!')) for a in deps(v))
    if isinstance(v, GE):
        return any(str(b).startswith('new!') or scratch(c) for b, c in v.t.items())
    if isinstance(v, (El, Leaf)):
        return scratch(v.p if isinstance(v, El) else v.v)
    if isinstance(v, (tuple, list)):
        return any(map(scratch, v))
    return False


def tainted(v, depth=0):
    """the value mentions something that was forgotten at a loop"""
    if isinstance(v, Poly):
        return any(ATOMS[a].name.startswith(('h!', 'poison')) for a in deps(v))
    if isinstance(v, GE):
        return any(str(b).startswith(('h!', 'poison!')) or tainted(c) for b, c in v.t.items())
    if isinstance(v, (El, Leaf)):
        return tainted(v.p if isinstance(v, El) else v.v)
    if isinstance(v, Aff):
        return not v.inf and (tainted(v.x) or tainted(v.y))
    if isinstance(v, Cond):
        return any(tainted(x) for x in v.a)
    if isinstance(v, (tuple, list)):
        return depth < 6 and any(tainted(x, depth + 1) for x in v)
    if isinstance(v, Str):
        return tainted(v.p, depth + 1)
    if isinstance(v, A.SymArr):
        return v.t is A.HAV or tainted((v.n, v.k, v.t), depth + 1) or tainted(tuple(v.w.values()), depth + 1)
    if isinstance(v, A.Obj):
        return tainted(v.v, depth + 1)
    if isinstance(v, Facts):
        return any(tainted(c) for c in v.known)
    return False


class Report:
    def __init__(self):
        self.obl = []       # (function, obligation, status, detail)
        self.t = {}
        self.used = set()
        self.inlined = set()
        self.loops = 0

    def add(self, fn, what, ok, detail=''):
        self.obl.append((fn, what, ok, detail))


def partitions(n):
    """all ways to identify n pointers"""
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        k = max(p, default=-1) + 1
        for i in range(k + 1):
            yield p + [i]


def relate(names, operand, vss):
    """equal, opposite and unrelated finite operands of a secp256k1 operation"""
    for vs in vss:
        f = [i for i, (o, v) in enumerate(zip(operand, vs)) if o and v == 'fin']
        if len(f) < 2:
            yield vs
            continue
        assert len(f) == 2
        for r in ('rel:', 'pos:', 'neg:'):
            w = list(vs)
            w[f[1]] = r + names[f[0]]
            yield tuple(w)


class Verifier:
    def __init__(self, prog, lib, base):
        """base(ex) -> State: state after initialisation"""
        self.prog, self.lib, self.base = prog, lib, base
        self.strict = False
        self.races = False
        self.writers = {}
        self.weak = {}
        self.prop = None
        self.exs = []
        self.no_contract = set()     # contracts that could not be established: their bodies are inlined

    def exec(self, mode, con):
        ex = Exec(self.prog, self.lib, CONTRACTS)
        ex.no_contract = set(self.no_contract)
        self.exs.append(ex)
        ex.verifying = con
        ex.rejected = {}
        ex.group = False
        ex.mono = None
        ex.monot = con.o.get('monot', BN + 'gfP12')
        ex.leafs = set()
        ex.pointdefs = []
        ex.mode = mode
        ex.expand = expand
        ex.weak = self.weak
        ex.reach = footprint
        import loops
        ex.loophook = loops.hook
        if mode == 'leaf2':
            ex.leafs = {BN + 'gfP2'}
        elif mode == 'leaf6':
            ex.leafs = {BN + 'gfP6'}
        elif mode == 'group':
            ex.group = True
            ex.leafs = {BN + 'curvePoint', BN + 'twistPoint', BN + 'gfP12'}
            ex.mono = con.o.get('mono', 'gt')
        elif mode == 'mono':
            ex.leafs = {ex.monot} | set(con.o.get('leafs', ()))
            ex.mono = con.o.get('mono', 'mon')
        return ex

    # ------------------------------------------------------------ parameters
    def mk(self, ex, st, tn, nm, v):
        """a parameter object of a type; v: variant"""
        t = ex.P.tid[tn]
        if tn in ex.leafs:
            if tn in POINTS:
                return Ref(st.new(t, Leaf('g', base(POINTS[tn], nm, False))))
            if ex.mono and tn == ex.monot:
                return Ref(st.new(t, Leaf('m', base(ex.mono, nm, False))))
            return Ref(st.new(t, Leaf('f', var(nm), 'red' if v == 'red' else None)))
        if tn == 'math/big.Int':
            return Ref(st.new(t, var(nm, 0, tower.P - 1) if v == 'red' else var(nm, 0) if v == 'nn' else var(nm)))
        if tn in FIELDS:
            sub = SUB.get(tn, 'math/big.Int')
            return Ref(st.new(t, tuple(self.mk(ex, st, sub, f'{nm}.{f}', v) for f in FIELDS[tn])))
        if tn in POINTS:
            ft = COORD[tn]
            if v is None:
                vals = [None] * 4
            elif v == 'inf':
                z = ZERO
                vals = [None, None, ZERO, None]
            else:
                X_, Y_ = var(nm + '.X'), var(nm + '.Y')
                if v == 'one':
                    z = ONE
                else:
                    z = var(nm + '.z', 0 if ft == 'math/big.Int' else None)
                    st.facts.nz.append((z, tower.P))
                st.facts.nz.append((Y_, tower.P))
                t_ = z * z if v == 'jac' else None
                if v == 'jac':
                    vals = [X_ * z * z, Y_ * z * z * z, z, z * z]
                elif v == 'aff':
                    vals = [X_, Y_, ONE, ONE]
                else:
                    vals = [X_ * z * z, Y_ * z * z * z, z, None]
            rs = []
            for f, q in zip('xyzt', vals):
                if q is None:
                    rs.append(self.mk(ex, st, ft, f'{nm}.{f}', None))
                elif ft in ex.leafs:
                    rs.append(Ref(st.new(ex.P.tid[ft], Leaf('f', q, 'wf' if f == 'z' else None))))
                elif ft == 'math/big.Int':
                    rs.append(Ref(st.new(ex.P.tid[ft], q if f == 'z' or q.const() is not None else
                                         mkcong(q, tower.P))))
                else:
                    raise Unsupported('concrete twist point')
            return Ref(st.new(t, tuple(rs)))
        raise Unsupported('parameter of type ' + tn)

    def param_types(self, f):
        out = []
        for p in f['params']:
            y = self.prog.types[p['t']]
            if y['k'] == 'ptr':
                e = self.prog.types[y['elem']]
                out.append(('ptr', e.get('name') or e['str'], p['t']))
            else:
                out.append((self.prog.kind(p['t']), y.get('name') or y['str'], p['t']))
        return out

    def variants(self, con, f):
        """list of (description, builder(ex, st) -> args)"""
        pts = self.param_types(f)
        cust = con.o.get('variants')
        if cust:
            yield from cust(self, con, f)
            return
        idx = [i for i, (k, n, _) in enumerate(pts) if k == 'ptr' and not n.endswith('bnPool')]
        names = con.params
        groups = {}
        for i in idx:
            groups.setdefault(pts[i][1], []).append(i)
        choices = []
        for n, ii in groups.items():
            if con.o.get('noalias'):
                choices.append([(ii, list(range(len(ii))))])
            else:
                choices.append([(ii, p) for p in partitions(len(ii))])
        kinds = con.o.get('kinds', {})
        for combo in itertools.product(*choices):
            rep = {}
            for ii, p in combo:
                for i, k in zip(ii, p):
                    rep[i] = ii[p.index(k)]
            # variants of the distinct objects
            objs = sorted(set(rep.values()))
            opts = []
            operand = {r for i, r in rep.items() if names[i] not in con.o.get('outonly', ())}
            for i in objs:
                o = self.options(con, pts[i][1], names[i], kinds)
                if pts[i][1] == P2 + 'P256' and i in operand:
                    o = ['nil', 'zero', 'fin']
                if 'nil' in o and list(rep.values()).count(i) > 1:
                    o = [x for x in o if x != 'nil']
                opts.append(o)
            for vs in relate([names[i] for i in objs], [pts[i][1] == P2 + 'P256' and i in operand for i in objs],
                             itertools.product(*opts)):
                d = dict(zip(objs, vs))
                for nilpool in ((False, True) if con.o.get('nilpool') else (False,)):
                    desc = ' '.join(f'{names[i]}' + (f'={names[rep[i]]}' if rep[i] != i else f':{d[i]}' if d[i] else '')
                                    for i in idx)

                    def build(ex, st, rep=rep, d=d, nilpool=nilpool):
                        args = []
                        made = {}
                        for i, (k, n, t) in enumerate(pts):
                            if k == 'ptr' and n.endswith('bnPool'):
                                if nilpool:
                                    args.append(NIL)
                                else:
                                    if 'pool' not in made:
                                        made['pool'] = Ref(st.new(ex.P.tid[n], (POOLED, POOLED)))
                                    args.append(made['pool'])
                            elif k == 'ptr':
                                r = rep[i]
                                if r not in made:
                                    made[r] = self.mk_param(ex, st, n, names[r], d[r])
                                args.append(made[r])
                            elif k == 'basic':
                                if n in X.INTW:
                                    w, s = X.INTW[n]
                                    args.append(var(names[i], -(1 << (w - 1)) if s else 0, (1 << (w - 1)) - 1 if s else (1 << w) - 1))
                                elif n == 'string':
                                    args.append(Str((('sym', names[i], var('len:' + names[i], 0, 1 << 40)),)))
                                else:
                                    raise Unsupported('parameter ' + n)
                            elif k == 'slice':
                                et = ex.P.under(t)['elem']
                                kind = {'*math/big.Int': 'int', '*' + P2 + 'P256': 'point', 'int64': 'int64',
                                        'byte': 'byte', 'uint8': 'byte'}.get(ex.P.types[et]['str'])
                                if kind is None:
                                    raise Unsupported('parameter ' + n)
                                args.append(A.param(ex, st, names[i], et, var('len:' + names[i], 0, 1 << 40), kind))
                            else:
                                raise Unsupported('parameter of kind ' + k)
                        return args
                    yield desc + (' pool=nil' if nilpool else ''), build

    def options(self, con, tn, nm, kinds):
        if nm in kinds:
            return kinds[nm]
        if tn == P2 + 'P256':
            return ['nil', 'fin'] if nm in con.o.get('outonly', ()) else ['nil', 'zero', 'fin']
        if tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
            if nm == con.o.get('recv', con.params[0]):
                return ['val', 'nil']
            return ['val']
        if tn in POINTS:
            if 'group' in con.modes or 'mono' in con.modes:
                return [None]
            if nm in con.o.get('outonly', ()):
                return ['fin']
            return ['inf', 'fin']
        return [None]

    def mk_param(self, ex, st, tn, nm, v):
        if tn == P2 + 'P256':
            if v == 'nil':
                return Ref(st.new(ex.P.tid[tn], (NIL, NIL)))
            if v == 'zero':
                q = (ZERO, ZERO)
            else:
                g = base('secp', v[4:] if v[:4] in ('neg:', 'pos:') else nm)
                if v.startswith('rel:'):
                    h = base('secp', v[4:])
                    st.facts.add(cong0(g.coord(0) - h.coord(0), tower.SP), False)
                    st.facts.add(eq0(g.coord(0) - h.coord(0)), False)
                g = -g if v.startswith('neg:') else g
                q = (g.coord(0), g.coord(1))
            it = ex.P.tid['math/big.Int']
            return Ref(st.new(ex.P.tid[tn], tuple(Ref(st.new(it, x)) for x in q)))
        if tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
            inner = {'G1': BN + 'curvePoint', 'G2': BN + 'twistPoint', 'GT': BN + 'gfP12'}[tn.split('.')[-1]]
            p = NIL if v == 'nil' else self.mk(ex, st, inner, nm, None)
            return Ref(st.new(ex.P.tid[tn], (p,)))
        return self.mk(ex, st, tn, nm, v)

    # ------------------------------------------------------------ checking
    def verify(self, con, rep):
        f = self.prog.funcs.get(con.name)
        if f is None:
            rep.add(con.name, 'exists', 'unsupported', 'function not found')
            return
        if len(f['params']) != len(con.params):
            rep.add(con.name, 'signature', 'unsupported', 'number of parameters changed')
            return
        t0 = time.time()
        last = None
        self.exs = []
        for mode in con.modes:
            sub = Report()
            try:
                n = 0
                for desc, build in self.variants(con, f):
                    n += 1
                    self.verify1(con, f, mode, desc, build, sub)
                if n == 0:
                    raise Unsupported('no variant')
                last = None
                break
            except (Unsupported, NotApplicable, Tm.TooBig) as e:
                last = (mode, e)
            except (RecursionError, Fork, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError,
                    AttributeError, RuntimeError) as e:
                if self.strict:
                    raise
                last = (mode, f'{type(e).__name__} {e}')
        for ex in self.exs:
            rep.used |= set(ex.used)
            rep.inlined |= set(ex.inlined)
            rep.loops += ex.loops
        if last is not None:
            rep.obl.extend(sub.obl)
            rep.add(con.name, f'within reach ({last[0]})', 'unsupported', f'{last[1]} {self.rejected}')
        else:
            rep.obl.extend(sub.obl)
        rep.t[con.name] = time.time() - t0

    def verify1(self, con, f, mode, desc, build, rep):
        ex = self.exec(mode, con)
        self.rejected = ex.rejected
        st = self.base(ex).fork()
        args = build(ex, st)
        if con.o.get('assume'):
            con.o['assume'](ex, st, args)
        ent = st.fork()
        cases = []

        def pre(s):
            c = Ctx(ex, s, con, args, 'verify')
            con.spec(c)
            return c
        cases = ex.split(st, pre)
        if not cases and con.o.get('partial'):
            return
        if not cases:
            rep.add(con.name, f'[{desc}] feasible', 'failed', 'no case of the specification is feasible')
        nfin = 0
        for s, c in cases:
            if isinstance(c, PanicV):
                raise Unsupported('specification: ' + c.msg)
            s.wr = set()
            ent = s.fork()
            ex.firstnew = next(X._oid)
            ex.verifying = con
            ex.entry = len(s.alloc)
            if con.o.get('putself'):
                ex.entry = 0
            ex.steps = 0
            ex.loopnotes = []
            finals = self.run_body(ex, s, f, args, con)
            for k, m in ex.loopnotes:
                if k == 'frame':
                    rep.add(con.name, f'[{desc}] nothing else changes (in a loop)', 'failed', m)
                if k == 'recycled':
                    rep.add(con.name, f'[{desc}] recycled numbers are not used (in a loop)', 'failed', m)
            for fs, r in finals:
                if getattr(fs.facts, 'bad', False):
                    continue
                nfin += 1
                self.check(ex, con, ent, fs, r, c, args, f'{desc}', rep)
        if not nfin:
            rep.add(con.name, f'[{desc}] reaches an end', 'failed', 'no path ends')

    def run_body(self, ex, s, f, args, con):
        return ex.run(s, f, args)

    def check(self, ex, con, ent, fs, r, c, args, desc, rep):
        name = con.name

        def ob(what, ok, detail='', vals=()):
            st_ = 'proved'
            if not ok:
                st_ = 'undecided' if tainted(vals) or tainted(fs.facts) and (ex.loops or ex.approx) else 'failed'
                if scratch(vals):
                    rep.add(name, f'[{desc}] {what} does not depend on what recycled numbers held', st_, detail)
            rep.add(name, f'[{desc}] {what}', st_, '' if ok else detail)
        if isinstance(r, PanicV):
            if c.panics or con.o.get('maypanic') and con.o['maypanic'](c):
                ob('panic allowed', True)
            else:
                ob('no panic', False, str(r) + self.facts_text(fs))
            return
        c.entry_state = ent
        c.st2 = fs
        for k, m in fs.notes:
            if k in ('recycled',):
                ob('recycled numbers are not used', False, m)
            if k == 'frame':
                ob('nothing else changes', False, m)
        # outputs
        touched = set()
        for n, (v, rng, ints) in c.outs.items():
            ref = c.ref[n]
            touched.update([ref.o] if tname(ex, ent, ref) == P2 + 'P256' else footprint(ex, ent, ref))
            self.check_value(ex, ent, fs, ref, v, rng, ints, ob, n, desc)
        for n in con.o.get('writes', ()) + (() if self.races else con.o.get('normalises', ())):
            touched.update(footprint(ex, ent, c.ref[n]))
        for n in con.params:
            if n not in c.ref:
                continue
        # frame
        for i, a in enumerate(args):
            if isinstance(a, Ref) and tname(ex, ent, a) == BN + 'bnPool':
                touched.update(footprint(ex, ent, a))
        bad = []
        for o, (t, v) in ent.heap.items():
            if o in touched:
                continue
            w = fs.heap.get(o)
            if w is None or (w[1] is not v and w[1] != v):
                if not self.same_abstract(ex, ent, fs, o, con):
                    bad.append(self.describe(ex, ent, o, args, con))
        ob('nothing else changes', not bad, f'changed: {bad}')
        gs = [g for g, o in ex.gaddr.items() if o in fs.wr and o not in ent.heap]
        if gs:
            rep.add(name, f'[{desc}] package-level variables keep their initial values',
                    'failed' if self.races or self.prop == 'C06' else 'undecided', f'written: {gs}')
        if self.races:
            wr = fs.wr & ent.heap.keys() - touched
            for n, a in zip(con.params, args):
                if isinstance(a, Ref):
                    p = wr & set(footprint(ex, ent, a))
                    if p:
                        self.writers.setdefault(name, set()).add(n)
                    for o in p - {a.o}:
                        wr.discard(o)
                        wr.add(a.o)
            rest = {o for o in wr if o not in {a.o for a in args if isinstance(a, Ref)}}
            if rest:
                self.writers.setdefault(name, set()).add(None)
            wr = [self.describe(ex, ent, o, args, con) for o in sorted(wr)]
            ob('writes to nothing that others may hold', not wr, f'written: {wr}')
        # result
        if con.o.get('post'):
            con.o['post'](self, c, ent, fs, r, ob)
        else:
            self.check_result(ex, con, ent, fs, r, c.result, c, ob, f'result')
        # separation of the outputs
        roots = [c.ref[n] for n in c.outs] + self.result_refs(r)
        own = {}
        clash = []
        dead = []
        seen_roots = set()
        for ref in roots:
            if not isinstance(ref, Ref) or ref.o in seen_roots:
                continue
            seen_roots.add(ref.o)
            for o in footprint(ex, fs, ref):
                if o in fs.dead:
                    dead.append(self.describe(ex, fs, o, args, con))
                if o in own and not con.o.get('shares') and own[o] != ref.o and o not in seen_roots:
                    clash.append(self.describe(ex, fs, o, args, con))
                own[o] = ref.o
        for n, a in zip(con.params, args):
            if isinstance(a, Ref) and n not in c.outs and a.o not in seen_roots and not con.o.get('putself'):
                for o in footprint(ex, ent, a):
                    if o in fs.dead:
                        dead.append(self.describe(ex, fs, o, args, con))
                    if o in own and not con.o.get('shares') and typename_or(ex, fs, o) == 'math/big.Int':
                        clash.append(self.describe(ex, fs, o, args, con))
        for g, o in ex.gaddr.items():
            for o2 in footprint(ex, ent, Ref(o)) if o in ent.heap else ():
                if o2 in fs.dead:
                    dead.append(g)
                if o2 in own and not con.o.get('shares'):
                    clash.append(g)
        for ref in [c.ref[n] for n in c.outs] + self.result_refs(r):
            if isinstance(ref, Ref):
                d = self.internal_sharing(ex, fs, ref)
                if d and not con.o.get('shares'):
                    clash.append(d)
        ob('results keep no recycled number', not dead, f'recycled but still in use: {dead}')
        ob('results share no storage with operands', not clash, f'shared: {clash}')

    def internal_sharing(self, ex, st, ref):
        """an integer cell reachable by two paths from one struct"""
        seen = set()
        todo = [ref]
        while todo:
            r = todo.pop()
            if not isinstance(r, Ref):
                continue
            if r.o in seen:
                if typename_or(ex, st, r.o) == 'math/big.Int':
                    return f'one number used for two coefficients'
                continue
            seen.add(r.o)
            v = st.heap[r.o][1]
            if isinstance(v, tuple):
                todo.extend(x for x in v if isinstance(x, Ref))
        return None

    def same_abstract(self, ex, ent, fs, o, con):
        """an abstract point that was only brought to affine form still is the same point"""
        t, v = ent.heap[o]
        w = fs.heap[o][1]
        if isinstance(v, Leaf) and v.k == 'g' and isinstance(w, tuple) and (con.o.get('renorm') or self.races):
            try:
                g = view_point(ex, fs, Ref(o), typename(ex, t))
            except (NotApplicable, Fork):
                return False
            return g == v.v or g.same(v.v) or (g.iszero() and fs.facts.decide(v.v.is_zero_cond()) is True)
        if isinstance(v, Leaf) and v.k == 'm' and isinstance(w, tuple):
            return recognise12(ex, fs, Ref(o)) == v.v
        return False

    def describe(self, ex, st, o, args, con):
        for g, go in ex.gaddr.items():
            if go == o:
                return g.split('/')[-1]
            try:
                if o in footprint(ex, st, Ref(go)):
                    return 'part of ' + g.split('/')[-1]
            except KeyError:
                pass
        for n, a in zip(con.params, args):
            if isinstance(a, Ref) and a.o in st.heap and o in footprint(ex, st, a):
                return 'part of parameter ' + n
        return f'object {o}'

    def result_refs(self, r):
        if isinstance(r, tuple):
            return [x for y in r for x in self.result_refs(y)]
        return [r] if isinstance(r, Ref) else []

    def facts_text(self, st):
        return ' under ' + '; '.join(f'{k}={v}' for k, v in list(st.facts.known.items())[:6])

    def check_result(self, ex, con, ent, fs, r, want, c, ob, what):
        if want is None:
            if con.o.get('anyresult') or r in ((), None):
                return
            ob(what, r == () or r is None, f'unexpected result {r}')
            return
        if isinstance(want, tuple):
            for i, (x, w) in enumerate(zip(r, want)):
                self.check_result(ex, con, ent, fs, x, w, c, ob, f'{what} {i + 1}')
            return
        if want is ANY:
            return
        if isinstance(want, Implies):
            s2 = fs.fork()
            ok = True
            if s2.assume(r, True):
                ok = s2.facts.decide(want.cond) is True
            ob(what, ok, f'{what} may be true without {want.cond}')
            return
        if want is ERR:
            ob(what + ' is an error', isinstance(r, Ifc), f'{what} is {r}')
            return
        if isinstance(want, NewVec):
            return self.check_vec(ex, ent, fs, r, want, ob, what)
        if isinstance(want, str):
            ob(what, r == c.ref[want], f'{what} is {r}, expected parameter {want}')
            return
        if isinstance(want, New):
            if not isinstance(r, Ref):
                ob(what, False, f'{what} is {r}, expected a new object')
                return
            ob(what + ' is new', r.o not in ent.heap, f'{what} is an existing object')
            if want.v is not ANY:
                self.check_value(ex, ent, fs, r, want.v, want.rng or ('exact' if want.t == 'int' else 'any'), None, ob, what, '')
            return
        if isinstance(want, (bool, Cond)) and isinstance(r, (bool, Cond)):
            if want is True or want is False:
                d = settled(fs, r, want)
                ob(what, d, f'{what} is {r}, expected {want}' + self.facts_text(fs))
            else:
                ok = True
                detail = ''
                for v in (True, False):
                    s2 = fs.fork()
                    if s2.assume(want, v):
                        s3 = fs.fork()
                        if not (s2.facts.decide(r) is v or not s3.assume(r, not v)
                                or s3.facts.decide(want) is (not v) or settled(s2, r, v)):
                            ok = False
                            detail = f'{what} is {r} when {want} is {v}'
                ob(what, ok, detail)
            return
        if isinstance(want, Poly) and isinstance(r, Poly):
            ob(what, fs.facts.decide(eq0(r - want)) is True, f'{what} is {r}, expected {want}', r)
            return
        if isinstance(want, Str):
            ob(what, want == r, f'{what} is {r}, expected {want}', r)
            return
        ob(what, want == r, f'{what} is {r}, expected {want}')

    def check_vec(self, ex, ent, fs, r, want, ob, what):
        if r is NIL and fs.facts.decide(eq0(want.n)) is True:
            return ob(what + ' is empty', True)
        if not isinstance(r, Slc):
            return ob(what, False, f'{what} is {r}, expected a slice')
        ob(what + ' has the right length', fs.facts.decide(eq0(r.ln - want.n)) is True, f'length is {r.ln}, expected {want.n}')
        ob(what + ' is a new slice', r.o not in ent.heap, f'{what} is an existing slice')
        v = fs.heap[r.o][1]
        for q in r.p:
            v = v[q]

        def elem(x, i, w, facts):
            if isinstance(x, A.Obj):
                x = x.v
            elif isinstance(x, Ref):
                if not want.shared:
                    ob(f'elements of {what} are new', x.o not in ent.heap, f'element {i} is an existing object')
                tn = typename_or(ex, fs, x.o)
                x = fs.heap[x.o][1]
                if tn == P2 + 'P256':
                    x = asge(x)
            if isinstance(w, GE):
                ok = isinstance(x, GE) and (x.same(w) or ge_same(x, w, facts))
            else:
                ok = isinstance(x, Poly) and facts.decide(eq0(x - w)) is True
            ob(f'elements of {what}', ok, f'element {i} is {x}, expected {w}', (x,))
        if isinstance(v, Lazy) and isinstance(v, A.SymArr):
            s2 = fs.facts.fork()
            s2.add(ge0(r.ln - 1 - A.JV), True)
            if s2.decide(lt0(r.ln - 1)) is True and not v.w:
                return ob(f'elements of {what}', True)
            ob(f'{what} is filled', s2.decide(eq0(v.k - v.n)) is True and not v.w and r.off == ZERO,
               f'{v} of {v.n}', (v.k, 'h!' if v.t is A.HAV else 0))
            if isinstance(v.t, (A.Obj, Poly)):
                t = A.Obj(v.t.t, A.inst(v.t.v, A.JV)) if isinstance(v.t, A.Obj) else v.t
                elem(t, A.JV, want.fn(A.JV), s2)
            elif isinstance(v.t, Ref):
                elem(v.t, A.JV, want.fn(A.JV), s2)
            else:
                raise Unsupported('elements of the result')
        elif isinstance(v, (tuple, Str)):
            k = r.ln.const()
            if k is None:
                raise Unsupported('length of the result')
            for i in range(k):
                x = v.byte(r.off.const() + i) if isinstance(v, Str) else v[r.off.const() + i]
                elem(x, i, want.fn(const(i)), fs.facts)
        else:
            raise Unsupported('elements of the result')

    def check_value(self, ex, ent, fs, ref, v, rng, ints, ob, what, desc):
        if v is ANY:
            return
        tn = tname(ex, fs, ref)
        if tn in (BN + 'G1', BN + 'G2', BN + 'GT'):
            p = ex.cell(fs, ref)[0]
            if p is NIL:
                ob(f'{what} has a value', False, 'still nil')
                return
            return self.check_value(ex, ent, fs, p, v, rng, ints, ob, what, desc)
        if tn == P2 + 'P256':
            try:
                w = view_p256(ex, fs, ref)
            except NotApplicable as e:
                X_, Y_ = ex.cell(fs, ref)
                ob(f'{what} = value', False, f'{what} is {e}: ({X_ if X_ is NIL else ex.cell(fs, X_)}, '
                   f'{Y_ if Y_ is NIL else ex.cell(fs, Y_)}), expected {v}', (ex.cell(fs, X_),) if X_ is not NIL else ())
                return
            d = w.same(v) or ge_same(w, v, fs.facts)
            if not d:
                d = fs.facts.decide((w - v).is_zero_cond()) is True
            ob(f'{what} = value', d, f'{what} is {w}, expected {v}' + self.facts_text(fs), w)
            return
        if tn == 'math/big.Int' and isinstance(rng, tuple):
            w = view_int(ex, fs, ref)
            ob(f'{what} = value', zero_mod(normal(fs.facts.sub(w - v), rng[1]), rng[1])
               or fs.facts.decide(cong0(w - v, rng[1])) is True, f'{what} is {w}, expected {v} modulo {short(rng[1])}', w)
            ob(f'{what} is reduced', fs.facts.decide(lt0(w)) is False and fs.facts.decide(lt0(w - rng[1])) is True, f'{w}')
            return
        if tn == 'math/big.Int':
            w = view_int(ex, fs, ref)
            if rng in ('exact', None):
                ob(f'{what} = value', bits_equal(w - v, fs.facts), f'{what} is {w}, expected {v}', w)
            else:
                ob(f'{what} = value mod P', el_zero(w - v, fs.facts), f'{what} is {w}, expected {v}', w)
                self.check_rng(ex, fs, (w,), None, rng, ob, what)
            return
        affine = False
        if isinstance(v, PtRep):
            src = v.like or v.zlike
            if src is not None and not isinstance(ex.cell(fs, ref), Leaf):
                for i, n in enumerate('xyzt'):
                    if v.like is None and n != 'z':
                        continue
                    a, b = view_el(ex, fs, ex.cell(fs, ref)[i], COORD[tn]), view_el(ex, ent, ex.cell(ent, src)[i], COORD[tn])
                    ok = a.ints == b.ints if a.ints is not None else el_zero(a.p - b.p, fs.facts)
                    ob(f'{what}.{n} is that of the operand', ok, f'{a.p}, expected {b.p}')
            affine, v = v.affine, v.pt
        if isinstance(v, GE):
            cell = ex.cell(fs, ref)
            if isinstance(cell, Leaf):
                w = cell.v
                if affine:
                    # an abstract point in group mode has no representation
                    raise Unsupported('affine form of an abstract point')
            else:
                w = abstract_any(ex, fs, ref, tn)
                if w is None:
                    raise Unsupported('value of a point')
            d = w.g == v.g and (w.same(v) or ge_same(w, v, fs.facts))
            if not d:
                cnd = (w - v).is_zero_cond()
                d = fs.facts.decide(cnd) is True
            ob(f'{what} = value', d, f'{what} is {w}, expected {v}' + self.facts_text(fs), w)
            if affine:
                fl = [view_el(ex, fs, q, COORD[tn]).p for q in cell]
                ob(f'{what} is affine', fl[2].const() in (0, 1), '')
            return
        if isinstance(v, Aff):
            return self.check_point(ex, fs, ref, tn, v, affine, ob, what)
        if isinstance(v, El):
            v = v.p
        w = view_el(ex, fs, ref, tn)
        if rng == 'exact' and ints is not None and w.ints is not None:
            ok = len(w.ints) == len(ints) and all(fs.facts.decide(eq0(a - b)) is True for a, b in zip(w.ints, ints))
            ob(f'{what} = value', ok, f'{what} is {w.ints}, expected {ints}', w.ints)
            return
        d = el_normal(w.p - v, fs.facts)
        ob(f'{what} = value', not d.t, f'{what} differs from the specified value by {d}', d)
        if rng not in ('any', 'exact'):
            self.check_rng(ex, fs, w.ints, w, rng, ob, what)

    def check_rng(self, ex, fs, ints, w, rng, ob, what):
        Pm = tower.P
        if ints is None:
            ok = w.rng == rng or rng == 'diff' and w.rng == 'red' or rng == 'wf' and w.rng in ('red', 'diff')
            if not ok and w.p.const() in (0, 1):
                ok = True
            ob(f'{what} is {rng}', ok, f'coefficients of {what} are only known to be {w.rng}')
            return
        for x in ints:
            if rng == 'red':
                ok = fs.facts.decide(lt0(x)) is False and fs.facts.decide(lt0(x - Pm)) is True
                ob(f'{what} is reduced', ok, f'{x} may lie outside [0, P)')
            elif rng == 'diff':
                ok = fs.facts.decide(lt0(x - Pm)) is True and fs.facts.decide(lt0(-x - Pm)) is True
                ob(f'{what} is within (-P, P)', ok, f'{x}')
            elif rng == 'wf':
                s2 = fs.fork()
                ok = fs.facts.decide(lt0(x)) is False
                if s2.assume(cong0(x, Pm), True) and ok:
                    ok = s2.facts.decide(eq0(x)) is True
                ob(f'{what} is zero when divisible by P', ok, f'{x}')

    def check_point(self, ex, fs, ref, tn, v, affine, ob, what):
        cell = ex.cell(fs, ref)
        if isinstance(cell, Leaf):
            raise Unsupported('abstract point')
        x, y, z, t = point_fields(ex, fs, ref, tn)
        F = fs.facts
        if v.inf:
            d = F.decide(el_cong0(z.p, F)) is True
            ob(f'{what} is infinity', d, f'z is {z.p}', z.p)
            if d:
                if z.ints is not None:
                    ob(f'{what} is recognised as infinity', all(F.decide(eq0(q)) is True for q in z.ints), f'z is {z.ints}')
                else:
                    ob(f'{what} is recognised as infinity', z.rng in ('red', 'diff', 'wf') or z.p.const() == 0, f'z is {z.rng}')
            return
        c = el_cong0(z.p, F)
        d = F.decide(c) is False
        ob(f'{what} is not infinity', d, f'z is {el_normal(z.p, F)}', z.p)
        dx = el_normal(x.p - v.x * z.p * z.p, F)
        dy = el_normal(y.p - v.y * z.p * z.p * z.p, F)
        ob(f'{what}.x is correct', not dx.t, f'x - X*z^2 = {dx}', dx)
        ob(f'{what}.y is correct', not dy.t, f'y - Y*z^3 = {dy}', dy)
        if affine:
            ob(f'{what} is affine', el_zero(z.p - 1, F) if z.ints is None else
               F.decide(eq0(z.ints[-1] - 1)) is True and all(F.decide(eq0(q)) is True for q in z.ints[:-1]), f'z is {z.p}')
            if tn == BN + 'twistPoint':
                ob(f'{what}.t is z^2', el_zero(t.p - 1, F), f't is {t.p}', t.p)
        self.check_rng(ex, fs, z.ints, z, 'wf', ob, what + '.z')


def typename_or(ex, st, o):
    t = st.heap[o][0]
    return None if isinstance(t, tuple) else typename(ex, t)


def abstract_any(ex, st, ref, tn):
    if tn in POINTS:
        try:
            return view_point(ex, st, ref, tn)
        except NotApplicable:
            return None
    return None
