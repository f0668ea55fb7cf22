"""Slices of unknown length, sums over them, and what loops compute element by element."""
from terms import *
import terms as Tm
from logic import *
from exec import *
import exec as X

JV = var('#j', 0)
(aJ,) = JV.atoms()
NINT, NP256 = 'math/big.Int', 'github.com/ing-bank/zkrp/crypto/p256.P256'


# ---------------------------------------------------------------- terms
def inst(t, i):
    """the template t for index i"""
    if isinstance(t, (Poly,)):
        return subst(t, {aJ: P_(i)})
    if isinstance(t, GE):
        return gsubst(t, {aJ: P_(i)})
    return t


def abstr(t, aid, e):
    """replace the atom aid by j - e"""
    return abstr_to(t, aid, JV - e)


def abstr_down(t, aid, e):
    return abstr_to(t, aid, e - JV)


def abstr_to(t, aid, r):
    if isinstance(t, Poly):
        return subst(t, {aid: r})
    if isinstance(t, GE):
        return gsubst(t, {aid: r})
    return t


abstr_up = abstr


def gsubst(g, env):
    return g.subst(lambda p: subst(p, env))


def turned(t, u):
    """the terms of a sum in the other order, where that is simpler"""
    n = tdeps(u)
    ds = tdeps(t)
    if not n or not ds & n or aJ not in ds:
        return t
    r = abstr_to(t, aJ, u - 1 - JV)
    return r if tdeps(r) < ds else t


def tdeps(t):
    """the variables of a template"""
    ps = [t] if isinstance(t, Poly) else [*t.t.values(), *(x for b in t.t if isinstance(b, tuple) for x in b if isinstance(x, Poly))]
    return {a for p in ps for a in deps(p) if ATOMS[a].kind == 'var'}


def mksum(t, u):
    """sum of t(0), ..., t(u-1)"""
    t, u = P_(t), P_(u)
    t = turned(t, u)
    c = u.const()
    if c is not None:
        r = ZERO
        for i in range(max(c, 0)):
            r = r + inst(t, i)
        return r
    if not t.t:
        return ZERO
    k = u.t.get((), 0)
    if k > 0:
        u0 = u - k
        r = mksum(t, u0)
        for i in range(k):
            r = r + inst(t, u0 + i)
        return r
    return app('sum', (t, u))


def mkpow(x, u):
    """x^u for u >= 0"""
    x, u = P_(x), P_(u)
    c = u.const()
    if c is not None and c >= 0:
        return x ** c
    k = u.t.get((), 0)
    if k > 0:
        return x ** k * mkpow(x, u - k)
    return app('ipow', (x, u))


def mkidiv(x, d, u):
    """x divided u times by d, rounding down"""
    u = P_(u)
    c = u.const()
    if c is not None and c <= 300:
        for _ in range(c):
            x = mkdiv(x, P_(d))
        return P_(x)
    k = u.t.get((), 0)
    if 0 < k <= 300:
        return mkidiv(mkidiv(x, d, u - k), d, k)
    lo, hi = interval(P_(x))
    return app('idiv', (P_(x), P_(d), u), 0 if lo is not None and lo >= 0 else None)


Tm.SIMP['sum'] = mksum
Tm.SIMP['ipow'] = mkpow
Tm.SIMP['idiv'] = mkidiv


def gsum(t, u):
    u = P_(u)
    c = u.const()
    if c is not None:
        r = gzero(t.g)
        for i in range(max(c, 0)):
            r = r + inst(t, i)
        return r
    if not t.t:
        return t
    t = turned(t, u)
    k = u.t.get((), 0)
    if k > 0:
        u0 = u - k
        r = gsum(t, u0)
        for i in range(k):
            r = r + inst(t, u0 + i)
        return r
    return GE(t.g, {('gsum', t, u): ONE})


import logic as _L
_L.GSIMP['gsum'] = lambda g, t, u: gsum(t, u)


def elt(name, i, lo=None, hi=None):
    return app('elt', (name, P_(i)), lo, hi)


def gelt(g, name, i):
    return GE(g, {('elt', name, P_(i)): ONE})


# ---------------------------------------------------------------- arrays
class Obj:
    """a pointer to an object of its own with the given contents"""
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, Obj) and self.t == o.t and self.v == o.v

    def __hash__(self):
        return hash((self.t, self.v))

    def __repr__(self):
        return f'new {self.t} {self.v}'


class Zero:
    def __repr__(self):
        return 'zero'


ZV = Zero()
HAV = Zero()
_tag = itertools.count(1)


class SymArr(Lazy):
    """elements below k are given by the template t, the others are zero values; w: recent writes"""
    __slots__ = ('et', 'n', 'k', 't', 'tag', 'w')

    def __init__(self, et, n, k, t, tag=None, w=()):
        self.et, self.n, self.k, self.t, self.w = et, P_(n), P_(k), t, dict(w)
        self.tag = tag if tag is not None else next(_tag)

    def __eq__(self, o):
        return (isinstance(o, SymArr) and self.et == o.et and self.n == o.n and self.k == o.k and self.w == o.w
                and (self.t == o.t or self.k == ZERO))

    def __hash__(self):
        return hash((self.et, self.n, self.k))

    def __repr__(self):
        return f'[{self.n}]({self.t} below {self.k}; {self.w})'

    def get(self, ex, st, i):
        i = st.facts.sub(i)
        for j, v in self.w.items():
            if j == i:
                return v
        for j, v in self.w.items():
            if st.facts.decide(eq0(i - j)) is not False:
                raise Unsupported('element that may have been overwritten')
        if self.k != self.n:
            c = lt0(i - self.k)
            d = st.facts.decide(c)
            if d is None:
                raise Fork(c)
            if not d:
                return ex.P.zero(self.et)
        return self.elem(ex, st, i)

    def elem(self, ex, st, i):
        t = self.t
        if isinstance(t, Poly):
            return inst(t, i)
        if isinstance(t, Ref):
            return t
        if t is HAV and ex.P.kind(self.et) == 'ptr':
            # some value
            r = st.mat.get((('h!el', self.tag), i))
            if r is None:
                ty = ex.P.types[ex.P.under(self.et)['elem']].get('name')
                if ty == NINT:
                    v = fresh('h!el')
                elif ty == NP256:
                    g = base('secp', f'h!{next(_tag)}', False)
                    v = (Coord(g, 0), Coord(g, 1))
                else:
                    raise Unsupported('element of an array')
                o = st.new(ex.P.tid[ty], v)
                st.ro.add(o)
                r = st.mat[('h!el', self.tag), i] = Ref(o)
            return r
        if isinstance(t, Obj):
            r = st.mat.get((self.tag, i))
            if r is None:
                v = inst(t.v, i)
                o = st.new(ex.P.tid[t.t], (Coord(v, 0), Coord(v, 1)) if isinstance(v, GE) else v)
                if isinstance(self.tag, tuple):
                    st.dead.add(o)                # it is in a pool, until it is taken out
                else:
                    st.ro.add(o)
                if isinstance(self.tag, str):
                    ex.params.add(o)
                r = Ref(o)
                st.mat[self.tag, i] = r
            return r
        raise Unsupported('element of an array')

    def havoc(self):
        return SymArr(self.et, self.n, self.n, HAV)

    def put(self, ex, st, i, v):
        i = st.facts.sub(i)
        w = dict(self.w)
        for j in w:
            if j != i and st.facts.decide(eq0(i - j)) is not False:
                raise Unsupported('writes at unknown indices')
        w[i] = v
        return SymArr(self.et, self.n, self.k, self.t, self.tag, w)

    def bytes(self, ex, st, x):
        """a byte slice as a string"""
        if self.w or x.off != ZERO or st.facts.decide(eq0(x.ln - self.n)) is not True:
            raise Unsupported('part of an array of bytes')
        if self.k == ZERO:
            return Str((('zeros', self.n),))
        if st.facts.decide(eq0(self.k - self.n)) is not True:
            raise Unsupported('partly filled array of bytes')
        s = as_bytes(self.t, self.n, st)
        if s is None:
            raise Unsupported('bytes of an array')
        return s

    def zeros(self, st):
        """an array of bytes of which only the first few may differ from zero, as a string"""
        if self.k != ZERO or any(j.const() is None for j in self.w):
            return None
        k = 1 + max((j.const() for j in self.w), default=-1)
        if st.facts.decide(lt0(self.n - k)) is not False:
            return None
        return tuple(self.w.get(const(j), ZERO) for j in range(k))

    def append(self, ex, st, s, add):
        """the result is an array of its own; whether the old one was written behind its end depends on its
        capacity, so it is not looked at any more"""
        if not s.p and st.facts.decide(eq0(s.ln)) is True:
            return Slc(st.new(('array', self.et), tuple(add)), (), 0, len(add), len(add))
        if s.p or s.off != ZERO or self.w or not (isinstance(self.t, (Obj, Ref, Poly)) or self.t is HAV) or st.facts.decide(eq0(self.k - self.n)) is not True \
                or st.facts.decide(lt0(self.n - s.ln)) is not False:
            raise Unsupported('append to an array of unknown length')
        st.lost.add(s.o)
        n = s.ln + len(add)
        new = SymArr(self.et, n, s.ln, self.t, self.tag, {s.ln + i: v for i, v in enumerate(add)})
        return Slc(st.new(('array', self.et), new), (), 0, n, n)


def as_bytes(t, n, st):
    """a template of bytes as a string"""
    # 255 - byte j of s
    s = single(t)
    if s and s[0] == -1 and s[2] == 255 and s[1].kind == 'app' and s[1].data[0] == 'byteat' \
            and s[1].data[1][1] == JV:
        src = s[1].data[1][0]
        if st.facts.decide(eq0(src.length() - n)) is True:
            return flip(src)
    if s and s[0] == 1 and s[2] == 0 and s[1].kind == 'app' and s[1].data[0] == 'byteat' and s[1].data[1][1] == JV:
        src = s[1].data[1][0]
        if st.facts.decide(eq0(src.length() - n)) is True:
            return src
    return None


def flip(s):
    if s.p and len(s.p) == 1 and isinstance(s.p[0], tuple) and s.p[0][0] == 'flip':
        return s.p[0][1]
    b = s.lit_()
    if b is not None:
        return Str.lit(bytes(255 - x for x in b))
    if all(isinstance(x, bytes) or x[0] in ('low', 'byte', 'flip') for x in s.p):
        return Str(tuple(bytes(255 - y for y in x) if isinstance(x, bytes) else
                         ('low', x[3] - 1 - x[1], x[2], x[3]) if x[0] == 'low' else
                         ('byte', 255 - x[1]) if x[0] == 'byte' else x[1].p[0] for x in s.p))
    return Str((('flip', s),))


def new(ex, st, et, n):
    return SymArr(et, n, ZERO, ZV)


def param(ex, st, name, et, n, kind):
    """a slice parameter of unknown length; kind: int64, byte, int, point, pooled"""
    if kind == 'pooled':
        m = f'{name}{next(_tag)}'
        return Slc(st.new(('array', et), SymArr(et, n, n, Obj(NINT, elt(m, JV)), (m,))), (), 0, n, n)
    if kind == 'int64':
        t = elt(name, JV, -(1 << 63), (1 << 63) - 1)
    elif kind == 'bits':
        t = elt(name, JV, 0, 1)
    elif kind == 'byte':
        s = Str((('sym', name, P_(n)),))
        return Slc(st.new(('array', et), s), (), 0, n, n)
    elif kind == 'int':
        t = Obj(NINT, elt(name, JV))
    else:
        t = Obj(NP256, gelt('secp', name, JV))
    return Slc(st.new(('array', et), SymArr(et, n, n, t, name)), (), 0, n, n)


# ---------------------------------------------------------------- loops
def generalise(ex, st, s2, a0, a1, kap, known, extra):
    """the array after one iteration, as a function of the number of iterations"""
    (aK,) = kap.atoms()
    if len(a1.w) != 1:
        return None
    (i, v), = a1.w.items()
    e = i - kap
    down = aK in deps(e)
    if down:
        e = i + kap
        if aK in deps(e) or a0.k != ZERO or a0.w:
            return None
    t = template(s2, v, aK, (e - JV) if down else (JV - e), known, extra, recur(ex, a0, a1, i, e, aK, s2) if not down else None)
    if t is None:
        return None
    tag = next(_tag)
    if down:
        return lambda k: DownArr(a0.et, a0.n, e + 1 - k, e + 1, t, tag)
    return lambda k: SymArr(a0.et, a0.n, e + k, t, tag)


def template(s2, v, aK, r, known, extra, rec=None):
    """the value stored in iteration aK, for the iteration r"""
    ab = lambda x: (rec or (lambda y: abstr_to(y, aK, r)))(x)
    if isinstance(v, Poly):
        return ab(v)
    if not isinstance(v, Ref) or v.p:
        return None
    if v.o in known:
        return None if v.o in extra else v
    ty, c = s2.heap[v.o]
    if isinstance(c, Poly):
        c = ab(c)
        return None if c is None else Obj(NINT, c)
    if isinstance(c, tuple) and len(c) == 2 and all(isinstance(q, Coord) for q in c) and c[0].g == c[1].g:
        c = ab(c[0].g)
        return None if c is None else Obj(NP256, c)
    if c == (NIL, NIL):
        return Obj(NP256, gzero('secp'))
    return None


def recur(ex, a0, a1, i, e, aK, s2):
    """the value of element i is made of the one before it: a formula for it"""
    def cont(v, s2=s2):
        if isinstance(v, Ref) and not v.p:
            v = s2.heap[v.o][1]
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(q, Coord) for q in v) and v[0].g == v[1].g:
            return v[0].g
        return v
    name = (('h!el', a1.tag), i - 1)
    if name not in s2.mat:
        return None
    first = cont(a0.w.get(e - 1)) if a0.k == ZERO else None
    prev = cont(s2.mat[name])
    u = JV - e + 1
    if e == ZERO and a0.k == ZERO and not a0.w:
        # the first element is written on another path
        u = JV
        for s3, w in ex.firsts:
            if isinstance(w, SymArr) and len(w.w) == 1 and s3.facts.sub(next(iter(w.w))) == ZERO:
                first = cont(next(iter(w.w.values())), s3)
    if first is None or a0.k != ZERO or isinstance(first, Poly) and aK in deps(first):
        return None

    def formula(c):
        if isinstance(c, Poly) and isinstance(first, Poly) and isinstance(prev, Poly):
            (h,) = prev.atoms()
            if h not in deps(c):
                return abstr(c, aK, e)
            m = None
            s = single(c)
            if s and s[0] == 1 and s[2] == 0 and s[1].kind == 'mod':
                c, m = s[1].data
            ab = linear_in(c, h)
            if ab is None or aK in deps(ab[0]) or aK in deps(ab[1]):
                return None
            x, y = ab
            if not y.t:
                q = first * mkpow(x, u)
            elif x == ONE:
                q = first + y * u
            else:
                return None
            return q if m is None else mkmod(q, m)
        if isinstance(c, GE) and isinstance(first, GE) and isinstance(prev, GE) and c.g == first.g:
            d = c - prev
            (b,) = prev.t
            if b in d.t:
                x = c.t[b]
                if len(c.t) != 1 or aK in deps(P_(x)):
                    return None
                return first.mul(mkpow(x, u))
            if any(aK in deps(P_(x)) for x in d.t.values()):
                return None
            return first + d.mul(u)
        return None
    return formula


def linear_in(p, h):
    """p as x * h + y"""
    x, y = {}, {}
    for mo, c in p.t.items():
        d = dict(mo)
        n = d.pop(h, 0)
        if n > 1:
            return None
        (x if n else y)[tuple(sorted(d.items()))] = c
    x, y = Poly(x), Poly(y)
    return None if h in deps(x) or h in deps(y) else (x, y)


class DownArr(Lazy):
    """an array that a loop fills from the end: elements from lo on and below hi are given by the template, the
    others are zero values"""
    __slots__ = ('et', 'n', 'lo', 'hi', 't', 'tag', 'w')

    def __init__(self, et, n, lo, hi, t, tag, w=()):
        self.et, self.n, self.lo, self.hi, self.t, self.tag, self.w = et, P_(n), P_(lo), P_(hi), t, tag, dict(w)

    def __eq__(self, o):
        return (isinstance(o, DownArr) and self.et == o.et and self.n == o.n and self.lo == o.lo and self.hi == o.hi
                and self.t == o.t and self.w == o.w)

    def __hash__(self):
        return hash((self.et, self.n, self.lo))

    def __repr__(self):
        return f'[{self.n}]({self.t} from {self.lo} below {self.hi}; {self.w})'

    def get(self, ex, st, i):
        i = st.facts.sub(i)
        for j, v in self.w.items():
            if j == i:
                return v
        raise Unsupported('element of an array filled from its end')

    def put(self, ex, st, i, v):
        i = st.facts.sub(i)
        if self.w and i not in self.w:
            raise Unsupported('writes at unknown indices')
        return DownArr(self.et, self.n, self.lo, self.hi, self.t, self.tag, {i: v})

    def havoc(self):
        return SymArr(self.et, self.n, self.n, HAV)

    def bytes(self, ex, st, x):
        raise Unsupported('bytes of an array filled from its end')

    def append(self, ex, st, s, add):
        raise Unsupported('append to an array filled from its end')

    def settle(self, facts):
        if not self.w and (facts.decide(eq0(self.lo)) is True or facts.decide(eq0(self.hi - self.lo)) is True):
            full = facts.decide(eq0(self.lo)) is True
            return SymArr(self.et, self.n, self.hi if full else ZERO, self.t, self.tag)
        return self


def same_down(a, b, facts, same):
    if isinstance(a, SymArr) and isinstance(b, DownArr):
        a, b = b, a
    if isinstance(b, SymArr):
        return (not a.w and not b.w and a.et == b.et and facts.decide(eq0(a.n - b.n)) is True
                and facts.decide(eq0(a.lo - a.hi)) is True and facts.decide(eq0(b.k)) is True)
    if a.et != b.et or facts.decide(eq0(a.n - b.n)) is not True or b.w or len(a.w) > 1:
        return False
    lo = a.lo
    for i, v in a.w.items():
        if facts.decide(eq0(i + 1 - lo)) is not True or not same(v, b.t, i):
            return False
        lo = i
    if facts.decide(eq0(lo - b.lo)) is not True or facts.decide(eq0(a.hi - b.hi)) is not True:
        return False
    return facts.decide(eq0(a.lo - a.hi)) is True or tsame(a.t, b.t)


def same_arr(a, b, facts, same):
    """a and b have the same elements (as sequences of values)"""
    if not (isinstance(a, SymArr) and isinstance(b, SymArr)):
        return False
    if a.et != b.et or facts.decide(eq0(a.n - b.n)) is not True:
        return False
    if b.w and not a.w:
        a, b = b, a
    # absorb a write at the border
    while len(a.w) == 1:
        (i, v), = a.w.items()
        if facts.decide(eq0(i - a.k)) is not True:
            return False
        a, last = SymArr(a.et, a.n, a.k, a.t, a.tag), (i, v)
        if facts.decide(eq0(b.k - i - 1)) is not True:
            return False
        if not same(last[1], b.t, i):
            return False
        return facts.decide(eq0(a.k)) is True or tsame(a.t, b.t)
    if a.w or b.w:
        return False
    if facts.decide(eq0(a.k - b.k)) is not True:
        return False
    return facts.decide(eq0(a.k)) is True or tsame(a.t, b.t)


def tsame(s, t):
    return s is t or s == t


# ---------------------------------------------------------------- maps
class SymMap(Lazy):
    """a map filled by a loop: the keys key(j), j < k, with their values; w: recent writes.
    key: ('int' or 'dec', template); val: Obj of a group element"""
    __slots__ = ('k', 'key', 'val', 'w')

    def __init__(self, k, key, val, w=()):
        self.k, self.key, self.val, self.w = P_(k), key, val, tuple(w)

    def __eq__(self, o):
        import exec as X
        if isinstance(o, X.MapV):
            return self.k == ZERO and not self.w and not o.e
        return isinstance(o, SymMap) and (self.k, self.key, self.val, self.w) == (o.k, o.key, o.val, o.w)

    def __hash__(self):
        return hash((self.k, self.key))

    def __repr__(self):
        return f'map of {self.k}: {self.key} -> {self.val}; {self.w}'

    def get(self, ex, st, i):
        raise Unsupported('lookup in a map filled by a loop')

    def set(self, ex, st, k, v):
        return SymMap(self.k, self.key, self.val, self.w + ((k, v),))


def map_key(k):
    if isinstance(k, Poly):
        return 'int', k
    if isinstance(k, Str) and k.lit_() is not None and k.lit_().isdigit():
        return 'dec', const(int(k.lit_()))
    if isinstance(k, Str) and len(k.p) == 1 and k.p[0][0] == 'dec':
        return 'dec', k.p[0][1]
    return None


def map_val(s, v):
    """the group element in an object of its own"""
    if not isinstance(v, Ref) or v.p:
        return None
    c = s.heap[v.o][1]
    if isinstance(c, tuple) and len(c) == 1 and isinstance(c[0], Ref):
        c = s.heap[c[0].o][1]
        if isinstance(c, Leaf) and isinstance(c.v, GE):
            return c.v
    return None


def same_map(a, b, facts, s2, equal):
    """a with its recent writes is b"""
    if not isinstance(b, SymMap) or b.w or b.val is HAV:
        return False
    if not a.w:
        return facts.decide(eq0(a.k - b.k)) is True and a.key == b.key and a.val == b.val
    if len(a.w) != 1 or s2 is None or facts.decide(eq0(a.k + 1 - b.k)) is not True or (a.key, a.val) != (b.key, b.val):
        return False
    (k, v), = a.w
    k, v = map_key(k), map_val(s2, v)
    if k is None or v is None or k[0] != b.key[0]:
        return False
    return facts.decide(eq0(k[1] - inst(b.key[1], a.k))) is True and equal(v, inst(b.val, a.k))
