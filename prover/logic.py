"""Conditions, facts, strings and abstract group elements."""
from math import gcd

from terms import *
import terms as T

STAT = {'z3': 0, 'z3_s': 0.0}


class Cond:
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k, self.a = k, a
        self._h = hash((k, a))

    def __eq__(self, o):
        return isinstance(o, Cond) and self._h == o._h and self.k == o.k and self.a == o.a

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.k == 'not':
            return f'!({self.a[0]})'
        if self.k in ('and', 'or'):
            return '(' + f' {self.k} '.join(map(str, self.a)) + ')'
        if self.k == 'eq0':
            return f'{self.a[0]} == 0'
        if self.k == 'lt0':
            return f'{self.a[0]} < 0'
        if self.k == 'cong0':
            return f'{self.a[0]} = 0 mod {short(self.a[1])}'
        return f'{self.k}{self.a}'


def not_(c):
    if isinstance(c, bool):
        return not c
    if c.k == 'not':
        return c.a[0]
    return Cond('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        for d in (c.a if c.k == 'and' else (c,)):
            if d not in out:
                out.append(d)
    if not out:
        return True
    return out[0] if len(out) == 1 else Cond('and', *out)


def or_(*cs):
    return not_(and_(*(not_(c) for c in cs)))


def ite(c, x, y):
    """the truth value x if c, else y"""
    if x is y or x == y:
        return x
    if y is False:
        return and_(c, x)
    if y is True:
        return or_(not_(c), x)
    if x is False:
        return and_(not_(c), y)
    if x is True:
        return or_(c, y)
    return or_(and_(c, x), and_(not_(c), y))


def atoms_of(c, out):
    if isinstance(c, bool):
        return
    if c.k in ('not', 'and'):
        for x in c.a:
            atoms_of(x, out)
    elif c not in out:
        out.append(c)


def settled(st, r, v, depth=10):
    """whether r is v in every completion of what is known in state st"""
    d = st.facts.decide(r)
    if d is not None or depth == 0:
        return d is v
    at = []
    atoms_of(r, at)
    for x in at:
        if st.facts.decide(x) is None:
            break
    else:
        return False
    for w in (True, False):
        s2 = st.fork()
        if s2.assume(x, w) and not settled(s2, r, v, depth - 1):
            return False
    return True


def lead(p):
    ks = [m for m in p.t if m]
    return max(ks) if ks else ()


def single(p):
    """(c, atom, k) if p = c*atom + k, else None"""
    if len(p.t) > 2:
        return None
    k = p.t.get((), 0)
    rest = [(m, c) for m, c in p.t.items() if m]
    if len(rest) != 1:
        return None
    m, c = rest[0]
    if len(m) != 1 or m[0][1] != 1:
        return None
    return c, ATOMS[m[0][0]], k


def eq0(p):
    c = p.const()
    if c is not None:
        return c == 0
    lo, hi = interval(p)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    k = p.t.get((), 0)
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if k % g:
        return False
    if p.t[lead(p)] < 0:
        g = -g
    if g != 1:
        p = Poly({m: c // g for m, c in p.t.items()})
    s = single(p)
    if s:
        c, a, k = s
        if a.kind == 'app':
            f = a.data[0]
            if f == 'sgn':
                q = a.data[1][0]
                v = -k // c
                return eq0(q) if v == 0 else lt0(-q) if v == 1 else lt0(q) if v == -1 else False
            if f in ('nwords', 'blen', 'bitlen') and k == 0:
                return eq0(a.data[1][0])
        if c == 1 and k == 0 and a.kind == 'mod':
            return cong0(a.data[0], a.data[1])
    # differences of reduced residues
    ms = set()
    for m in p.t:
        for aid, _ in m:
            a = ATOMS[aid]
            if a.kind in ('mod', 'inv', 'cong'):
                ms.add(a.data[1])
    for m in ms:
        lo, hi = interval(p)
        if lo is not None and hi is not None and lo > -m and hi < m and isprime(m):
            return cong0(p, m)
    return Cond('eq0', p)


def lt0(p):
    lo, hi = interval(p)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    s = single(p)
    if s:
        c, a, k = s
        if a.kind == 'app':
            f = a.data[0]
            if f == 'sgn':
                q = a.data[1][0]
                vs = [v for v in (-1, 0, 1) if c * v + k < 0]
                return or_(*([lt0(q)] if -1 in vs else []), *([eq0(q)] if 0 in vs else []),
                           *([lt0(-q)] if 1 in vs else []))
            if f in ('nwords', 'blen', 'bitlen'):
                if c == -1 and k == 0:
                    return not_(eq0(a.data[1][0]))
                if c == 1 and k == -1:
                    return eq0(a.data[1][0])
    if p.t[lead(p)] < 0:
        return not_(lt0(-p - 1))
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        k = p.t.get((), 0)
        # g*q + k < 0  <=>  q < ceil(-k/g) = -floor(k/g)
        p = Poly({m: c // g for m, c in p.t.items() if m}) + k // g
    return Cond('lt0', p)


def ge0(p):
    return not_(lt0(p))


_prime = {}


def isprime(m):
    r = _prime.get(m)
    if r is None:
        r = m > 1 and all(pow(a, m - 1, m) == 1 for a in (2, 3, 5, 7, 11, 13) if a % m)
        if m < 10000:
            r = m > 1 and all(m % d for d in range(2, int(m ** .5) + 1))
        _prime[m] = r
    return r


def cong0(p, m):
    """p is divisible by m"""
    if m == 1:
        return True
    if not isprime(m):
        r = Poly({k: c % m for k, c in p.t.items() if c % m})
        c = r.const()
        if c is not None:
            return c == 0
        lo, hi = interval(p)
        if lo is not None and hi is not None and lo > -m and hi < m:
            return eq0(p)
        return Cond('cong0', r, m)
    if zero_mod(p, m):
        return True
    r = normal(p, m)
    c = r.const()
    if c is not None:
        return False
    # monomials of single atoms: zero iff one of the atoms is
    r = scale(r, m)
    if len(r.t) == 1:
        (mo, _), = r.t.items()
        if len(mo) == 1:
            a = ATOMS[mo[0][0]]
            q = from_atom(a)
            if a.lo is not None and a.hi is not None and a.lo > -m and a.hi < m:
                return Cond('eq0', q) if a.lo <= 0 <= a.hi else False
            return Cond('cong0', q, m)
    else:
        b = Poly({k: c if c <= m // 2 else c - m for k, c in r.t.items()})
        lo, hi = interval(b)
        if lo is not None and hi is not None and lo > -m and hi < m:
            return Cond('eq0', b if b.t[lead(b)] > 0 else -b) if lo <= 0 <= hi else False
    return Cond('cong0', r, m)


def scale(r, m):
    l = max(r.t)
    c = r.t[l]
    if c == 1:
        return r
    i = pow(c, -1, m)
    return Poly({k: v * i % m for k, v in r.t.items()})


def streq(a, b):
    if a == b:
        return True
    if a.lit_() is not None and b.lit_() is not None:
        return a.lit_() == b.lit_()
    if len(a.p) == 1 and len(b.p) == 1 and isinstance(a.p[0], tuple) and isinstance(b.p[0], tuple) \
            and a.p[0][0] == b.p[0][0] == 'dec':
        return eq0(a.p[0][1] - b.p[0][1])
    if len(a.p) == 1 and len(b.p) == 1 and isinstance(a.p[0], tuple) and isinstance(b.p[0], tuple) \
            and a.p[0][0] == b.p[0][0] and a.p[0][0] in ('gm', 'gs') and a.p[0][1].g == b.p[0][1].g:
        return (a.p[0][1] - b.p[0][1]).is_zero_cond()
    for x, y in ((a, b), (b, a)):
        l = y.lit_()
        if len(x.p) == 1 and isinstance(x.p[0], tuple) and x.p[0][0] == 'dec' and l is not None:
            # the decimal form of a number is a given text only if the number is the one written there
            try:
                v = int(l)
            except ValueError:
                return False
            return eq0(x.p[0][1] - v) if str(v).encode() == (l if isinstance(l, bytes) else l.encode()) else False
    return Cond('streq', a, b)


# ---------------------------------------------------------------- strings
def blen(x):
    lo, hi = interval(x)
    return app('blen', (x,), 0, None if lo is None or hi is None else (max(-lo, hi).bit_length() + 7) // 8)


class Str:
    """a string or the contents of a byte array: a concatenation of parts
      bytes             a literal
      ('dec', p)        decimal digits of p
      ('rune', p)       UTF-8 of the code point p
      ('byte', p)       one byte
      ('sha', parts)    the 32 bytes of SHA-256(parts)
      ('be', p)         |p| big-endian without leading zeros
      ('zeros', n)      n zero bytes, n not known
      ('sym', name, n)  an unknown string of length n (a Poly)
      ('digits', name, m) m decimal digits
      ('low', L, m, Q)  the number 0 <= L < Q = 256^m as m bytes, big-endian
      ('gm', g)         the encoding of a group element of the pairing
      ('gs', g)         its printed form
    """
    __slots__ = ('p', '_h')

    def __init__(self, p):
        out = []
        for x in p:
            if isinstance(x, bytes):
                if not x:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + x
                    continue
            elif x[0] == 'be' and out and not isinstance(out[-1], bytes) and out[-1][0] == 'zeros':
                w = (out[-1][1] + blen(x[1])).const()
                lo, hi = interval(x[1])
                if w is not None and lo is not None and lo >= 0 and hi is not None and hi >> (8 * w) == 0:
                    out[-1:] = [('byte', app('byte', (x[1], w - 1 - i), 0, 255)) for i in range(w)]
                    continue
            elif x[0] == 'byte' and x[1].const() is not None:
                x = bytes([x[1].const() % 256])
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + x
                    continue
            elif x[0] in ('dec',) and x[1].const() is not None:
                x = str(x[1].const()).encode()
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + x
                    continue
            out.append(x)
        self.p = tuple(out)
        self._h = None

    @staticmethod
    def lit(b):
        return Str((bytes(b),))

    def lit_(self):
        if not self.p:
            return b''
        if len(self.p) == 1 and isinstance(self.p[0], bytes):
            return self.p[0]
        return None

    def __add__(self, o):
        return Str(self.p + o.p)

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.p)
        return self._h

    def __repr__(self):
        out = []
        for x in self.p:
            out.append(repr(x)[:60] if isinstance(x, bytes) else f'{x[0]}({str(x[1])[:60]})')
        return '"' + '+'.join(out) + '"'

    def subst(self, sp):
        def ss(x):
            if isinstance(x, Poly):
                return sp(x)
            if isinstance(x, tuple):
                return tuple(ss(y) for y in x)
            if hasattr(x, 'subst'):
                return x.subst(sp)
            return x
        return Str(tuple(ss(x) for x in self.p))

    def length(self):
        n = ZERO
        for x in self.p:
            if isinstance(x, bytes):
                n = n + len(x)
            elif x[0] == 'byte':
                n = n + 1
            elif x[0] == 'sha':
                n = n + 32
            elif x[0] == 'be':
                n = n + blen(x[1])
            elif x[0] in ('sym', 'digits'):
                n = n + x[2]
            elif x[0] == 'zeros':
                n = n + x[1]
            elif x[0] == 'flip':
                n = n + x[1].length()
            elif x[0] == 'low':
                n = n + x[2]
            elif x[0] == 'gm':
                n = n + GMLEN[x[1].g]
            else:
                n = n + app('strlen', (x,), 1, None)
        return n

    def clen(self):
        return self.length().const()

    def byte(self, i):
        k = 0
        for x in self.p:
            if isinstance(x, bytes):
                if i < k + len(x):
                    return const(x[i - k])
                k += len(x)
            elif x[0] == 'byte':
                if i == k:
                    return x[1]
                k += 1
            elif x[0] == 'sha':
                if i < k + 32:
                    return app('shabyte', (x[1], i - k), 0, 255)
                k += 32
            elif x[0] == 'flip' and len(self.p) == 1:
                return 255 - x[1].byte(i)
            elif x[0] == 'low' and i == k and x[1] == ZERO:       # m >= 1 bytes
                return ZERO
            elif x[0] == 'low' and i == k and x[1] == x[3] - 1:
                return const(255)
            else:
                break
        return app('byteat', (self, i), 0, 255)

    def at(self, j, facts=None):
        """byte j; a condition that must be known first is returned instead"""
        c = j.const()
        if facts is not None and (len(self.p) > 1 or self.p and self.p[0][0] == 'digits'):
            k = ZERO
            for x in self.p:
                n = Str((x,)).length()
                d = facts.decide(lt0(j - k - n))
                if d is None:
                    return lt0(j - k - n)
                if d:
                    i = facts.sub(j - k)
                    if n == ONE:
                        i = ZERO
                    if not isinstance(x, bytes) and x[0] == 'digits':
                        return app('digit', (x[1], i), 48, 57)
                    if i.const() is not None:
                        return Str((x,)).byte(i.const())
                    if isinstance(x, bytes):
                        return lt0(i - len(x) // 2)
                    return Str((x,)).at(i)
                k = k + n
        if c is not None:
            return self.byte(c)
        return app('byteat', (self, j), 0, 255)

    def explode(self):
        n = self.clen()
        if n is None:
            raise Exception('bytes of a string of unknown length')
        return tuple(self.byte(i) for i in range(n))

    def sub(self, lo, hi):
        if lo == ZERO and hi == self.length():
            return self
        l, h = lo.const(), hi.const()
        if l is not None and h is not None and self.clen() is not None:
            return Str(tuple(('byte', self.byte(i)) for i in range(l, h)))
        if lo == hi:
            return Str(())
        # whole leading parts of known length
        if l is not None:
            k = 0
            for j, x in enumerate(self.p):
                if k == l and hi == self.length():
                    return Str(self.p[j:])
                if isinstance(x, bytes):
                    if k < l < k + len(x) and hi == self.length():
                        return Str((x[l - k:],) + self.p[j + 1:])
                    k += len(x)
                elif x[0] == 'byte':
                    k += 1
                else:
                    break
        return Str((('sub', self, lo, hi),))


# ---------------------------------------------------------------- groups
GMLEN = {'g1': 64, 'g2': 128, 'gt': 384}
ORD = {}         # group -> prime order
FIELD = {}       # group -> prime of the coordinates
NZBASE = set()   # bases that are not the identity
BASENAME = {}


GSIMP = {}      # names of group elements that are rebuilt after a substitution


class GE:
    """an element of one of the four prime-order groups: an integer linear
    combination of named elements, coefficients modulo the order"""
    __slots__ = ('g', 't', '_h')

    def __init__(self, g, t):
        n = ORD[g]
        self.g = g
        self.t = {}
        for b, c in t.items():
            c = res(P_(c), n)
            if c.t:
                self.t[b] = c
        self._h = None

    def key(self):
        return (self.g, frozenset(self.t.items()))

    def __eq__(self, o):
        return isinstance(o, GE) and self.g == o.g and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __add__(self, o):
        assert self.g == o.g
        t = dict(self.t)
        for b, c in o.t.items():
            t[b] = t[b] + c if b in t else c
        return GE(self.g, t)

    def __neg__(self):
        return GE(self.g, {b: -c for b, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def mul(self, k):
        k = P_(k)
        n = ORD[self.g]
        return GE(self.g, {b: T.rmul(res(c, n), res(k, n), n) for b, c in self.t.items()})

    def __repr__(self):
        if not self.t:
            return f'{self.g}:0'
        items = sorted(self.t.items(), key=lambda x: str(x[0]))
        s = ' + '.join(f'({str(c)[:50]})*{b}' for b, c in items[:4])
        return f'{self.g}:[{s}{"..." if len(items) > 4 else ""}]'

    def subst(self, sp):
        """apply a substitution to the coefficients and the names"""
        def sn(x):
            if isinstance(x, Poly):
                return sp(x)
            if isinstance(x, tuple):
                return tuple(sn(y) for y in x)
            if hasattr(x, 'subst'):
                return x.subst(sp)
            return x
        r = GE(self.g, {})
        for b, c in self.t.items():
            c = sp(c)
            if isinstance(b, tuple):
                b = sn(b)
                if b[0] in GSIMP:
                    r = r + GSIMP[b[0]](self.g, *b[1:]).mul(c)
                    continue
            r = r + GE(self.g, {b: c})
        return r

    def iszero(self):
        n = ORD[self.g]
        return all(zero_mod(c, n) for c in self.t.values())

    def same(self, o):
        return (self - o).iszero()

    def is_zero_cond(self):
        n = ORD[self.g]
        t = {b: c for b, c in self.t.items() if not zero_mod(c, n)}
        if not t:
            return True
        if self.g in ('mon', 'fp12'):
            # no group of prime order: nothing follows from a multiple being zero
            return Cond('gz', self.g, tuple((b, t[b]) for b in sorted(t, key=str)))
        if len(t) == 1:
            (b, c), = t.items()
            if b in NZBASE:
                return cong0(c, n)
            if c.const() is not None:
                return Cond('gz', self.g, ((b, ONE),))
            z = cong0(c, n)
            return or_(z, Cond('gz', self.g, ((b, ONE),)))
        # scale so that the first coefficient is one when it is a unit constant
        bs = sorted(t, key=str)
        c0 = t[bs[0]].const()
        if c0 is not None:
            i = pow(c0, -1, n)
            t = {b: res(c * i, n) for b, c in t.items()}
        return Cond('gz', self.g, tuple((b, t[b]) for b in bs))

    def coord(self, i):
        """affine coordinate of a point other than infinity (x, y, ... in [0, p))"""
        g = self
        # x(-G) = x(G), y(-G) = p - y(G)
        if g.t and self.g in ('secp', 'g1', 'g2'):
            b = min(g.t, key=str)
            c = normal_key(g.t[b], ORD[g.g])
            if c is not None and c > ORD[g.g] // 2:
                n = -g
                if i == 0 or self.g == 'g2' and i in (0, 1):
                    return n.coord(i)
                if self.g in ('secp', 'g1'):
                    return FIELD[g.g] - n.coord(i)
                return T.mkmod(-n.coord(i), FIELD[g.g])        # one of the two coefficients of y may be zero
        p = FIELD[g.g]
        lo = 1 if self.g == 'secp' else 0
        return app(f'{self.g}.{"xyzwabcdefgh"[i]}', (self,), lo, p - 1)


def normal_key(p, n):
    c = p.t.get(max(p.t)) if p.t else None
    return c


def base(g, name, nz=True):
    if nz:
        NZBASE.add(name)
    return GE(g, {name: ONE})


def gzero(g):
    return GE(g, {})


# ---------------------------------------------------------------- facts
class Facts:
    def __init__(self):
        self.known = {}
        self.eqs = {}       # atom id -> Poly
        self.nz = []        # (poly, m): not divisible by m
        self.zz = []        # (poly, m): divisible by the prime m
        self.lin = []       # (kind, poly, bool) for the arithmetic solver
        self.gz = []        # group elements that are zero
        self.disj = []
        self.rng = {}       # linear part -> (lo, hi) from the facts
        self.meqs = {}      # (atom id, prime) -> Poly: congruences solved for an atom
        self.bad = False

    def fork(self):
        f = Facts.__new__(Facts)
        f.known = dict(self.known)
        f.eqs = dict(self.eqs)
        f.nz = list(self.nz)
        f.zz = list(self.zz)
        f.lin = list(self.lin)
        f.gz = list(self.gz)
        f.meqs = dict(self.meqs)
        f.disj = list(self.disj)
        f.rng = self.rng
        f.bad = self.bad
        return f

    def sub(self, p):
        if not self.eqs:
            return p
        for _ in range(8):
            if not deps(p) & self.eqs.keys():
                return p
            p = subst(p, self.eqs)
        return p

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if c.k == 'not':
            d = self.decide(c.a[0])
            return None if d is None else not d
        if c.k == 'and':
            u = False
            for x in c.a:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    u = True
            if not u:
                return True
            # the negation may be known as a disjunction
            return self.known.get(c)
        v = self.known.get(c)
        if v is not None:
            return v
        if c.k == 'eq0':
            p = self.sub(c.a[0])
            if p is not c.a[0]:
                d = eq0(p)
                if d != c:
                    return self.decide(d)
            if self.nz and len(c.a[0].t) <= 6:
                for m in {m for _, m in self.nz}:
                    if self.nonzero(normal(c.a[0], m), m):
                        return False
            return self.arith(c)
        if c.k == 'lt0':
            p = self.sub(c.a[0])
            if p is not c.a[0]:
                d = lt0(p)
                if d != c:
                    return self.decide(d)
            return self.arith(c)
        if c.k == 'cong0':
            p, m = c.a
            if self.eqs:
                q = self.sub(p)
                if q is not p:
                    d = cong0(q, m)
                    if d != c:
                        return self.decide(d)
            if isprime(m):
                q = self.strip(self.msub(normal(p, m), m), m)
                if not q.t:
                    return True
                if q != p:
                    d = cong0(q, m)
                    if d != c:
                        return self.decide(d)
                if self.nonzero(p, m):
                    return False
                for q, m2 in self.nz:
                    # a factor of something nonzero is nonzero
                    if m2 == m and len(q.t) > 1 and exact_div(q, p, m) is not None:
                        return False
                for q, m2 in self.zz:
                    if m2 == m and exact_div(p, q, m) is not None:
                        return True
                    if m2 == m and self.meqs and len(q.t) <= 12:
                        z = self.msub(normal(q, m), m)
                        if z.t and z != q and exact_div(p, scale(z, m), m) is not None:
                            return True
                # an inverse power is zero iff ... handled by clearing
            return self.arith(c)
        if c.k == 'gz':
            if self.eqs:
                c = self.sub_gz(c)
                if isinstance(c, bool):
                    return c
                if c.k != 'gz':
                    return self.decide(c)
                for k, v in self.known.items():
                    if k.k == 'gz' and k.a[0] == c.a[0]:
                        k = self.sub_gz(k)
                        if isinstance(k, Cond) and k.k == 'gz' and same_gz(k, c):
                            return v
                return None
            for k, v in self.known.items():
                if k.k == 'gz' and k.a[0] == c.a[0] and same_gz(k, c):
                    return v
            return None
        return None

    def sub_gz(self, c):
        """the condition with the known equalities applied to its coefficients"""
        g, t = c.a
        u = [(b, self.sub(x)) for b, x in t]
        if all(x is y or x == y for (_, x), (_, y) in zip(t, u)):
            return c
        return GE(g, dict(u)).is_zero_cond()

    def msub(self, p, m):
        """apply the congruences that have been solved for an atom"""
        for _ in range(6):
            todo = [a for a in p.atoms() if (a, m) in self.meqs]
            if not todo:
                return p
            for a in todo:
                if any(e < 0 for mo in p.t for b, e in mo if b == a):
                    return p
                p = T.unfold(p, a, self.meqs[a, m], m)
            p = normal(p, m)
        return p

    def strip(self, p, m):
        """divide by factors that are known to be nonzero atoms"""
        common = None
        for mo in p.t:
            d = {a: e for a, e in mo if e > 0}
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                return p
        if common:
            for a, e in common.items():
                if self.atom_nonzero(a, m):
                    p = Poly({mono_mul(mo, ((a, -e),)): c for mo, c in p.t.items()})
        return p

    def nonzero(self, p, m):
        """p is known not to be divisible by the prime m"""
        p = clear(res(p, m), m)
        for _ in range(40):
            if not p.t:
                return False
            c = p.const()
            if c is not None:
                return c % m != 0
            # strip a common monomial whose atoms are nonzero
            common = None
            for mo in p.t:
                d = dict(mo)
                common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
                if not common:
                    break
            prog = False
            if common:
                for a, e in list(common.items()):
                    at = ATOMS[a]
                    if self.atom_nonzero(a, m):
                        p = Poly({mono_mul(mo, ((a, -e),)): c for mo, c in p.t.items()})
                        prog = True
            if not prog:
                for q, m2 in self.nz:
                    if m2 != m or q.is_const():
                        continue
                    d = exact_div(p, q, m)
                    if d is not None:
                        p = d
                        prog = True
                        break
            if not prog:
                return False
        return False

    def atom_nonzero(self, a, m):
        at = ATOMS[a]
        if at.lo is not None and at.hi is not None and at.hi < m and at.lo > -m and (at.lo > 0 or at.hi < 0):
            return True
        q = from_atom(at)
        for p, m2 in self.nz:
            if m2 == m and p == q:
                return True
        if at.kind == 'fac' and at.data[1] == m:
            return True
        if at.kind in ('mod', 'cong') and at.data[1] == m:
            return self.nonzero(normal(at.data[0], m), m)
        return False

    def add(self, c, v=True):
        """assume c == v; False if that contradicts the facts"""
        if isinstance(c, bool):
            return c == v
        if c.k == 'not':
            return self.add(c.a[0], not v)
        d = self.decide(c)
        if d is not None:
            return d == v
        if c.k == 'and' and v:
            return all(self.add(x, True) for x in c.a)
        if c.k == 'and':
            # a disjunction: unit propagation only
            und = [x for x in c.a if self.decide(x) is None]
            if not und:
                return False
            if len(und) == 1:
                return self.add(und[0], False)
            self.known[c] = False
            self.known[and_(*und)] = False
            self.disj.append(c)
            return True
        self.known[c] = v
        r = self.add2(c, v)
        if r and v and c.k == 'eq0':
            r = self.recheck(deps(c.a[0]))
        if r and self.disj:
            r = self.propagate()
        return r

    def recheck(self, atoms):
        """after an equality: re-evaluate the conditions about the same atoms"""
        for c, v in list(self.known.items()):
            if c.k not in ('eq0', 'lt0', 'cong0') or not deps(c.a[0]) & atoms:
                continue
            q = self.sub(c.a[0])
            if q == c.a[0]:
                continue
            d = eq0(q) if c.k == 'eq0' else lt0(q) if c.k == 'lt0' else cong0(q, c.a[1])
            if isinstance(d, bool) and d != v:
                return False
            if c.k == 'lt0' and isinstance(d, Cond) and d.k == 'lt0' and \
                    any(ATOMS[a].kind == 'app' and a not in atoms and deps(from_atom(ATOMS[a])) & atoms for a in c.a[0].atoms()):
                # the same function applied to equal arguments has another name
                self.lin.append(('lt0', d.a[0], v))
        # a multiple of a prime that has become a constant
        for q, m in self.zz:
            if len(q.t) <= 12 and q.atoms() & atoms:
                z = self.msub(normal(self.sub(q), m), m)
                c = z.const()
                if c is not None and c % m:
                    return False
        return True

    def propagate(self):
        """unit propagation on the known disjunctions"""
        for c in list(self.disj):
            und = []
            for x in c.a:
                d = self.decide(x)
                if d is False:
                    und = None
                    break
                if d is None:
                    und.append(x)
            if und is None:
                self.disj.remove(c)
                continue
            if not und:
                return False
            if len(und) == 1:
                self.disj.remove(c)
                if not self.add(und[0], False):
                    return False
            elif len(und) < len(c.a):
                self.known[and_(*und)] = False
        return True

    def add2(self, c, v):
        if c.k == 'eq0':
            p = self.sub(c.a[0])
            if v:
                # solve for a variable
                for mo, k in sorted(p.t.items(), key=lambda x: -max((a for a, _ in x[0]), default=-1)):
                    if len(mo) == 1 and mo[0][1] == 1 and k in (1, -1):
                        a = mo[0][0]
                        if ATOMS[a].kind not in ('var', 'app', 'div', 'mod', 'inv'):
                            continue
                        rest = (p - Poly({mo: k})) * (-k)
                        if a in deps(rest):
                            continue
                        lo, hi = interval(rest)
                        at = ATOMS[a]
                        self.eqs[a] = rest
                        if at.kind == 'mod' and isprime(at.data[1]):
                            z = normal(at.data[0] - rest, at.data[1])
                            if z.t:
                                self.zz.append((scale(z, at.data[1]), at.data[1]))
                        break
                self.lin.append(('eq0', c.a[0], True))
            else:
                self.lin.append(('eq0', c.a[0], False))
                s = single(c.a[0])
                if s and s[1].lo == 0 and s[1].hi == 1 and abs(s[0]) == 1 and -s[2] * s[0] in (0, 1):
                    self.eqs[s[1].id] = const(1 + s[2] * s[0])
                lo, hi = interval(c.a[0])
                for m in PRIMES:
                    if lo is not None and hi is not None and lo > -m and hi < m:
                        self.nz.append((scale(normal(c.a[0], m), m), m))
        elif c.k == 'lt0':
            self.lin.append(('lt0', c.a[0], v))
            p = c.a[0]
            if len(p.t) <= 6:
                k = p.t.get((), 0)
                L = p - k
                lo, hi = self.rng.get(L) or interval(L)
                if v:
                    hi = -k - 1 if hi is None else min(hi, -k - 1)
                else:
                    lo = -k if lo is None else max(lo, -k)
                self.rng = dict(self.rng)
                self.rng[L] = (lo, hi)
                if lo is not None and lo == hi:
                    e = eq0(self.sub(L) - lo)
                    if isinstance(e, Cond) and e.k == 'eq0':
                        self.known[e] = True
                        return self.add2(e, True) and self.recheck(deps(e.a[0]))
                    return e is not False
        elif c.k == 'cong0':
            p, m = c.a
            if isprime(m):
                q = self.strip(self.msub(normal(p, m), m), m)
                if q.t:
                    q = scale(q, m)
                    (self.zz if v else self.nz).append((q, m))
                    if v:
                        self.solve(q, m)
                elif not v:
                    return False
            self.lin.append(('cong0', (p, m), v))
        elif c.k == 'gz' and v:
            self.gz.append(c.a)
        return True

    def solve(self, q, m):
        for mo in sorted(q.t, reverse=True):
            if len(mo) == 1 and mo[0][1] == 1:
                a = mo[0][0]
                if sum(1 for k in q.t for b, _ in k if b == a) > 1 or ATOMS[a].kind == 'fac':
                    continue
                i = pow(q.t[mo], -1, m)
                self.meqs[a, m] = Poly({k: -v * i % m for k, v in q.t.items() if k != mo})
                return

    # -------------------------------------------------------- arithmetic
    def arith(self, c):
        """linear integer reasoning, only when facts about the same atoms exist"""
        p = c.a[0]
        want = deps(p)
        rel = []
        todo = list(self.lin)
        prog = True
        while prog:
            prog = False
            for x in list(todo):
                q = x[1] if isinstance(x[1], Poly) else x[1][0]
                d = deps(q)
                if d & want:
                    rel.append(x)
                    todo.remove(x)
                    want = want | d
                    prog = True
        ds = [a for a in want if ATOMS[a].kind in ('div', 'mod')]
        if not rel and not ds and len(p.t) > 40:
            return None
        if not rel and not ds:
            return None
        key = (c, tuple(rel))
        if key in _arith:
            return _arith[key]
        r = z3_decide(c, rel, want)
        _arith[key] = r
        return r


_arith = {}
PRIMES = []
_deps = {}


def deps(p):
    """atoms occurring in p, also inside other atoms"""
    r = _deps.get(p)
    if r is None:
        r = set()
        todo = list(p.atoms())
        while todo:
            a = todo.pop()
            if a in r:
                continue
            r.add(a)
            d = ATOMS[a].data
            stack = [d]
            while stack:
                x = stack.pop()
                if isinstance(x, Poly):
                    todo.extend(x.atoms())
                elif isinstance(x, tuple):
                    stack.extend(x)
                elif isinstance(x, GE):
                    stack.extend(x.t.values())
                    stack.extend(b for b in x.t if isinstance(b, tuple))
                elif isinstance(x, Str):
                    stack.extend(x.p)
        r = frozenset(r)
        _deps[p] = r
    return r


def same_gz(a, b):
    """the same element up to a unit factor (so zero together)"""
    x, y = dict(a.a[1]), dict(b.a[1])
    if set(x) != set(y):
        return False
    n = ORD[a.a[0]]
    bs = sorted(x, key=str)
    p, q = x[bs[0]], y[bs[0]]
    # cross-multiply; only valid when both leading coefficients are units
    if p.const() is None or q.const() is None:
        return all(zero_mod(x[b] - y[b], n) for b in bs) or all(zero_mod(x[b] + y[b], n) for b in bs)
    return all(zero_mod(x[b] * q - y[b] * p, n) for b in bs)


def exact_div(p, q, m):
    """p / q modulo the prime m if the division is exact, else None"""
    if not q.t:
        return None
    if not q.atoms() <= p.atoms():
        return None

    def key(mo):
        return mo
    # graded order by exponent vectors over all atoms
    ids = sorted(p.atoms() | q.atoms())

    def vec(mo):
        d = dict(mo)
        return tuple(d.get(a, 0) for a in ids)
    lq = max(q.t, key=vec)
    vq = vec(lq)
    iq = pow(q.t[lq], -1, m)
    r = dict((k, v % m) for k, v in p.t.items() if v % m)
    out = {}
    n = 0
    while r:
        n += 1
        if n > 3000:
            return None
        lr = max(r, key=vec)
        vr = vec(lr)
        d = tuple(x - y for x, y in zip(vr, vq))
        if any(x < 0 for x in d):
            return None
        mo = tuple((a, e) for a, e in zip(ids, d) if e)
        c = r[lr] * iq % m
        out[mo] = c
        for k, v in q.t.items():
            k2 = mono_mul(k, mo)
            w = (r.get(k2, 0) - c * v) % m
            if w:
                r[k2] = w
            else:
                r.pop(k2, None)
    return Poly(out)


def z3_decide(c, rel, want):
    import time
    import z3
    t0 = time.time()
    STAT['z3'] += 1
    s = z3.Solver()
    s.set('timeout', 1500)
    vs = {}

    def mono(mo):
        if not mo:
            return z3.IntVal(1)
        e = None
        if len(mo) == 1 and mo[0][1] == 1:
            return atomv(mo[0][0])
        # a product: uninterpreted, with sign information
        if mo not in vs:
            v = z3.Int('m!%d' % len(vs))
            vs[mo] = v
            lo, hi = interval(Poly({mo: 1}))
            if lo is not None:
                s.add(v >= lo)
            if hi is not None:
                s.add(v <= hi)
        return vs[mo]

    def atomv(a):
        if a in vs:
            return vs[a]
        v = z3.Int('a!%d' % a)
        vs[a] = v
        at = ATOMS[a]
        if at.lo is not None:
            s.add(v >= at.lo)
        if at.hi is not None:
            s.add(v <= at.hi)
        if at.kind == 'mod' and len(at.data[0].t) < 30:
            q = z3.Int('q!%d' % a)
            s.add(expr(at.data[0]) == q * at.data[1] + v)
        elif at.kind == 'div' and at.data[1].const() and len(at.data[0].t) < 30:
            r = z3.Int('r!%d' % a)
            k = at.data[1].const()
            s.add(expr(at.data[0]) == v * k + r, r >= 0, r < abs(k))
        elif at.kind == 'app' and at.data[0] in ('blen', 'bitlen', 'nwords'):
            x = at.data[1][0]
            e = expr(x)
            s.add((v == 0) == (e == 0))
            if at.data[0] == 'bitlen':
                s.add(v >= 0)
        return v

    def expr(p):
        if any(e < 0 for mo in p.t for _, e in mo):
            return z3.Int('opaque!%d' % (hash(p) & 0xffffffff))
        return z3.Sum([k * mono(mo) for mo, k in p.t.items()]) if p.t else z3.IntVal(0)

    def form(k, x):
        if k == 'eq0':
            return expr(x) == 0
        if k == 'lt0':
            return expr(x) < 0
        q = z3.Int('c!%d' % len(vs))
        vs[('c', len(vs))] = q
        return None
    for k, x, v in rel:
        f = form(k, x)
        if f is None:
            p, m = x
            if v and len(p.t) < 30:
                q = z3.Int('k!%d' % len(vs))
                vs[('k', len(vs))] = q
                s.add(expr(p) == q * m)
            continue
        s.add(f if v else z3.Not(f))
    if c.k == 'cong0':
        p, m = c.a
        if len(p.t) > 30:
            return None
        q, r = z3.Int('goal_q'), z3.Int('goal_r')
        s.add(expr(p) == q * m + r, r >= 0, r < m)
        g = r == 0
    else:
        g = form(c.k, c.a[0])
    out = None
    s.push()
    s.add(g)
    if s.check() == z3.unsat:
        out = False
    else:
        s.pop()
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            out = True
    STAT['z3_s'] += time.time() - t0
    return out
