"""Integer terms: polynomials with integer coefficients over interned atoms.

An atom stands for one unknown integer:
  var    a program input or a havocked value, with an optional range
  mod    p mod m (Euclidean, constant m), p in canonical residue form
  div    floor division p div q (Euclidean), q constant or a term
  app    an uninterpreted function applied to hashable arguments
  fac    only in residues: a factor that is invertible modulo m, possibly with
         negative exponent (introduced by modular inverses)
  inv    the inverse of p modulo m, in [0, m)
  cong   an unknown integer known only modulo m
Residue form modulo m: atoms mod/inv/cong of the same modulus are replaced by
what they stand for, coefficients are reduced to [0, m).
"""
import itertools

ATOMS = []          # id -> Atom
_INTERN = {}


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'name')

    def __init__(self, kind, data, lo, hi, name):
        self.kind, self.data, self.lo, self.hi, self.name = kind, data, lo, hi, name
        self.id = len(ATOMS)
        ATOMS.append(self)

    def __repr__(self):
        return self.name


def atom(kind, data, lo=None, hi=None, name=None):
    k = (kind, data)
    a = _INTERN.get(k)
    if a is None:
        a = Atom(kind, data, lo, hi, name or f'{kind}#{len(ATOMS)}')
        _INTERN[k] = a
    return a


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            o = const(o)
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0) if self.is_const() else None

    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            o = const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            o = const(o)
        return self + (-o)

    def __rsub__(self, o):
        return const(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.t.items()})
        if not self.t or not o.t:
            return ZERO
        if len(self.t) < len(o.t):
            return o * self
        c = o.const()
        if c is not None:
            return self * c
        r = {}
        for m2, c2 in o.t.items():
            if not m2:
                for m1, c1 in self.t.items():
                    v = r.get(m1, 0) + c1 * c2
                    if v:
                        r[m1] = v
                    else:
                        del r[m1]
            else:
                for m1, c1 in self.t.items():
                    m = mono_mul(m1, m2)
                    v = r.get(m, 0) + c1 * c2
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        return Poly(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in itertools.islice(sorted(self.t.items(), key=lambda x: str(x[0])), 12):
            s = '*'.join(f'{ATOMS[a]}' + (f'^{e}' if e != 1 else '') for a, e in m)
            if not s:
                s = short(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = f'{short(c)}*{s}'
            out.append(s)
        if len(self.t) > 12:
            out.append(f'...({len(self.t)} terms)')
        return ' + '.join(out).replace('+ -', '- ')


KNOWN_NAMES = {}


def short(c):
    if c in KNOWN_NAMES:
        return KNOWN_NAMES[c]
    if -c in KNOWN_NAMES:
        return '-' + KNOWN_NAMES[-c]
    for k, n in KNOWN_NAMES.items():
        if 0 < k - c < 1 << 20:
            return f'({n}-{k - c})'
    s = str(c)
    return s if len(s) < 24 else s[:8] + '..' + s[-6:]


_mm = {}
BITS = set()     # atoms whose value is 0 or 1: b*b = b


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e > 1 and x[0] in BITS:
                e = 1
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mm) > 2000000:
        _mm.clear()
    _mm[k] = r
    return r


ZERO = Poly({})
ONE = Poly({(): 1})


def const(c):
    return Poly({(): c}) if c else ZERO


def P_(x):
    return x if isinstance(x, Poly) else const(int(x))


def from_atom(a):
    return Poly({((a.id, 1),): 1})


_ctr = itertools.count()


def var(name, lo=None, hi=None):
    return from_atom(atom('var', (name, lo, hi), lo, hi, name))


def fresh(name='v', lo=None, hi=None):
    return var(f'{name}!{next(_ctr)}', lo, hi)


def bit(name):
    p = var(name, 0, 1)
    BITS.add(next(iter(p.atoms())))
    return p


def app(f, args, lo=None, hi=None):
    a = atom('app', (f, args), lo, hi)
    if a.name.startswith('app#'):
        a.name = f'{f}#{a.id}'
    return from_atom(a)


# ---------------------------------------------------------------- intervals
def interval(p):
    """(lo, hi) with None for unbounded; sound, not tight."""
    lo = hi = 0
    for m, c in p.t.items():
        l, h = 1, 1
        for a, e in m:
            al, ah = ATOMS[a].lo, ATOMS[a].hi
            if e < 0:
                return (None, None)
            for _ in range(e):
                l, h = imul((l, h), (al, ah))
            if e % 2 == 0 and (l is None or l < 0):
                l = 0
        l, h = imul((l, h), (c, c))
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None:
            return (None, None)
    return (lo, hi)


INF = float('inf')


def imul(x, y):
    (a, b), (c, d) = x, y
    if None not in (a, b, c, d):
        v = (a * c, a * d, b * c, b * d)
        return (min(v), max(v))
    if a == 0 and b == 0 or c == 0 and d == 0:
        return (0, 0)
    # only the useful one-sided cases
    if a is not None and a >= 0 and c is not None and c >= 0:
        return (a * c, None)
    if b is not None and b <= 0 and d is not None and d <= 0:
        return (b * d, None)
    if a is not None and a >= 0 and d is not None and d <= 0:
        return (None, a * d)
    if b is not None and b <= 0 and c is not None and c >= 0:
        return (None, b * c)
    return (None, None)


# ---------------------------------------------------------------- residues
_res = {}
_atomres = {}


def definition(aid, m):
    """what an atom stands for modulo m, or None if it stands for itself"""
    a = ATOMS[aid]
    if a.kind in ('mod', 'cong') and a.data[1] % m == 0:
        return a.data[0]
    if a.kind == 'app' and a.data[0] == 'sum':
        # the sum of the values that the terms are residues of
        k = (aid, m)
        if k not in _sumdef:
            t, u = a.data[1]
            r = unfolded(t, m)
            _sumdef[k] = SIMP['sum'](r, u) if r != t and all(e > 0 for mo in r.t for _, e in mo) else None
        return _sumdef[k]
    return None


_sumdef = {}


def atom_res(aid, m):
    """inverses become negative powers; every other atom stays as it is"""
    a = ATOMS[aid]
    if a.kind == 'inv' and a.data[1] == m:
        return inv_res(a.data[0], m)
    return None


def fac(p, m):
    """an invertible factor: the atom itself, or a named copy of a polynomial"""
    if len(p.t) == 1:
        (mono, c), = p.t.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    return atom('fac', (p, m)).id


def inv_res(p, m):
    """residue form of p^-1 modulo the prime m"""
    c = p.const()
    if c is not None:
        return const(pow(c, -1, m))
    if len(p.t) == 1:
        (mono, c), = p.t.items()
        return Poly({tuple((a, -e) for a, e in mono): pow(c, -1, m)})
    # normalise the leading coefficient so that p and k*p share a factor
    lead = min(p.t)
    c = p.t[lead]
    q = Poly({k: v * pow(c, -1, m) % m for k, v in p.t.items()}) if c != 1 else p
    return Poly({((fac(q, m), -1),): pow(c, -1, m)})


def res(p, m):
    """canonical residue form of p modulo m"""
    k = (p, m)
    r = _res.get(k)
    if r is not None:
        return r
    subst = {}
    for a in p.atoms():
        ka = (a, m)
        if ka not in _atomres:
            _atomres[ka] = atom_res(a, m)
        s = _atomres[ka]
        if s is not None:
            subst[a] = s
    if not subst:
        r = Poly({mo: c % m for mo, c in p.t.items() if c % m})
    else:
        acc = {}
        for mo, c in p.t.items():
            rest = tuple(x for x in mo if x[0] not in subst)
            q = Poly({rest: c})
            for a, e in mo:
                if a in subst:
                    s = subst[a]
                    if e >= 0:
                        for _ in range(e):
                            q = rmul(q, s, m)
                    else:
                        for _ in range(-e):
                            q = rmul(q, inv_res(s, m), m)
            for k2, v in q.t.items():
                v = (acc.get(k2, 0) + v) % m
                if v:
                    acc[k2] = v
                else:
                    acc.pop(k2, None)
        r = Poly(acc)
    _res[k] = r
    if r != p:
        _res[(r, m)] = r
    return r


def rmul(a, b, m):
    r = a * b
    return Poly({k: v % m for k, v in r.t.items() if v % m})


ZSTAT = {'tests': 0, 'expansions': 0}
_zero = {}


def zero_mod(p, m):
    """True if p is 0 modulo the prime m, whatever the values of the atoms:
    definitions are unfolded newest first, denominators are cleared"""
    k = (p, m)
    v = _zero.get(k)
    if v is None:
        v = _zero[k] = not normal(p, m).t
    return v


def normal(p, m):
    """normal form of p modulo the prime m (zero iff p is zero)"""
    ZSTAT['tests'] += 1
    return clear(unfolded(p, m), m)


def unfolded(p, m):
    """p modulo m without residues modulo m"""
    r = res(p, m)
    while r.t:
        newest = -1
        for mo in r.t:
            for a, _ in mo:
                if a > newest and definition(a, m) is not None:
                    newest = a
        if newest < 0:
            return r
        ZSTAT['expansions'] += 1
        r = unfold(r, newest, res(definition(newest, m), m), m)
    return r


def unfold(r, aid, s, m):
    by = {}
    acc = {}
    for mo, c in r.t.items():
        for j, (a, e) in enumerate(mo):
            if a == aid:
                d = by.setdefault(e, {})
                d[mo[:j] + mo[j + 1:]] = c
                break
        else:
            acc[mo] = c
    for e, d in by.items():
        if e > 0:
            q = s
            for _ in range(e - 1):
                q = rmul(q, s, m)
        else:
            i = inv_res(s, m)
            q = i
            for _ in range(-e - 1):
                q = rmul(q, i, m)
        for mo, c in rmul(Poly(d), q, m).t.items():
            v = (acc.get(mo, 0) + c) % m
            if v:
                acc[mo] = v
            else:
                acc.pop(mo, None)
    return Poly(acc)


def clear(r, m):
    """multiply a residue form by its denominators (which are invertible)"""
    for _ in range(200):
        neg = {}
        for mo in r.t:
            for a, e in mo:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if not neg:
            # positive powers of named factors are expanded
            fs = [a for a in r.atoms() if ATOMS[a].kind == 'fac']
            if not fs:
                return r
            r = expand_fac(r, fs[0], m)
            continue
        a, e = max(neg.items())
        mul = ((a, e),)
        r = Poly({mono_mul(mo, mul): c for mo, c in r.t.items()})
        if ATOMS[a].kind == 'fac':
            r = expand_fac(r, a, m)
    raise RuntimeError('clear: no progress')


def expand_fac(r, a, m):
    """replace positive powers of factor a by its polynomial"""
    q = ATOMS[a].data[0]
    acc = ZERO
    pw = {0: ONE}
    for mo, c in r.t.items():
        e = 0
        rest = []
        for x in mo:
            if x[0] == a and x[1] > 0:
                e = x[1]
            else:
                rest.append(x)
        if e:
            if e not in pw:
                v = ONE
                for _ in range(e):
                    v = rmul(v, q, m)
                pw[e] = v
            acc = acc + Poly({tuple(rest): c}) * pw[e]
        else:
            acc = acc + Poly({mo: c})
    return Poly({k: v % m for k, v in acc.t.items() if v % m})


def mkmod(p, m):
    """the integer p mod m, m a positive constant"""
    p = P_(p)
    c = p.const()
    if c is not None:
        return const(c % m)
    if m == 1:
        return ZERO
    r = res(p, m)
    c = r.const()
    if c is not None:
        return const(c)
    # a value already known to be reduced stands for itself
    if len(r.t) == 1:
        (mo, c), = r.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            a = ATOMS[mo[0][0]]
            if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < m:
                return r
    if len(p.t) == 1:
        (mo, c), = p.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            a = ATOMS[mo[0][0]]
            if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < m:
                return p
    if len(r.t) == 1:
        (mo, c), = r.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == -1 and ATOMS[mo[0][0]].kind != 'fac':
            pass
    return from_atom(atom('mod', (r, m), 0, m - 1))


def mkdiv(p, q):
    """Euclidean quotient; q > 0 must have been established"""
    p, q = P_(p), P_(q)
    cq = q.const()
    cp = p.const()
    if cq is not None and cp is not None:
        return const(cp // cq)
    if cq == 1:
        return p
    if not p.t:
        return ZERO
    # split off the part divisible by q
    if cq is not None:
        whole = Poly({m: c // cq for m, c in p.t.items() if c % cq == 0})
        rest = Poly({m: c for m, c in p.t.items() if c % cq})
        if whole.t:
            return whole + mkdiv(rest, q)
        lo, hi = interval(p)
        if lo is not None and hi is not None and lo // cq == hi // cq:
            return const(lo // cq)
    else:
        if p == q:
            return ONE
        if len(q.t) == 1:
            (mq, c), = q.t.items()
            if c == 1:
                whole, rest = {}, {}
                for m, k in p.t.items():
                    d = dict(m)
                    ok = all(d.get(a, 0) >= e for a, e in mq)
                    if ok:
                        for a, e in mq:
                            d[a] -= e
                            if not d[a]:
                                del d[a]
                        whole[tuple(sorted(d.items()))] = k
                    else:
                        rest[m] = k
                if whole:
                    return Poly(whole) + mkdiv(Poly(rest), q)
    lo, hi = interval(p)
    l = h = None
    if cq is not None:
        l = None if lo is None else lo // cq
        h = None if hi is None else hi // cq
    elif lo is not None and lo >= 0:
        l = 0
    return from_atom(atom('div', (p, q), l, h))


def mkinv(p, m):
    """inverse of p modulo m in [0, m); p invertible must be established"""
    r = res(P_(p), m)
    c = r.const()
    if c is not None:
        return const(pow(c, -1, m))
    return from_atom(atom('inv', (r, m), 1 if m > 1 else 0, m - 1))


def mkcong(p, m, lo=None, hi=None, name='c'):
    """a fresh integer congruent to p modulo m"""
    r = res(P_(p), m)
    return from_atom(atom('cong', (r, m, next(_ctr)), lo, hi))


EVAL = {'and': lambda x, y: x & y, 'nwords': lambda x: (abs(x).bit_length() + 63) // 64, 'blen': lambda x: (abs(x).bit_length() + 7) // 8,
        'bitlen': lambda x: abs(x).bit_length(), 'sgn': lambda x: (x > 0) - (x < 0),
        'byte': lambda x, k: (x >> (8 * k)) & 255, 'bitat': lambda x, k: (x >> k) & 1, 'shr': lambda x, k: x >> k}


SIMP = {}       # function -> constructor that simplifies


def subst1(p, aid, r):
    """replace one atom, outside other atoms"""
    acc = ZERO
    pw = {}
    for mo, c in p.t.items():
        e = 0
        rest = []
        for x in mo:
            if x[0] == aid:
                e = x[1]
            else:
                rest.append(x)
        q = Poly({tuple(rest): c})
        if e:
            if e < 0:
                raise RuntimeError('negative exponent')
            if e not in pw:
                pw[e] = r ** e
            q = q * pw[e]
        acc = acc + q
    return acc


def subst(p, env):
    """replace variables (atom id -> Poly) inside a term, rebuilding atoms"""
    memo = {}

    def sa(aid):
        if aid in memo:
            return memo[aid]
        a = ATOMS[aid]
        if aid in env:
            r = env[aid]
        elif a.kind == 'mod':
            r = mkmod(sp(a.data[0]), a.data[1])
        elif a.kind == 'div':
            r = mkdiv(sp(a.data[0]), sp(a.data[1]))
        elif a.kind == 'inv':
            r = mkinv(sp(a.data[0]), a.data[1])
        elif a.kind == 'app':
            args = sargs(a.data[1])
            e = EVAL.get(a.data[0])
            r = None
            if e is not None and isinstance(args, tuple):
                cs = [x.const() if isinstance(x, Poly) else x for x in args]
                if all(isinstance(x, int) for x in cs):
                    r = const(e(*cs))
            if r is None and a.data[0] in SIMP:
                r = SIMP[a.data[0]](*args)
            if r is None:
                r = app(a.data[0], args, a.lo, a.hi)
        elif a.kind == 'fac':
            r = ('fac', sp(a.data[0]), a.data[1])
        else:
            r = from_atom(a)
        memo[aid] = r
        return r

    def sargs(x):
        if isinstance(x, Poly):
            return sp(x)
        if isinstance(x, tuple):
            return tuple(sargs(y) for y in x)
        if hasattr(x, 'subst'):
            return x.subst(sp)
        return x

    def sp(q):
        acc = ZERO
        for mo, c in q.t.items():
            t = const(c)
            for a, e in mo:
                v = sa(a)
                if isinstance(v, tuple):
                    _, f, m = v
                    v = inv_res(res(f, m), m) if e < 0 else f
                    e = abs(e)
                elif e < 0:
                    raise RuntimeError('subst under negative exponent')
                t = t * v ** e
            acc = acc + t
        return acc
    return sp(p)
