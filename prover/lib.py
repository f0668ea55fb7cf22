"""Models of the library functions that /repo calls (math/big, sha256, bytes,
strconv, errors, fmt, math, crypto/rand, builtins).  These are trusted: each
states the documented behaviour of the function."""
import math

from terms import *
from logic import *
from exec import *
import exec as X
from arrays import mkpow

TABLE = {}
USED = set()     # library functions whose model was used
METHODS = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def geti(ex, st, p):
    v = ex.cell(st, p)
    if not isinstance(v, Poly):
        raise Unsupported(f'not an integer object: {v!r}')
    return v


def seti(ex, st, p, v):
    if isinstance(p, Coord):
        raise Unsupported('write to a coordinate of a point')
    if p is NIL:
        raise Panic('nil pointer dereference')
    ex.store(st, p, v)
    return p


def dec(st, c):
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    return d


def bigt(ex):
    return ex.P.tid['math/big.Int']


def newint(ex, st, v):
    return Ref(st.new(bigt(ex), P_(v)))


B = '(*math/big.Int).'


@model('math/big.NewInt')
def _(ex, st, a):
    return newint(ex, st, a[0])


@model(B + 'SetInt64', B + 'SetUint64')
def _(ex, st, a):
    return seti(ex, st, a[0], a[1])


@model(B + 'Set')
def _(ex, st, a):
    return seti(ex, st, a[0], geti(ex, st, a[1]))


@model(B + 'Add')
def _(ex, st, a):
    return seti(ex, st, a[0], geti(ex, st, a[1]) + geti(ex, st, a[2]))


@model(B + 'Sub')
def _(ex, st, a):
    return seti(ex, st, a[0], geti(ex, st, a[1]) - geti(ex, st, a[2]))


@model(B + 'Mul')
def _(ex, st, a):
    x, y = geti(ex, st, a[1]), geti(ex, st, a[2])
    if len(x.t) * len(y.t) > 400000:
        raise Unsupported('product of large terms')
    return seti(ex, st, a[0], x * y)


@model(B + 'Neg')
def _(ex, st, a):
    return seti(ex, st, a[0], -geti(ex, st, a[1]))


def absv(st, x):
    lo, hi = interval(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return -x
    return -x if dec(st, lt0(x)) else x


@model(B + 'Abs')
def _(ex, st, a):
    return seti(ex, st, a[0], absv(st, geti(ex, st, a[1])))


def emod(st, x, y):
    """Euclidean remainder"""
    c = y.const()
    if c is not None:
        if c == 0:
            raise Panic('division by zero')
        c = abs(c)
        if c > 1 << 64 and isprime(c):
            return mkmod(x, c)
        return x - mkdiv(x, const(c)) * c if not (c & (c - 1)) else mkmodc(x, c)
    if dec(st, eq0(y)):
        raise Panic('division by zero')
    y = absv(st, y)
    r = x - mkdiv(x, y) * y
    if r.const() is None:
        st.assume(ge0(r), True)
        st.assume(lt0(r - y), True)
    return r


def mkmodc(x, m):
    c = x.const()
    if c is not None:
        return const(c % m)
    lo, hi = interval(x)
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return x
    return x - mkdiv(x, const(m)) * m


def ediv(st, x, y):
    c = y.const()
    if c is not None:
        if c == 0:
            raise Panic('division by zero')
        return mkdiv(x, const(c)) if c > 0 else -mkdiv(x, const(-c))
    if dec(st, eq0(y)):
        raise Panic('division by zero')
    if dec(st, lt0(y)):
        return -mkdiv(x, -y)
    return mkdiv(x, y)


@model(B + 'Mod')
def _(ex, st, a):
    return seti(ex, st, a[0], emod(st, geti(ex, st, a[1]), geti(ex, st, a[2])))


@model(B + 'Div')
def _(ex, st, a):
    return seti(ex, st, a[0], ediv(st, geti(ex, st, a[1]), geti(ex, st, a[2])))


@model(B + 'DivMod')
def _(ex, st, a):
    x, y = geti(ex, st, a[1]), geti(ex, st, a[2])
    q, r = ediv(st, x, y), emod(st, x, y)
    seti(ex, st, a[0], q)
    seti(ex, st, a[3], r)
    return (a[0], a[3])


@model(B + 'Quo')
def _(ex, st, a):
    x, y = geti(ex, st, a[1]), geti(ex, st, a[2])
    if dec(st, lt0(x)):
        return seti(ex, st, a[0], -ediv(st, -x, y))
    return seti(ex, st, a[0], ediv(st, x, y))


@model(B + 'Rem')
def _(ex, st, a):
    x, y = geti(ex, st, a[1]), geti(ex, st, a[2])
    if dec(st, lt0(x)):
        return seti(ex, st, a[0], -emod(st, -x, y))
    return seti(ex, st, a[0], emod(st, x, y))


def pow2(n):
    """2^n, also for a number of bytes times eight"""
    c = n.const()
    if c is not None:
        return const(1 << c)
    for k in range(8):
        m = n - k
        if all(v % 8 == 0 for v in m.t.values()):
            c = m.t.get((), 0) // 8
            m = Poly({a: v // 8 for a, v in m.t.items() if a})
            lo, _ = interval(m)
            if lo is None or lo + c < 0 or lo < 1 or c < 0:
                break
            return power256(m) * (1 << (8 * c + k))
    raise Unsupported('symbolic shift')


@model(B + 'Lsh')
def _(ex, st, a):
    return seti(ex, st, a[0], geti(ex, st, a[1]) * pow2(a[2]))


@model(B + 'Rsh')
def _(ex, st, a):
    return seti(ex, st, a[0], mkdiv(geti(ex, st, a[1]), pow2(a[2])))


@model(B + 'Not')
def _(ex, st, a):
    return seti(ex, st, a[0], -geti(ex, st, a[1]) - 1)


def powk(x, y, m):
    """x^y modulo m for y >= 0"""
    if y.t.get((), 0) > 64:
        return app('powmod', (x, y, const(m)), 0, m - 1)
    return mkmodc(mkpow(x, y), m)


def powmod(x, n, m):
    r = ONE
    for c in bin(n)[2:]:
        r = mkmod(r * r, m)
        if c == '1':
            r = mkmod(r * x, m)
    return r


def coprime(st, x, m):
    """gcd(x, m) = 1"""
    s = single(x)
    if s and s[0] == 1 and s[2] == 0 and s[1].kind == 'app' and s[1].data[0] == 'powmod' and s[1].data[1][2] == m:
        b, e, _ = s[1].data[1]
        return dec(st, eq0(e)) or coprime(st, b, m)
    return dec(st, Cond('pred', 'coprime', x, m))


def powsym(st, x, y, m):
    """x^y mod m for an unknown m > 0; None: there is no inverse"""
    if dec(st, lt0(y)) and not coprime(st, x, m):
        return None
    s = single(x)
    if s and s[0] == 1 and s[2] == 0 and s[1].kind == 'app' and s[1].data[0] == 'powmod' and s[1].data[1][2] == m:
        x, y = s[1].data[1][0], y * s[1].data[1][1]
    return app('powmod', (x, y, m), 0, None)


@model(B + 'Exp')
def _(ex, st, a):
    x, y = geti(ex, st, a[1]), geti(ex, st, a[2])
    m = None if a[3] is NIL else geti(ex, st, a[3])
    if m is not None and m.const() == 0:
        m = None
    n = y.const()
    if m is None:
        if n is None:
            if dec(st, lt0(y)) or dec(st, eq0(y)):
                return seti(ex, st, a[0], ONE)
            return seti(ex, st, a[0], app('pow', (x, y), *((0, None) if (interval(x)[0] or -1) >= 0 else ())))
        if n <= 0:
            return seti(ex, st, a[0], ONE)
        if n > 64 and x.const() is None:
            raise Unsupported('large power')
        return seti(ex, st, a[0], x ** n)
    mc = m.const()
    if mc is None:
        if dec(st, eq0(m)):
            raise Unsupported('zero modulus')
        r = powsym(st, x, y, absv(st, m))
        return NIL if r is None else seti(ex, st, a[0], r)
    mc = abs(mc)
    if n is None:
        if dec(st, lt0(y)):
            if not isprime(mc):
                raise Unsupported('negative symbolic exponent')
            if dec(st, cong0(x, mc)):
                return NIL
            return seti(ex, st, a[0], powk(mkinv(x, mc), -y, mc))
        return seti(ex, st, a[0], powk(x, y, mc))
    if n < 0:
        if not isprime(mc):
            raise Unsupported('inverse modulo a composite')
        if dec(st, cong0(x, mc)):
            return NIL
        return seti(ex, st, a[0], powmod(mkinv(x, mc), -n, mc))
    if x.const() is not None:
        return seti(ex, st, a[0], const(pow(x.const(), n, mc)))
    if n > 64:
        return seti(ex, st, a[0], app('powmod', (x, y, const(mc)), 0, mc - 1))
    if not isprime(mc):
        return seti(ex, st, a[0], mkmodc(x ** n, mc))
    return seti(ex, st, a[0], powmod(x, n, mc))


@model(B + 'ModInverse')
def _(ex, st, a):
    x, m = geti(ex, st, a[1]), geti(ex, st, a[2]).const()
    if m is None:
        y = geti(ex, st, a[2])
        if dec(st, eq0(y)):
            raise Unsupported('zero modulus')
        r = powsym(st, x, const(-1), absv(st, y))
        return NIL if r is None else seti(ex, st, a[0], r)
    m = abs(m)
    if m == 0:
        raise Unsupported('inverse modulo 0')
    c = x.const()
    if c is not None:
        if math.gcd(c, m) != 1:
            return NIL
        return seti(ex, st, a[0], const(pow(c, -1, m)))
    if not isprime(m):
        raise Unsupported('inverse modulo a composite')
    if dec(st, cong0(x, m)):
        return NIL
    return seti(ex, st, a[0], mkinv(x, m))


@model(B + 'ModSqrt')
def _(ex, st, a):
    x, m = geti(ex, st, a[1]), geti(ex, st, a[2]).const()
    if m is None or not isprime(m):
        raise Unsupported('square root modulo a composite')
    r = res(x, m)
    c = r.const()
    if c is not None:
        if c == 0:
            return seti(ex, st, a[0], ZERO)
        if pow(c, (m - 1) // 2, m) != 1:
            return NIL
        if m % 4 == 3:
            return seti(ex, st, a[0], const(pow(c, (m + 1) // 4, m)))
        raise Unsupported('square root of a constant')
    r = normal(r, m)
    if not dec(st, Cond('pred', 'square', r, m)):
        return NIL
    y = app('sqrt', (r, m), 0, m - 1)
    st.notes.append(('sqrt', (y, r, m)))
    st.facts.zz.append((scale(normal(y * y - r, m), m), m))
    return seti(ex, st, a[0], y)


def sgn(p):
    c = p.const()
    if c is not None:
        return const((c > 0) - (c < 0))
    lo, hi = interval(p)
    if lo is not None and lo > 0:
        return ONE
    if hi is not None and hi < 0:
        return const(-1)
    return app('sgn', (p,), -1, 1)


@model(B + 'Cmp')
def _(ex, st, a):
    return sgn(geti(ex, st, a[0]) - geti(ex, st, a[1]))


@model(B + 'CmpAbs')
def _(ex, st, a):
    return sgn(absv(st, geti(ex, st, a[0])) - absv(st, geti(ex, st, a[1])))


@model(B + 'Sign')
def _(ex, st, a):
    return sgn(geti(ex, st, a[0]))


@model(B + 'BitLen')
def _(ex, st, a):
    x = geti(ex, st, a[0])
    c = x.const()
    if c is not None:
        return const(abs(c).bit_length())
    return bitlen(x)


def bitlen(x):
    lo, hi = interval(x)
    h = max(abs(lo), abs(hi)).bit_length() if lo is not None and hi is not None else 1 << 40
    return app('bitlen', (x,), 0, h)


@model(B + 'Bit')
def _(ex, st, a):
    x, i = geti(ex, st, a[0]), a[1]
    c = i.const()
    sh = single(x)
    if sh and sh[0] == 1 and sh[2] == 0 and sh[1].kind == 'app' and sh[1].data[0] == 'shr':
        return app('bitat', (sh[1].data[1][0], sh[1].data[1][1] + i), 0, 1)
    if c is not None:
        if x.const() is not None:
            return const((x.const() >> c) & 1)
        if (interval(x)[1] or 1 << 64) >= 1 << 63:
            return app('bitat', (x, i), 0, 1)
        q = mkdiv(x, const(1 << c))
        return q - mkdiv(q, const(2)) * 2
    if dec(st, lt0(i)):
        raise Panic('negative bit index')
    return app('bitat', (x, i), 0, 1)


@model(B + 'Bits')
def _(ex, st, a):
    x = geti(ex, st, a[0])
    c = x.const()
    n = const((abs(c).bit_length() + 63) // 64) if c is not None else app('nwords', (x,), 0, None)
    o = st.new(('array', ex.P.tid.get('math/big.Word')), Words(x))
    return Slc(o, (), 0, n, n)


class Words(X.Lazy):
    """the 64-bit words of |x|, least significant first"""

    def __init__(self, x):
        self.x = x

    def get(self, ex, st, i):
        x = absv(st, self.x)
        k = i.const()
        if k is None:
            raise Unsupported('symbolic word index')
        q = mkdiv(x, const(1 << (64 * k)))
        # a number of one word is its only word
        n = app('nwords', (self.x,), 0, None)
        c = eq0(n - (k + 1))
        if x.const() is None and st.facts.decide(c) is True:
            return q
        return q - mkdiv(q, const(1 << 64)) * (1 << 64)

    def put(self, ex, st, i, v):
        raise Unsupported('write to the words of a number')


@model(B + 'Bytes')
def _(ex, st, a):
    x = absv(st, geti(ex, st, a[0]))
    c = x.const()
    s = Str((c.to_bytes((c.bit_length() + 7) // 8, 'big'),)) if c is not None else split_top(st, x) or Str((('be', x),))
    n = s.length()
    return Slc(st.new(('array', bytet(ex)), s), (), 0, n, n)


PW = {}         # atom of a power 256^m -> m


def power256(m):
    """256^m for a symbolic m >= 1"""
    Q = app('pow256', (m,), 256, None)
    PW[next(iter(Q.atoms()))] = m
    return Q


def split_top(st, x):
    """x > 0 as its leading bytes and the m bytes below 256^m"""
    qs = [a for a in x.atoms() if a in PW]
    if len(qs) != 1:
        return None
    m, Q = PW[qs[0]], from_atom(T.ATOMS[qs[0]])
    k = x.t.get(((qs[0], 1),), 0)
    if any(len(mo) > 1 or mo and mo[0][1] != 1 for mo in x.t):
        return None
    if k == 1 and st.facts.decide(eq0(x - Q + 1)) is True:       # all bits set
        return Str((('low', Q - 1, m, Q),))
    for t in (k, k - 1, k + 1, k - 2):
        if t > 0 and st.facts.decide(lt0(x - t * Q)) is not True and st.facts.decide(lt0(x - (t + 1) * Q)) is not False:
            if dec(st, lt0(x - t * Q)) or not dec(st, lt0(x - (t + 1) * Q)):
                continue
            return Str((t.to_bytes((t.bit_length() + 7) // 8, 'big'), ('low', x - t * Q, m, Q)))
    return None


def bytet(ex):
    return ex.P.tid.get('byte', ex.P.tid.get('uint8'))


@model(B + 'FillBytes')
def _(ex, st, a):
    x = absv(st, geti(ex, st, a[0]))
    n = a[1].ln.const()
    if n is None:
        raise Unsupported('FillBytes')
    if dec(st, ge0(x - (1 << (8 * n)))):
        raise Panic('FillBytes: buffer too small')
    for i in range(n):
        ex.store(st, Ref(a[1].o, a[1].p + (const(a[1].off.const() + i).const(),)), byteof(x, n - 1 - i))
    return a[1]


def byteof(x, k):
    """byte k (least significant first) of x >= 0"""
    c = x.const()
    if c is not None:
        return const((c >> (8 * k)) & 255)
    return app('byte', (x, k), 0, 255)


@model(B + 'SetBytes')
def _(ex, st, a):
    s = bytes_of(ex, st, a[1])
    return seti(ex, st, a[0], int_of_bytes(s))


def int_of_bytes(s):
    l = s.lit_()
    if l is not None:
        return const(int.from_bytes(l, 'big'))
    if len(s.p) == 1 and not isinstance(s.p[0], bytes):
        x = s.p[0]
        if x[0] == 'be':
            return x[1]
        if x[0] == 'sha':
            return app('sha256', (x[1],), 0, (1 << 256) - 1)
    n = s.clen()
    if n is None and all(isinstance(x, bytes) or x[0] in ('low', 'byte') for x in s.p):
        acc = ZERO
        for x in s.p:
            if isinstance(x, bytes):
                acc = acc * 256 ** len(x) + int.from_bytes(x, 'big')
            elif x[0] == 'byte':
                acc = acc * 256 + x[1]
            else:
                acc = acc * x[3] + x[1]
        return acc
    if n is None:
        return app('beint', (s,), 0, None)
    bs = s.explode()
    # consecutive bytes of one number
    acc = ZERO
    i = 0
    while i < n:
        b = bs[i]
        at = single(b)
        if at and at[0] == 1 and at[2] == 0 and at[1].kind == 'app' and at[1].data[0] == 'byte':
            x, k = at[1].data[1]
            if i + k < n and all(bs[i + j] == byteof(x, k - j) for j in range(k + 1)):
                lo, hi = interval(x)
                if hi is not None and hi < 1 << (8 * (k + 1)):
                    acc = acc + x * (1 << (8 * (n - 1 - i - k)))
                    i += k + 1
                    continue
        acc = acc + b * (1 << (8 * (n - 1 - i)))
        i += 1
    return acc


@model(B + 'Int64')
def _(ex, st, a):
    x = geti(ex, st, a[0])
    lo, hi = interval(x)
    if (lo is None or hi is None) and st.facts.decide(ge0(x + (1 << 63))) is True \
            and st.facts.decide(lt0(x - (1 << 63))) is True:
        return x
    return X.wrap(x, 64, True)


@model(B + 'Uint64')
def _(ex, st, a):
    return X.wrap(geti(ex, st, a[0]), 64, False)


@model(B + 'IsInt64')
def _(ex, st, a):
    x = geti(ex, st, a[0])
    return and_(ge0(x + (1 << 63)), lt0(x - (1 << 63)))


@model(B + 'IsUint64')
def _(ex, st, a):
    x = geti(ex, st, a[0])
    return and_(ge0(x), lt0(x - (1 << 64)))


@model(B + 'String')
def _(ex, st, a):
    if a[0] is NIL:
        return Str.lit(b'<nil>')
    if isinstance(a[0], Coord):
        return Str((('dec', a[0].g.coord(a[0].i)),))
    return Str((('dec', geti(ex, st, a[0])),))


@model(B + 'Text')
def _(ex, st, a):
    if a[1].const() != 10:
        raise Unsupported('Text base')
    return TABLE[B + 'String'](ex, st, a)


def numeral(s, st):
    """the value of a string of digits with an optional sign, False if it is no such string, None when not known"""
    p, neg = list(s.p), False
    if p and isinstance(p[0], bytes) and p[0] in (b'-', b'+'):
        neg = p[0] == b'-'
        p = p[1:]
    elif p and p[0][0] == 'byte':
        x = p[0][1]
        neg = dec(st, eq0(x - 45))
        if neg or dec(st, eq0(x - 43)):
            p = p[1:]
    if len(p) == 1 and p[0][0] == 'digits' and st.facts.decide(lt0(p[0][2] - 1)) is False:
        v = app('numeral', (p[0][1],), 0)
        return -v if neg else v
    for x in p:
        if isinstance(x, bytes):
            if not x.isdigit():
                return False
        elif x[0] == 'byte':
            if st.facts.decide(lt0(x[1] - 48)) is True or st.facts.decide(lt0(57 - x[1])) is True:
                return False
    # the rest of the string decides
    return app('numeral', (s,)) if dec(st, Cond('pred', 'numeral', s)) else False


@model(B + 'SetString')
def _(ex, st, a):
    s, b = a[1].lit_(), a[2].const()
    if s is None:
        if len(a[1].p) == 1 and a[1].p[0][0] == 'dec' and b in (0, 10):
            return (seti(ex, st, a[0], a[1].p[0][1]), True)
        if b == 10:
            r = numeral(a[1], st)
            if r is not None:
                seti(ex, st, a[0], fresh('undef') if r is False else r)
                return (NIL, False) if r is False else (a[0], True)
        h = ex.lib.setstring
        if h is not None:
            return h(ex, st, a)
        raise Unsupported('SetString of a symbolic string')
    try:
        t = s.decode()
        if b == 0:
            v = int(t, 0)
        else:
            if not t.lstrip('+-').replace('_', '!').isalnum():
                raise ValueError
            v = int(t, b)
    except ValueError:
        if s:       # the installed implementation leaves the number alone when the string is empty
            seti(ex, st, a[0], fresh('undef'))
        return (NIL, False)
    return (seti(ex, st, a[0], const(v)), True)


# ---------------------------------------------------------------- other packages
_n = [0]


def mkerr(st, what='error'):
    _n[0] += 1
    return Ifc('error', (what, _n[0]))


@model('errors.New', 'fmt.Errorf')
def _(ex, st, a):
    return mkerr(st)


@model('fmt.Println', 'fmt.Printf', 'fmt.Print')
def _(ex, st, a):
    return (fresh('n'), NIL)


def formatted(ex, st, v, verb):
    if not isinstance(v, Ifc):
        raise Unsupported('fmt.Sprintf of ' + repr(v))
    t = ex.P.types[v.t]['str'] if isinstance(v.t, int) else ''
    if verb in 'sv' and t == 'string':
        return v.v
    if verb in 'dv' and t in ('int', 'int64', 'int32', 'uint64', 'uint32', 'uint', 'uint8', 'int8'):
        return Str((('dec', v.v),))
    if verb in 'dsv' and t == '*math/big.Int':
        return TABLE[B + 'String'](ex, st, (v.v,))
    if verb in 'sv' and t.startswith('*'):
        f = ex.P.funcs.get(f'({t}).String')
        if f is not None and isinstance(v.v, Ref):
            r = ex.call(st, f['name'], [v.v])
            if len(r) == 1 and r[0][0] is st and isinstance(r[0][1], Str):
                return r[0][1]
    raise Unsupported(f'fmt.Sprintf %{verb} of {t}')


@model('fmt.Sprintf')
def _(ex, st, a):
    f = a[0].lit_() if isinstance(a[0], Str) else None
    v = () if a[1] is NIL else ex.cell(st, Ref(a[1].o, a[1].p))
    if f is None or not isinstance(v, tuple):
        raise Unsupported('fmt.Sprintf')
    v = list(v)
    out = Str(())
    i = 0
    while i < len(f):
        c = f[i:i + 1]
        i += 1
        if c != b'%':
            out = out + Str.lit(c)
            continue
        verb = f[i:i + 1].decode()
        i += 1
        if verb == '%':
            out = out + Str.lit(b'%')
        elif verb in ('s', 'd', 'v') and v:
            out = out + formatted(ex, st, v.pop(0), verb)
        else:
            raise Unsupported('fmt.Sprintf %' + verb)
    if v:
        raise Unsupported('fmt.Sprintf: more values than verbs')
    return out


@model('fmt.Sprint')
def _(ex, st, a):
    v = () if a[0] is NIL else ex.cell(st, Ref(a[0].o, a[0].p))
    if not isinstance(v, tuple):
        raise Unsupported('fmt.Sprint')
    out, prev = Str(()), True
    for x in v:
        string = isinstance(x, Ifc) and isinstance(x.t, int) and ex.P.types[x.t]['str'] == 'string'
        if not string and not prev:
            out = out + Str.lit(b' ')
        out, prev = out + formatted(ex, st, x, 'v'), string
    return out


@model('math.Log2')
def _(ex, st, a):
    if isinstance(a[0].f, float):
        if a[0].f <= 0:
            return Flt(float('-inf') if a[0].f == 0 else float('nan'))
        return Flt(math.log2(a[0].f))
    x = a[0].f
    # only powers of two are known to have an exact logarithm
    for k in range(63):
        c = eq0(x - (1 << k))
        d = st.facts.decide(c)
        if d is True:
            return Flt(float(k))
        if d is None:
            raise Fork(c)
    raise Unsupported('logarithm')


@model('math.Log')
def _(ex, st, a):
    if isinstance(a[0].f, float):
        return Flt(math.log(a[0].f) if a[0].f > 0 else float('-inf') if a[0].f == 0 else float('nan'))
    if not isinstance(a[0].f, Poly):
        raise Unsupported('logarithm')
    return Flt(('log', a[0].f))


@model('math.Ceil', 'math.Floor')
def _(ex, st, a):
    raise Unsupported('float rounding')


def bits_model(st, x, n):
    c = x.const()
    if c is None and not n.startswith('L'):
        l, h = interval(x)
        if l is not None and h is not None and l > 0 and l & (l - 1) and l.bit_length() == h.bit_length():
            # strictly between two powers of two
            k = l.bit_length() - 1
            return app(n, (x,), *((2, k + 1) if n.startswith('Ones') else (0, k - 1)))
        raise Unsupported('math/bits')
    if c is not None and n.startswith('Ones'):
        return const(bin(c).count('1'))
    if c is not None and n.startswith('Trail'):
        return const((c & -c).bit_length() - 1 if c else 64)
    for k in range(65):
        d = st.facts.decide(lt0(x - (1 << k)))
        if d is None:
            raise Fork(lt0(x - (1 << k)))
        if d:
            return const(k if n.startswith('Len') else 64 - k)
    raise Infeasible()


for _bn in ('Len64', 'Len', 'Len32', 'LeadingZeros64', 'TrailingZeros64', 'OnesCount64', 'TrailingZeros', 'OnesCount'):
    TABLE['math/bits.' + _bn] = lambda ex, st, a, n=_bn: bits_model(st, a[0], n)


@model('crypto/rand.Int')
def _(ex, st, a):
    m = geti(ex, st, a[1])
    if dec(st, not_(lt0(-m))):
        raise Panic('crypto/rand: argument to Int is <= 0')
    if isinstance(a[0], Ifc) and a[0].t == 'reader' and dec(st, Cond('pred', 'reader fails', const(len(st.draws)))):
        return (NIL, mkerr(st))         # the caller's source may fail, the system's does not
    c = m.const()
    v = fresh('rand', 0, None if c is None else c - 1)
    st.draws.append((v, a[0], m))
    return (newint(ex, st, v), NIL)


@model('crypto/sha256.New')
def _(ex, st, a):
    return Ifc('sha256', Ref(st.new(('sha256',), Str(()))))


@model('crypto/sha256.Sum256')
def _(ex, st, a):
    s = bytes_of(ex, st, a[0])
    return Str((('sha', s.p),))


def method(t, *names):
    def d(f):
        for n in names:
            METHODS[(t, n)] = f
        return f
    return d


@method('sha256', 'Write')
def _(ex, st, a):
    r = a[0].v
    s = bytes_of(ex, st, a[1])
    ex.store(st, r, ex.cell(st, r) + s)
    return (s.length(), NIL)


@method('sha256', 'Sum')
def _(ex, st, a):
    s = ex.cell(st, a[0].v)
    pre = Str(()) if a[1] is NIL else bytes_of(ex, st, a[1])
    s = pre + Str((('sha', s.p),))
    n = s.length()
    return Slc(st.new(('array', bytet(ex)), s), (), 0, n, n)


@method('sha256', 'Reset')
def _(ex, st, a):
    ex.store(st, a[0].v, Str(()))
    return NIL


@method('error', 'Error')
def _(ex, st, a):
    return Str((('sym', 'errtext', fresh('n', 0, None)),))


BUF = '(*bytes.Buffer).'


@model('bytes.NewBufferString')
def _(ex, st, a):
    return Ref(st.new(ex.P.tid['bytes.Buffer'], a[0]))


@model('bytes.NewBuffer')
def _(ex, st, a):
    return Ref(st.new(ex.P.tid['bytes.Buffer'], bytes_of(ex, st, a[0])))


@model(BUF + 'WriteString')
def _(ex, st, a):
    ex.store(st, a[0], ex.cell(st, a[0]) + a[1])
    return (a[1].length(), NIL)


@model(BUF + 'Write')
def _(ex, st, a):
    s = bytes_of(ex, st, a[1])
    ex.store(st, a[0], ex.cell(st, a[0]) + s)
    return (s.length(), NIL)


@model(BUF + 'WriteByte')
def _(ex, st, a):
    ex.store(st, a[0], ex.cell(st, a[0]) + Str((('byte', a[1]),)))
    return NIL


@model(BUF + 'Bytes')
def _(ex, st, a):
    s = ex.cell(st, a[0])
    n = s.length()
    return Slc(st.new(('array', bytet(ex)), s), (), 0, n, n)


@model(BUF + 'String')
def _(ex, st, a):
    return ex.cell(st, a[0])


@model(BUF + 'Reset')
def _(ex, st, a):
    ex.store(st, a[0], Str(()))
    return NIL


@model('bytes.Equal')
def _(ex, st, a):
    return streq(bytes_of(ex, st, a[0]), bytes_of(ex, st, a[1]))


@model('strconv.FormatInt')
def _(ex, st, a):
    if a[1].const() != 10:
        raise Unsupported('FormatInt base')
    return Str((('dec', a[0]),))


@model('strconv.Itoa')
def _(ex, st, a):
    return Str((('dec', a[0]),))


# ---------------------------------------------------------------- builtins
def bytes_of(ex, st, x):
    """the contents of a byte slice as a Str"""
    if x is NIL:
        return Str(())
    if isinstance(x, Str):
        return x
    if not isinstance(x, Slc):
        raise Unsupported('bytes of ' + repr(x))
    v = ex.cell(st, Ref(x.o, x.p))
    if isinstance(v, Str):
        return v.sub(x.off, x.off + x.ln)
    if isinstance(v, tuple):
        lo, n = x.off.const(), x.ln.const()
        if lo is None or n is None:
            n2 = concretize(st, x.ln, 0, len(v))
            lo = concretize(st, x.off, 0, len(v))
            n = n2
        return Str(tuple(('byte', b) for b in v[lo:lo + n]))
    if isinstance(v, Lazy):
        return v.bytes(ex, st, x)
    raise Unsupported('bytes')


def b_len(ex, st, a, ts, t):
    x = a[0]
    if x is NIL:
        return ZERO
    if isinstance(x, Slc):
        return x.ln
    if isinstance(x, Str):
        return x.length()
    if isinstance(x, Ref):
        v = ex.cell(st, x)
        if isinstance(v, MapV):
            return const(len(v.e))
        if isinstance(v, tuple):
            return const(len(v))
    raise Unsupported('len')


def b_cap(ex, st, a, ts, t):
    if a[0] is NIL:
        return ZERO
    return a[0].cap


def b_copy(ex, st, a, ts, t):
    d, s = a
    if d is NIL or s is NIL:
        return ZERO
    if isinstance(s, Str):
        src = s
        sl = s.length()
    else:
        sl = s.ln
        v = ex.cell(st, Ref(s.o, s.p))
        if isinstance(v, Str):
            src = v.sub(s.off, s.off + s.ln)
        elif isinstance(v, tuple):
            n, lo = s.ln.const(), s.off.const()
            if n is None or lo is None:
                raise Unsupported('copy of symbolic length')
            src = v[lo:lo + n]
        else:
            raise Unsupported('copy from a symbolic array')
    dv = ex.cell(st, Ref(d.o, d.p))
    n, dl = sl.const(), d.ln.const()
    off = d.off.const()
    if n is not None and dl is not None and off is not None and isinstance(dv, (tuple, Str)):
        k = min(n, dl)
        if isinstance(dv, Str):
            dv = dv.explode()
        new = tuple(src.byte(i) for i in range(k)) if isinstance(src, Str) else src[:k]
        ex.store(st, Ref(d.o, d.p), dv[:off] + new + dv[off + k:])
        return const(k)
    if isinstance(src, Str) and off is not None and not d.p:
        head = None
        if isinstance(dv, Lazy) and hasattr(dv, 'zeros'):
            head, end = dv.zeros(st), dv.n
            head = None if head is None or len(head) > off else head + (ZERO,) * (off - len(head))
        elif isinstance(dv, Str):
            head, end = tuple(dv.byte(i) for i in range(off)), dv.length()
        if head is not None and st.facts.decide(eq0(end - off - sl)) is True and st.facts.decide(lt0(d.ln - sl)) is False:
            # everything from there on is overwritten
            ex.store(st, Ref(d.o, d.p), Str(tuple(('byte', b) for b in head)) + src)
            return sl
    # right-aligned copy of a minimal big-endian encoding into zeroed space
    if isinstance(src, Str) and len(src.p) == 1 and src.p[0][0] == 'be' and isinstance(dv, tuple):
        x = src.p[0][1]
        L = src.length()
        end = (d.off + L).const()
        lo, hi = interval(x)
        if end is not None and hi is not None:
            w = (hi.bit_length() + 7) // 8
            if w <= end <= len(dv) and all(b == ZERO for b in dv[end - w:end]):
                # room: the destination must hold all of src
                if dec(st, lt0(d.ln - L)):
                    raise Unsupported('partial copy')
                new = tuple(byteof(x, w - 1 - i) for i in range(w))
                ex.store(st, Ref(d.o, d.p), dv[:end - w] + new + dv[end:])
                return L
    raise Unsupported('copy of symbolic length')


def b_append(ex, st, a, ts, t):
    r = append_to(ex, st, a, t)
    s = a[0]
    if isinstance(r, Slc) and (s is NIL or r.o != s.o):
        # how much room the new array has is unspecified
        ex.grown.add(r.o)
        if s is not NIL and s.o in ex.grown and not s.p:
            # the new elements may be in the old array
            st.lost.add(s.o)
    return r


def append_to(ex, st, a, t):
    s, more = a
    et = ex.P.under(t)['elem']
    if more is NIL:
        return s
    if isinstance(more, Str):
        if s is NIL:
            n = more.length()
            return Slc(st.new(('array', et), more), (), 0, n, n)
        r = bytes_of(ex, st, s) + more
        return Slc(st.new(('array', et), r), (), 0, r.length(), r.length())
    mv = ex.cell(st, Ref(more.o, more.p))
    if isinstance(mv, Lazy):
        if ex.P.types[et]['str'] not in ('byte', 'uint8'):
            raise Unsupported('append of a symbolic array')
        mv = bytes_of(ex, st, more)
        more = Slc(more.o, more.p, 0, more.ln, more.ln)
    if isinstance(mv, Str):
        r = (Str(()) if s is NIL else bytes_of(ex, st, s)) + mv.sub(more.off, more.off + more.ln)
        return Slc(st.new(('array', et), r), (), 0, r.length(), r.length())
    n, lo = more.ln.const(), more.off.const()
    if n is None:
        raise Unsupported('append of symbolic length')
    add = mv[lo:lo + n]
    if s is NIL:
        if n == 0:
            return NIL
        return Slc(st.new(('array', et), tuple(add)), (), 0, n, n)
    sv = ex.cell(st, Ref(s.o, s.p))
    if isinstance(sv, Lazy):
        return sv.append(ex, st, s, add)
    if isinstance(sv, Str):
        r = bytes_of(ex, st, s) + Str(tuple(('byte', b) for b in add))
        return Slc(st.new(('array', et), r), (), 0, r.length(), r.length())
    k, o = s.ln.const(), s.off.const()
    if k is None or o is None:
        raise Unsupported('append to a slice of symbolic length')
    if k + n <= (s.cap.const() if s.cap.const() is not None else k):
        # in place: visible through every slice that shares the array
        ex.store(st, Ref(s.o, s.p), sv[:o + k] + tuple(add) + sv[o + k + n:])
        return Slc(s.o, s.p, o, k + n, s.cap)
    new = sv[o:o + k] + tuple(add)
    # growth is unspecified: no spare capacity is assumed
    return Slc(st.new(('array', et), new), (), 0, k + n, k + n)


def b_wrapnil(ex, st, a, ts, t):
    if a[0] is NIL:
        raise Panic('nil pointer in method value')
    return a[0]


def b_min(ex, st, a, ts, t):
    r = a[0]
    for x in a[1:]:
        if dec(st, lt0(x - r)):
            r = x
    return r


def b_max(ex, st, a, ts, t):
    r = a[0]
    for x in a[1:]:
        if dec(st, lt0(r - x)):
            r = x
    return r


def b_nop(ex, st, a, ts, t):
    return NIL


def b_delete(ex, st, a, ts, t):
    m = a[0]
    if m is NIL:
        return NIL
    v = ex.cell(st, m)
    ex.store(st, m, MapV(e for e in v.e if not dec(st, ex.equal(st, e[0], a[1]))))
    return NIL


BUILTINS = {'builtin:len': b_len, 'builtin:cap': b_cap, 'builtin:copy': b_copy, 'builtin:append': b_append,
            'ssa:wrapnilchk': b_wrapnil, 'builtin:ssa:wrapnilchk': b_wrapnil, 'builtin:min': b_min,
            'builtin:max': b_max, 'builtin:print': b_nop, 'builtin:println': b_nop, 'builtin:delete': b_delete}


class Lib:
    setstring = None

    def find(self, name):
        m = TABLE.get(name)
        if m is not None and not name.endswith('.init'):
            USED.add(name)
        return m

    def find_method(self, recv, m):
        if isinstance(recv, Ifc) and isinstance(recv.t, str):
            return METHODS.get((recv.t, m))
        return None

    def builtin(self, n):
        return BUILTINS.get(n)

    def bytes_of(self, ex, st, x):
        return bytes_of(ex, st, x)

    def symarray(self, ex, st, e, n):
        import arrays
        return arrays.new(ex, st, e, n)

    def mapget(self, ex, st, m, k):
        if isinstance(m, MapV):
            for kk, v in reversed(m.e):
                if dec(st, ex.equal(st, kk, k)):
                    return v, True
            return None, False
        return m.get(ex, st, k)

    def mapset(self, ex, st, m, k, v):
        if isinstance(m, MapV):
            out = []
            for kk, vv in m.e:
                if not dec(st, ex.equal(st, kk, k)):
                    out.append((kk, vv))
            return MapV(out + [(k, v)])
        return m.set(ex, st, k, v)

    def range(self, ex, st, x):
        raise Unsupported('range over a map or string')
