"""The field tower and the curves as mathematical objects.

An element of F_p^2, F_p^6 or F_p^12 is a polynomial with integer coefficients
modulo P in the atoms I, T, W with I^2 = -1, T^3 = I + 9, W^2 = T and further
atoms standing for unknown integers or unknown elements of F_p^2 or F_p^6."""
from terms import *
import terms as Tm
from logic import *
import logic

P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
ORDER = 21888242871839275222246405745257275088548364400416034343698204186575808495617
U = 4965661367192848881
SP = 2**256 - 2**32 - 977
SN = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
KNOWN_NAMES.update({P: 'P', ORDER: 'Order', SP: 'p256.P', SN: 'p256.N'})
logic.PRIMES[:] = [P, ORDER, SP, SN]
ORD.update({'g1': ORDER, 'g2': ORDER, 'gt': ORDER, 'secp': SN, 'mon': 1 << 4096, 'fp12': P ** 12 - 1})
FIELD.update({'g1': P, 'g2': P, 'gt': P, 'secp': SP})

I = var('I')
T = var('T')
W = var('W')
(aI,), (aT,), (aW,) = I.atoms(), T.atoms(), W.atoms()
XI = I + 9
_XIPOW = [ONE]


def xipow(n):
    while len(_XIPOW) <= n:
        _XIPOW.append(fold_i(_XIPOW[-1] * XI))
    return _XIPOW[n]


def fold_i(p):
    out = ZERO
    for mo, c in p.t.items():
        e = 0
        rest = []
        for a, k in mo:
            if a == aI:
                e = k
            else:
                rest.append((a, k))
        rest = tuple(rest)
        e %= 4
        if e >= 2:
            c = -c
        if e % 2:
            rest = mono_mul(rest, ((aI, 1),))
        out = out + Poly({rest: c})
    return out


def split(p):
    """coefficients of p on the basis W^w T^t I^i, (w,t,i) -> Poly"""
    # first powers of W and T
    acc = {}
    for mo, c in p.t.items():
        w = t = i = 0
        rest = []
        for a, k in mo:
            if a == aI:
                i = k
            elif a == aT:
                t = k
            elif a == aW:
                w = k
            else:
                rest.append((a, k))
        t += w // 2
        w %= 2
        x = t // 3
        t %= 3
        q = Poly({tuple(rest): c})
        if x:
            q2 = fold_i(xipow(x) * Poly({((aI, i),) if i else (): 1}))
        else:
            q2 = fold_i(Poly({((aI, i),) if i else (): 1}))
        for m2, c2 in q2.t.items():
            k = (w, t, 1 if m2 else 0)
            acc[k] = acc.get(k, ZERO) + q * c2
    return {k: v for k, v in acc.items() if v.t}


def join(d):
    p = ZERO
    for (w, t, i), c in d.items():
        mo = []
        if i:
            mo.append((aI, 1))
        if t:
            mo.append((aT, t))
        if w:
            mo.append((aW, 1))
        p = p + c * Poly({tuple(mo): 1})
    return p


def red(p):
    """reduced modulo the tower relations and P"""
    return join({k: res(v, P) for k, v in split(p).items()})


def structural(p):
    return aI in p.atoms() or aT in p.atoms() or aW in p.atoms()


def el_normal(p, facts=None):
    p = Tm.res(p, P)
    r = Tm.normal(p, P)
    for _ in range(4):
        d = {k: Tm.res(v, P) for k, v in split(r).items()}
        r2 = Tm.normal(join(d), P)
        if r2 == r:
            break
        r = r2
    if facts is not None and facts.meqs:
        r = facts.msub(r, P)
        r = join({k: Tm.res(v, P) for k, v in split(r).items()})
    return r


def el_zero(p, facts=None):
    return not el_normal(p, facts).t


def el_cong0(p, facts=None):
    """condition: the field element p is zero; p must be one opaque coordinate
    (an integer, or an element of a leaf field)"""
    r = el_normal(p, facts)
    if not r.t:
        return True
    return cong0(r, P)


# ---------------------------------------------------------------- constants
def powtower(p, n):
    """p^n for a constant element"""
    r = ONE
    b = red(p)
    while n:
        if n & 1:
            r = red(r * b)
        n >>= 1
        if n:
            b = red(b * b)
    return r
