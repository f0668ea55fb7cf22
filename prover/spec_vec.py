"""Contracts of the vector and integer helpers: bulletproofs/vector.go, util.go, util/bn, util.Decompose."""
from contract import *
import contract as C
from logic import *
from tower import SN

BP = PKG + 'bulletproofs.'
NB = PKG + 'util/bn.'
M = SN


def modn(x):
    return mkmod(x, M)


def same_len(c):
    if c.case(eq0(c.a.n - c.b.n)):
        return True
    c.ret(NIL, ERR)
    return False


@contract(BP + 'VectorAdd', 'a b')
def _(c):
    if same_len(c):
        c.ret(NewVec(c.a.n, lambda i: modn(c.a.at(i) + c.b.at(i)), 'int'), NIL)


@contract(BP + 'VectorSub', 'a b')
def _(c):
    if same_len(c):
        c.ret(NewVec(c.a.n, lambda i: modn(c.a.at(i) - c.b.at(i)), 'int'), NIL)


@contract(BP + 'VectorMul', 'a b')
def _(c):
    if same_len(c):
        c.ret(NewVec(c.a.n, lambda i: modn(c.a.at(i) * c.b.at(i)), 'int'), NIL)


@contract(BP + 'VectorScalarMul', 'a b')
def _(c):
    c.ret(NewVec(c.a.n, lambda i: modn(c.a.at(i) * c.b), 'int'), NIL)


@contract(BP + 'VectorECAdd', 'a b')
def _(c):
    if same_len(c):
        c.ret(NewVec(c.a.n, lambda i: c.a.at(i) + c.b.at(i), 'point'), NIL)


@contract(BP + 'VectorCopy', 'a n')
def _(c):
    c.requires(ge0(c.n))
    c.ret(NewVec(c.n, lambda i: c.a, 'int', shared=True), NIL)


@contract(BP + 'VectorConvertToBig', 'a n')
def _(c):
    c.requires(ge0(c.n))
    c.requires(ge0(c.a.n - c.n))
    c.ret(NewVec(c.n, lambda i: c.a.at(i), 'int'), NIL)


@contract(BP + 'powerOf', 'x n')
def _(c):
    c.requires(ge0(c.n))
    c.ret(NewVec(c.n, lambda i: modn(A.mkpow(c.x, i)), 'int'))


@contract(BP + 'VectorExp', 'a b')
def _(c):
    if same_len(c):
        g = Sum(c.a.n, lambda i: c.a.at(i).mul(c.b.at(i)))
        c.ret(New('P256', gzero('secp') if g is None else g), NIL)


@contract(BP + 'ScalarProduct', 'a b')
def _(c):
    if same_len(c):
        s = Sum(c.a.n, lambda i: c.a.at(i) * c.b.at(i))
        c.ret(New('int', modn(ZERO if s is None else s)), NIL)


@contract(BP + 'vectorScalarExp', 'a b')
def _(c):
    c.ret(NewVec(c.a.n, lambda i: c.a.at(i).mul(c.b), 'point'))


# ---------------------------------------------------------------- integers
@contract(NB + 'Add', 'x y')
def _(c):
    c.ret(New('int', c.x + c.y))


@contract(NB + 'Sub', 'x y')
def _(c):
    c.ret(New('int', c.x - c.y))


@contract(NB + 'Multiply', 'x y')
def _(c):
    c.ret(New('int', c.x * c.y))


@contract(NB + 'Mod', 'base modulo')
def _(c):
    c.requires(not_(eq0(c.modulo)))
    c.ret(New('int', L.emod(c.st, c.base, c.modulo)))


@contract(NB + 'ModInverse', 'base modulo')
def _(c):
    c.requires(ge0(c.modulo - 1))
    if c.modulo.const() is not None:
        raise NotApplicable('known modulus')
    r = L.powsym(c.st, c.base, const(-1), c.modulo)
    c.ret(NIL if r is None else New('int', r))


@contract(NB + 'ModPow', 'base exponent modulo')
def _(c):
    c.requires(ge0(c.modulo - 1))
    if c.modulo.const() is not None:
        raise NotApplicable('known modulus')
    r = L.powsym(c.st, c.base, c.exponent, c.modulo)
    c.ret(NIL if r is None else New('int', r))


@contract(PKG + 'util.Decompose', 'x u l')
def _(c):
    c.requires(ge0(c.l))
    c.requires(ge0(c.u - 2))
    n = c.l.const()
    if n is not None and c.mode == 'apply':
        # lemma digits: every digit lies in [0, u)
        for i in range(n):
            d = A.mkidiv(c.x, c.u, const(i)) - c.u * A.mkidiv(c.x, c.u, const(i + 1))
            c.learn(ge0(d))
            c.learn(lt0(d - c.u))
    c.ret(NewVec(c.l, lambda i: A.mkidiv(c.x, c.u, i) - c.u * A.mkidiv(c.x, c.u, P_(i) + 1), 'int64'), NIL)


# ---------------------------------------------------------------- lemmas
def digits(V, rep):
    """the digits of Decompose's postcondition lie in [0, u) and their weighted sum is x mod u^l"""
    import z3
    name = 'lemma (Decompose)'
    x, u, k = var('x'), var('u', 2, (1 << 63) - 1), var('k', 0)
    q = lambda i: A.mkidiv(x, u, i)
    d = lambda i: q(i) - u * q(P_(i) + 1)
    ok = lambda c: 'proved' if c else 'failed'
    # d(k) is the Euclidean remainder of q(k) by u
    rep.add(name, 'a digit is a remainder modulo u, so it lies in [0, u)', ok(d(k) == q(k) - u * mkdiv(q(k), u)))
    S = lambda i: x - A.mkpow(u, i) * q(i)
    rep.add(name, 'sum of the digits: base case', ok(S(0) == ZERO))
    rep.add(name, 'sum of the digits: induction step', ok(S(k) + d(k) * A.mkpow(u, k) == S(k + 1)))
    s, t, w, v = z3.Ints('s t w v')
    z = z3.Solver()
    z.set('timeout', 20000)
    z.add(s >= 0, s <= w - 1, t >= 0, t <= v - 1, w >= 1, v >= 2)
    z.add((v - 1 - t) * w >= 0, t * w >= 0)        # products of non-negative numbers
    z.add(z3.Or(s + t * w < 0, s + t * w > v * w - 1))
    rep.add(name, 'the sum lies in [0, u^l): induction step', ok(z.check() == z3.unsat))
