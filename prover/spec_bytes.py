"""Contracts of util/byteconversion: two's complement, and the flip of all bits."""
from contract import *
import contract as C
from logic import *
import lib as L
import terms as Tm

BC = PKG + 'util/byteconversion.'


def byteslice(ex, st, s):
    n = s.length()
    return Slc(st.new(('array', L.bytet(ex)), s), (), 0, n, n)


def parts(st, h, m=None):
    """byte h followed by m more bytes of value 0 <= L < Q = 256^m"""
    m = var('more', 1, 1 << 40)
    Q = L.power256(m)
    low = var('L', 0)
    st.assume(lt0(low - Q), True)
    return Str((bytes([h]), ('low', low, m, Q)))


# ---------------------------------------------------------------- FlipBytes
def flip_variants(V, con, f):
    def mk(ex, st):
        return [A.param(ex, st, 'in', L.bytet(ex), var('len:in', 1, 1 << 40), 'byte')]
    yield 'any bytes', mk
    yield 'empty', lambda ex, st: [byteslice(ex, st, Str(()))]
    yield 'nil', lambda ex, st: [NIL]


def flip_apply(con, ex, st, args):
    return [(st, byteslice(ex, st, A.flip(L.bytes_of(ex, st, args[0]))))]


def flip_post(V, c, ent, fs, r, ob):
    s = L.bytes_of(c.ex, ent, c.args[0])
    ob('a new slice', r is NIL or isinstance(r, Slc) and r.o not in ent.heap)
    got = L.bytes_of(c.ex, fs, r)
    ob('every byte is flipped', got == A.flip(s), f'{got}, expected {A.flip(s)}')


@contract(BC + 'FlipBytes', 'bytesIn', variants=flip_variants, apply=flip_apply, post=flip_post)
def _(c):
    pass


# ---------------------------------------------------------------- FromByteArray
def from_variants(V, con, f):
    yield 'nil', lambda ex, st: [NIL]
    yield 'empty', lambda ex, st: [byteslice(ex, st, Str(()))]
    for h in range(256):
        yield f'byte {h}', lambda ex, st, h=h: [byteslice(ex, st, Str.lit(bytes([h])))]
        yield f'byte {h} and more', lambda ex, st, h=h: [byteslice(ex, st, parts(st, h))]


def value_of(s, st, case):
    """the number a string denotes in two's complement, None when it is empty"""
    if not s.p:
        return None
    N = L.int_of_bytes(s)
    n = s.clen()
    if n is not None:
        full = 1 << (8 * n)
        neg = case(ge0(N - (full >> 1)))
    elif isinstance(s.p[0], bytes) and all(x[0] == 'low' for x in s.p[1:]):
        full = 256 ** len(s.p[0])
        for x in s.p[1:]:
            full = full * x[3]
        neg = s.p[0][0] >= 128
    else:
        raise NotApplicable('bytes of unknown value')
    return N - full if neg else N


def from_apply(con, ex, st, args):
    def go(s2):
        c = Ctx(ex, s2, con, args, 'apply')
        s = L.bytes_of(ex, s2, args[0])
        n = s.clen()
        if n:           # without a case split on the sign
            N = L.int_of_bytes(s)
            v = N - mkdiv(N, const(1 << (8 * n - 1))) * (1 << (8 * n))
        else:
            v = value_of(s, s2, c.case)
        if v is None:
            return (NIL, L.mkerr(s2))
        return (Ref(s2.new(ex.P.tid['math/big.Int'], v)), NIL)
    return ex.split(st, go)


def from_post(V, c, ent, fs, r, ob):
    s = L.bytes_of(c.ex, ent, c.args[0])
    if not s.p:
        return ob('no bytes are an error', isinstance(r[1], Ifc), f'error is {r[1]}')
    ob('no error', r[1] is NIL, f'error is {r[1]}')
    v = value_of(s, fs, lambda q: fs.facts.decide(q))
    ob('a new number', isinstance(r[0], Ref) and r[0].o not in ent.heap)
    w = c.ex.cell(fs, r[0])
    ob("the number in two's complement", fs.facts.decide(eq0(w - v)) is True, f'{w}, expected {v}' + V.facts_text(fs))


@contract(BC + 'FromByteArray', 'bytesIn', variants=from_variants, apply=from_apply, post=from_post)
def _(c):
    pass


# ---------------------------------------------------------------- ToByteArray
def to_variants(V, con, f):
    for x in range(-255, 256):
        yield f'{x}', lambda ex, st, x=x: [Ref(st.new(ex.P.tid['math/big.Int'], const(x)))]
    for h in range(1, 256):
        for sg in (1, -1):
            yield f'{"-" if sg < 0 else ""}({h} Q + L)', lambda ex, st, h=h, sg=sg: \
                [Ref(st.new(ex.P.tid['math/big.Int'], L.int_of_bytes(parts(st, h)) * sg))]


def shortest(x, case):
    """(number of bytes, their value) of the shortest two's complement encoding; x = a Q + b with 0 <= |b| < Q"""
    c = x.const()
    if c is not None:
        n = 1
        while not -(1 << (8 * n - 1)) <= c < 1 << (8 * n - 1):
            n += 1
        return const(n), const(c % (1 << (8 * n)))
    q = [a for a in x.atoms() if a in L.PW]
    Q, m = from_atom(ATOMS[q[0]]), L.PW[q[0]]
    for k in range(1, 4):
        half = 256 ** k // 2
        # -half Q <= x < half Q
        if case(ge0(x + half * Q)) and case(lt0(x - half * Q)):
            return m + k, x if case(ge0(x)) else x + 256 ** k * Q
    raise NotApplicable('size of the number')


def to_post(V, c, ent, fs, r, ob):
    ex = c.ex
    x = ex.cell(ent, c.args[0])
    ob('a new slice', isinstance(r, Slc) and r.o not in ent.heap)
    s = L.bytes_of(ex, fs, r)

    def go(s2):
        return shortest(x, Ctx(ex, s2, c.con, c.args, 'verify').case)
    for s2, (n, v) in ex.split(fs.fork(), go):
        ob('the shortest length', s2.facts.decide(eq0(s.length() - n)) is True, f'{s.length()}, expected {n}')
        w = L.int_of_bytes(s)
        ob("the number in two's complement", s2.facts.decide(eq0(w - v)) is True, f'{w}, expected {v}' + V.facts_text(s2))


@contract(BC + 'ToByteArray', 'in', variants=to_variants, post=to_post, apply=lambda con, ex, st, args: None)
def _(c):
    pass


# ---------------------------------------------------------------- lemmas
def conversions(V, rep):
    """what follows from the two postconditions, for x = a Q + b in general"""
    import z3
    t = "lemma (two's complement)"
    x, H, N = z3.Ints('x H N')

    def ob(what, hyp, goal):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp, z3.Not(goal))
        rep.add(t, what, 'proved' if s.check() == z3.unsat else 'failed', what)
    # n bytes, 2H = 256^n; N is the unsigned value of the bytes
    enc = [H >= 128, x >= -H, x < H, N == z3.If(x < 0, x + 2 * H, x)]
    dec = z3.If(N >= H, N - 2 * H, N)
    ob('the encoding fits in its bytes', enc, z3.And(N >= 0, N < 2 * H))
    ob('decoding the encoding gives the integer back', enc, dec == x)
    # one byte fewer: the range is [-H/256, H/256)
    K = z3.Int('K')
    ob('no shorter encoding exists when the number does not fit in one byte fewer',
       enc + [H == 256 * K, z3.Not(z3.And(x >= -K, x < K)), K >= 128], z3.Not(z3.And(x >= -K, x < K)))
    # FlipBytes: the value of the flipped bytes, by induction over the bytes
    v, w, Q, b = z3.Ints('v w Q b')
    ob('flipping all bits of n bytes of value v gives 256^n - 1 - v: induction step',
       [v + w == Q - 1], (256 * v + b) + (256 * w + 255 - b) == 256 * Q - 1)
    ob('flipping all bits of no byte: base case', [v == 0, w == 0, Q == 1], v + w == Q - 1)
