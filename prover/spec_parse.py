"""Contracts of util/byteconversion's parser of integer lists."""
from contract import *
import contract as C
from logic import *
import lib as L
import arrays as A
import terms as Tm
import loops as LP

BC = PKG + 'util/byteconversion.'


def strslice(ex, st, s):
    n = s.length()
    return Slc(st.new(('array', L.bytet(ex)), s), (), 0, n, n)


# Every byte string is of exactly one of these kinds:
#   empty | - | digits | - digits | (- digits* | digits* ) and the first byte that does not belong there, and anything
BAD = ((0, 42), (43, 43), (44, 44), (46, 47), (58, 255))


def field_variants(V, con, f):
    def dig(n=1):
        return ('digits', 'D', var('len:D', n, 1 << 40))

    def rest():
        return ('sym', 'rest', var('len:rest', 0, 1 << 40))

    def v(*parts):
        return lambda ex, st: [strslice(ex, st, Str(tuple(p() if callable(p) else p for p in parts)))]
    yield 'nil', lambda ex, st: [NIL]
    yield 'empty', v()
    yield 'sign only', v(b'-')
    yield 'digits', v(dig)
    yield 'sign and digits', v(b'-', dig)
    for lo, hi in BAD:
        def bad(lo=lo, hi=hi):
            return ('byte', var('bad', lo, hi) if lo < hi else const(lo))
        yield f'{lo}..{hi} first', v(bad, rest)
        yield f'{lo}..{hi} after digits', v(dig, bad, rest)
        yield f'{lo}..{hi} after the sign', v(b'-', bad, rest)
        yield f'{lo}..{hi} after sign and digits', v(b'-', dig, bad, rest)
    yield 'sign after digits', v(dig, b'-', rest)
    yield 'sign after the sign', v(b'-', b'-', rest)
    yield 'sign after sign and digits', v(b'-', dig, b'-', rest)


def field_value(s):
    """what the contract promises for a string of one of the kinds above"""
    p = s.p
    if not p:
        return ZERO
    if p[0] == b'-':
        return -app('numeral', (p[1][1],), 0) if len(p) == 2 and p[1][0] == 'digits' else None
    if len(p) == 1 and p[0][0] == 'digits':
        return app('numeral', (p[0][1],), 0)
    return None


def field_post(V, c, ent, fs, r, ob):
    s = L.bytes_of(c.ex, ent, c.args[0])
    want = field_value(s)
    if want is None:
        return ob('a malformed field is refused', isinstance(r[1], Ifc), f'result {r[0]}, error is {r[1]}')
    ob('a well-formed field is accepted', r[1] is NIL, f'error is {r[1]}')
    if not isinstance(r[0], Ref):
        return ob('a number is returned', False, f'{r[0]}')
    ob('a new number', r[0].o not in ent.heap)
    w = c.ex.cell(fs, r[0])
    ob('the number the digits denote', fs.facts.decide(eq0(w - want)) is True, f'{w}, expected {want}', w)


def field_of(ex, st, x):
    """(string, from, to) for a slice of an input"""
    if not isinstance(x, Slc) or x.p:
        return None
    v = st.heap[x.o][1]
    if not isinstance(v, Str) or len(v.p) != 1 or v.p[0][0] != 'sym':
        return None
    return v, st.facts.sub(x.off), st.facts.sub(x.off + x.ln)


def wellformed(F):
    return Cond('pred', 'wellformed field', F)


def number(F):
    return app('number', F)


def field_apply(con, ex, st, args):
    F = field_of(ex, st, args[0])
    if F is None:
        return None

    def go(s2):
        c = Ctx(ex, s2, con, args, 'apply')
        if c.case(wellformed(F)):
            return (Ref(s2.new(ex.P.tid['math/big.Int'], number(F))), NIL)
        return (NIL, L.mkerr(s2))
    return ex.split(st, go)


@contract(BC + 'ConvertToBigInt', 'in', variants=field_variants, apply=field_apply, post=field_post)
def _(c):
    pass


# ---------------------------------------------------------------- the list
# For the input s, definitions by recursion over the prefixes of s:
#   commas(k)   the number of commas in s[:k]
#   start(k)    where the field begins that s[:k] ends in
#   field(j)    the number the j-th field denotes, if it denotes one
# s[k] = ',' or k = len(s): the field number commas(k) is s[start(k):k].
# For loops that go one step beyond the end, the end counts as one more comma.
def commas(s, k):
    if s.length() is not None and k == s.length() + 1:
        return commas(s, s.length()) + 1
    return ZERO if k == ZERO else app('commas', (s, k), 0)


def start(s, k):
    if s.length() is not None and k == s.length() + 1:
        return k
    return ZERO if k == ZERO else app('start', (s, k), 0)


def field(s, j):
    return app('field', (s, j))


Tm.SIMP['commas'] = commas
Tm.SIMP['start'] = start
COMMA = 44


def define(s, n):
    """the definitions, for the prefix of length kap; used at the header of a loop and after its body"""
    def ghost(st, kap):
        ax = [ge0(kap - start(s, kap)), ge0(kap - commas(s, kap))]
        d = st.facts.decide(eq0(kap - n)) is True or st.facts.decide(eq0(s.at(kap, st.facts) - COMMA))
        if d is True:
            ax += [eq0(start(s, kap + 1) - kap - 1), eq0(commas(s, kap + 1) - commas(s, kap) - 1),
                   eq0(number((s, st.facts.sub(start(s, kap)), kap)) - field(s, commas(s, kap)))]
        elif d is False:
            ax += [eq0(start(s, kap + 1) - start(s, kap)), eq0(commas(s, kap + 1) - commas(s, kap))]
        return all(st.assume(c, True) for c in ax)
    return ghost


def candidates(s, et):
    def spec(ex, st, o, v0, counters, mod):
        if isinstance(v0, Poly):
            return [lambda k: start(s, k), lambda k: commas(s, k)]
        if v0 is NIL:
            def lst(k):
                n = commas(s, k)
                return LP.Arr(et, A.SymArr(et, n, n, A.Obj(A.NINT, field(s, A.JV)), 'fields'))
            return [lst]
    return spec


def list_variants(V, con, f):
    yield 'nil', lambda ex, st: [NIL]

    def some(ex, st):
        n = var('len:in', 0, 1 << 40)
        s = Str((('sym', 'in', n),))
        ex.loopspec = candidates(s, ex.P.tid['*math/big.Int'])
        ex.ghost = define(s, n)
        return [strslice(ex, st, s)]
    yield 'any', some


def same_field(F, s, fs, n):
    """F is a field of s: its number, or None"""
    if F[0] != s:
        return None
    lo, hi = fs.facts.sub(F[1]), fs.facts.sub(F[2])
    last = fs.facts.decide(eq0(hi - n)) is True
    if not last and fs.facts.decide(eq0(s.at(hi, fs.facts) - COMMA)) is not True:
        return None
    k = n if last else hi
    if fs.facts.decide(eq0(atend(fs, lo, n) - start(s, k))) is True:
        return commas(s, k)
    return None


def atend(fs, p, n):
    """p with the length for everything that is known to equal it"""
    env = {}
    for a in p.atoms():
        at = ATOMS[a]
        if at.kind == 'app' and at.data[0] in ('start', 'commas') and fs.facts.decide(eq0(at.data[1][1] - n)) is True:
            env[a] = app(at.data[0], (at.data[1][0], n), 0)
    return subst(p, env) if env else p


def list_post(V, c, ent, fs, r, ob):
    if c.args[0] is NIL:
        ob('the empty input is the list of the number zero', r[1] is NIL and isinstance(r[0], Slc)
           and r[0].ln == ONE, f'{r}')
        if isinstance(r[0], Slc) and r[0].ln == ONE:
            x = c.ex.cell(fs, Ref(r[0].o, r[0].p + (0,)))
            ob('the number is zero', isinstance(x, Ref) and c.ex.cell(fs, x) == ZERO)
        return
    s = ent.heap[c.args[0].o][1]
    n = s.length()
    if isinstance(r[1], Ifc):
        bad = [k.a[1] for k, v in fs.facts.known.items() if k.k == 'pred' and k.a[0] == 'wellformed field' and v is False]
        return ob('refused only if a field is malformed', any(same_field(F, s, fs, n) is not None for F in bad),
                  f'error with the fields {bad} malformed')
    x = r[0]
    if r[1] is not NIL or not isinstance(x, Slc):
        return ob('a list is returned', False, f'{r}')
    if x.o in fs.lost or x.p or x.off != ZERO:
        raise Unsupported('the list returned')
    a = fs.heap[x.o][1]
    m = commas(s, n)
    dec = lambda p: fs.facts.decide(eq0(p)) is True
    if isinstance(a, tuple):
        a = A.SymArr(fs.heap[x.o][0][1], const(len(a)), ZERO, A.ZV, None, {const(i): v for i, v in enumerate(a)})
    if not isinstance(a, A.SymArr):
        raise Unsupported('the list returned')
    same = lambda p: dec(atend(fs, fs.facts.sub(p), n) - m)
    ob('as many numbers as fields', same(x.ln - 1), f'{x.ln}', vals=(x.ln, a))
    ob('all before the last are the numbers of their fields',
       (same(a.k) or dec(a.k - m - 1)) and (dec(a.k) or a.t == A.Obj(A.NINT, field(s, A.JV))), f'{a}', vals=(x.ln, a))
    if dec(a.k - m - 1) and not a.w:
        return
    (i, v), = a.w.items() if len(a.w) == 1 else ((None, None),)
    w = c.ex.cell(fs, v) if isinstance(v, Ref) else None
    F = None
    if isinstance(w, Poly) and len(w.atoms()) == 1:
        at = ATOMS[next(iter(w.atoms()))]
        if at.kind == 'app' and at.data[0] == 'number' and w == from_atom(at):
            F = at.data[1]
    ob('the last is the number of the last field', i is not None and same(i) and F is not None
       and dec(F[2] - n) and same_field(F, s, fs, n) is not None, f'{w} at {i}', vals=(x.ln, a, w))


@contract(BC + 'ParseInput', 'in', variants=list_variants, post=list_post)
def _(c):
    pass
