"""Contracts of the Bulletproofs range proof: bulletproofs/bip.go, bp.go, bprp.go, util.go."""
from contract import *
import contract as C
from logic import *
import lib as L
import terms as Tm
from tower import SN
from spec_vec import BP, modn

SIZES = (1, 2, 4, 8, 16, 32)
G = base('secp', 'SecpG')
HIDX = {1: 'HashBP.1', 2: 'HashBP.2'}


# ---------------------------------------------------------------- building parameters
def mkpoint(ex, st, g):
    """an object holding a group element"""
    if isinstance(g, str):
        g = base('secp', g, False)
    r = Ref(st.new(ex.P.tid[P2 + 'P256'], (NIL, NIL)))
    write_p256(ex, st, r, g)
    return r


def mkbig(ex, st, p):
    if isinstance(p, str):
        p = var(p)
    return Ref(st.new(ex.P.tid['math/big.Int'], p))


def mkslice(ex, st, et, xs):
    et = ex.P.tid[et]
    if xs is None:
        return NIL
    n = const(len(xs))
    return Slc(st.new(('array', et), tuple(xs)), (), 0, n, n)


def mkpoints(ex, st, gs):
    return mkslice(ex, st, '*' + P2 + 'P256', None if gs is None else [mkpoint(ex, st, g) for g in gs])


def mkbigs(ex, st, ps):
    return mkslice(ex, st, '*math/big.Int', None if ps is None else [mkbig(ex, st, p) for p in ps])


INNER = {BN + 'G1': BN + 'curvePoint', BN + 'G2': BN + 'twistPoint', BN + 'GT': BN + 'gfP12'}


def mkgrp(ex, st, tn, g):
    """an object holding an element of one of the groups of the pairing"""
    if isinstance(g, str):
        g = base({'G1': 'g1', 'G2': 'g2', 'GT': 'gt'}[tn.split('.')[-1]], g, False)
    p = Ref(st.new(ex.P.tid[INNER[tn]], Leaf('m' if tn == BN + 'GT' else 'g', g)))
    return Ref(st.new(ex.P.tid[tn], (p,)))


def build(ex, st, tn, v):
    """a Go value of the type from its semantic value; unspecified fields are zero"""
    t = ex.P.tid[tn] if isinstance(tn, str) else tn
    y = ex.P.under(t)
    k = y['k']
    if k == 'ptr':
        if v is None:
            return NIL
        e = typename(ex, y['elem'])
        if e == 'math/big.Int':
            return mkbig(ex, st, v)
        if e == P2 + 'P256':
            return mkpoint(ex, st, v)
        if e in INNER:
            return mkgrp(ex, st, e, v)
        return Ref(st.new(y['elem'], build(ex, st, y['elem'], v)))
    if k == 'slice':
        if v is None:
            return NIL
        n = const(len(v))
        return Slc(st.new(('array', y['elem']), tuple(build(ex, st, y['elem'], x) for x in v)), (), 0, n, n)
    if callable(v):
        return v(ex, st)
    if k == 'struct':
        return tuple(build(ex, st, f['t'], v[f['name']]) if f['name'] in v else ex.P.zero(f['t']) for f in y['fields'])
    return v


def names(p, n):
    return [f'{p}{i}' for i in range(n)]


def same(a, b, facts):
    """two semantic values are equal"""
    if b is ANY:
        return True
    if isinstance(b, ModN):
        return isinstance(a, Poly) and zero_mod(normal(facts.sub(a - b.p), b.n), b.n)
    if a is None or b is None:
        return (a is None or isinstance(a, GE) and a.iszero()) and (b is None or isinstance(b, GE) and b.iszero())
    if isinstance(b, GE):
        return isinstance(a, GE) and (a.same(b) or ge_same(a, b, facts))
    if isinstance(b, Poly) or isinstance(b, int) and not isinstance(b, bool):
        return isinstance(a, Poly) and facts.decide(eq0(a - b)) is True
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y, facts) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and all(k in a and same(a[k], v, facts) for k, v in b.items())
    return a == b


class ModN:
    """an integer promised only modulo the group order"""

    n = SN

    def __init__(self, p):
        self.p = P_(p)

    def __repr__(self):
        return f'{self.p} (mod order)'


def differ(a, b, facts, path=''):
    if isinstance(b, dict) and isinstance(a, dict):
        return [x for k in b for x in (differ(a[k], b[k], facts, f'{path}.{k}') if k in a else [path + '.' + k])]
    if isinstance(b, list) and isinstance(a, list) and len(a) == len(b):
        return [x for i in range(len(b)) for x in differ(a[i], b[i], facts, f'{path}[{i}]')]
    return [] if same(a, b, facts) else [f'{path} is {a}, expected {b}']


def rtypes(ex, name):
    return [r['t'] for r in ex.P.funcs[name]['results']]


# ---------------------------------------------------------------- Fiat-Shamir hashes
def canon(v):
    """one form for equal values: hashes of equal values are equal"""
    if isinstance(v, GE):
        return GE(v.g, {b: normal(c, SN) for b, c in v.t.items()})
    lo, hi = interval(v)
    if lo is not None and hi is not None and lo >= 0 and hi < SN:
        return mkmod(normal(v, SN), SN)
    return v


def hashbp(points, i):
    return app(HIDX[i], tuple(canon(p) for p in points), 0, (1 << 256) - 1)


def hash_apply(con, ex, st, args):
    c = Ctx(ex, st, con, args, 'apply')
    v = c.points
    n = v.n.const()
    if n is None:
        raise NotApplicable('unknown number of points')
    ps = [v.at(i) for i in range(n)]
    if not all(isinstance(p, GE) for p in ps):
        raise NotApplicable('points of unknown value')
    rs = [hashbp(ps, 1), hashbp(ps, 2)]
    for r in rs:
        if not st.assume(cong0(r, SN), False):
            raise Infeasible()
    return [(st, (mkbig(ex, st, rs[0]), mkbig(ex, st, rs[1]), NIL))]


def covers(ob, what, v, xs, only):
    """v is a hash over every one of xs, and of nothing but what `only` depends on"""
    D = deps(v)
    miss = [x for x in xs if not x.atoms() <= D]
    ob(f'{what} depends on every input', not miss, f'not hashed: {[str(x) for x in miss[:4]]}')
    extra = [ATOMS[a] for a in D if ATOMS[a].kind == 'var' and a not in only]
    ob(f'{what} depends on nothing else', not extra, f'also hashed: {extra[:4]}')
    shas = [ATOMS[a] for a in D if ATOMS[a].kind == 'app' and ATOMS[a].data[0] == 'sha256']
    ob(f'{what} is a hash', bool(shas), f'{v}')
    whole = set()
    for s in shas:
        for p in s.data[1][0]:
            if isinstance(p, tuple) and p[0] in ('dec', 'be'):
                whole.add(p[1])
    if not miss and any(x not in whole for x in xs):
        raise Unsupported('an encoding of the hashed values other than their digits')


def hashbp_variants(V, con, f):
    for k in (2, 3, 5):
        yield f'{k} points', lambda ex, st, k=k: [mkpoints(ex, st, names('p', k))]


def finite_coords(gs, facts):
    """coordinates of the points that are not infinity on this path"""
    out = []
    for g in gs:
        if isinstance(g, GE) and facts.decide(g.is_zero_cond()) is not True:
            out += [g.coord(0), g.coord(1)]
    return out


def alldeps(xs):
    r = set()
    for x in xs:
        r |= deps(x)
    return r


def hashbp_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    gs = c0.tree('points')
    ob('no error', r[2] is NIL, f'error is {r[2]}')
    xs = finite_coords(gs, fs.facts)
    vs = [ex.cell(fs, q) for q in r[:2]]
    for i, v in enumerate(vs):
        if xs:
            covers(ob, f'challenge {i + 1}', v, xs, alldeps(xs))
        ob(f'challenge {i + 1} is new', r[i].o not in ent.heap)
    if xs:
        ob('the challenges are different functions', vs[0] != vs[1], f'{vs[0]}')


@contract(BP + 'HashBP', 'points', variants=hashbp_variants, post=hashbp_post, apply=hash_apply)
def _(c):
    pass


def ipapp(g, h, P, c, n):
    return app('hashIP', (tuple(canon(x) for x in g[:n]), tuple(canon(x) for x in h[:n]), canon(P), canon(c)),
               -(1 << 255), (1 << 255) - 1)


def haship_apply(con, ex, st, args):
    c = Ctx(ex, st, con, args, 'apply')
    n = c.n.const()
    if n is None:
        raise NotApplicable('unknown length')
    x = ipapp([c.g.at(i) for i in range(n)], [c.h.at(i) for i in range(n)], c.P, c.c, n)
    return [(st, (mkbig(ex, st, x), NIL))]


def haship_variants(V, con, f):
    for n in SIZES:
        yield f'n={n}', lambda ex, st, n=n: [mkpoints_nz(ex, st, names('g', n)), mkpoints_nz(ex, st, names('h', n)),
                                             mkpoint(ex, st, base('secp', 'P', True)), mkbig(ex, st, 'c'), const(n)]


def mkpoints_nz(ex, st, ns):
    return mkpoints(ex, st, [base('secp', x, True) for x in ns])


def haship_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    ob('no error', r[1] is NIL, f'error is {r[1]}')
    xs = finite_coords(c0.tree('g') + c0.tree('h') + [c0.P], fs.facts) + [c0.c]
    covers(ob, 'the challenge', ex.cell(fs, r[0]), xs, alldeps(xs))
    ob('the challenge is new', r[0].o not in ent.heap)


@contract(BP + 'hashIP', 'g h P c n', variants=haship_variants, post=haship_post, apply=haship_apply)
def _(c):
    pass


# ---------------------------------------------------------------- the inner product argument
def challenge(L_, R_):
    x = hashbp((L_, R_), 1)
    return x, mkinv(x, SN)


def ip(a, b):
    return modn(sum((x * y for x, y in zip(a, b)), ZERO))


def gsum(gs, xs):
    r = gzero('secp')
    for g, x in zip(gs, xs):
        r = r + g.mul(x)
    return r


def ip_prove(a, b, g, h, u):
    """Protocol 2 of the Bulletproofs paper: the proof for the vectors a and b"""
    Ls, Rs = [], []
    while len(a) > 1:
        k = len(a) // 2
        cL, cR = ip(a[:k], b[k:]), ip(a[k:], b[:k])
        L_ = gsum(g[k:], a[:k]) + gsum(h[:k], b[k:]) + u.mul(cL)
        R_ = gsum(g[:k], a[k:]) + gsum(h[k:], b[:k]) + u.mul(cR)
        x, xi = challenge(L_, R_)
        g = [p.mul(xi) + q.mul(x) for p, q in zip(g[:k], g[k:])]
        h = [p.mul(x) + q.mul(xi) for p, q in zip(h[:k], h[k:])]
        a = [modn(p * x + q * xi) for p, q in zip(a[:k], a[k:])]
        b = [modn(p * xi + q * x) for p, q in zip(b[:k], b[k:])]
        Ls.append(L_)
        Rs.append(R_)
    return Ls, Rs, a[0], b[0]


def ip_defect(Ls, Rs, A_, B_, g, h, u, P):
    """the group element that is zero exactly when the verifier's equation (17) holds"""
    for L_, R_ in zip(Ls, Rs):
        k = len(g) // 2
        x, xi = challenge(L_, R_)
        g = [p.mul(xi) + q.mul(x) for p, q in zip(g[:k], g[k:])]
        h = [p.mul(x) + q.mul(xi) for p, q in zip(h[:k], h[k:])]
        P = P + L_.mul(x * x) + R_.mul(xi * xi)
    return P - g[0].mul(A_) - h[0].mul(B_) - u.mul(A_ * B_)


IPREG = {}        # atom of the published scalar A -> what the proof was made for
_tag = [0]


def ip_opaque(con, ex, st, args):
    """at a call: a proof about which only the lemma 'inner product argument' is known"""
    c = Ctx(ex, st, con, args, 'apply')
    n = c.a.n.const()
    if n not in SIZES or c.b.n.const() != n:
        return None
    par = c.tree('params')
    if par['N'].const() != n or len(par['Gg']) != n or len(par['Hh']) != n:
        return None
    _tag[0] += 1
    t = _tag[0]
    k = n.bit_length() - 1
    a, b = c.tree('a'), c.tree('b')
    g, h = par['Gg'], par['Hh']
    if par['Uu'] is None or any(x is None for x in g + h):
        return None
    x = ipapp(g, h, c.P, par['Cc'], n)
    if not st.assume(cong0(x, SN), False):
        raise Infeasible()
    u = par['Uu'].mul(x)
    Ls = [base('secp', ('ipL', t, i), False) for i in range(k)]
    Rs = [base('secp', ('ipR', t, i), False) for i in range(k)]
    A_, B_ = var(f'ipA!{t}', 0, SN - 1), var(f'ipB!{t}', 0, SN - 1)
    IPREG[A_] = dict(a=a, b=b, g=g, h=h, u=u, n=n, Ls=Ls, Rs=Rs, B=B_)
    f = ex.P.funcs[con.name]
    rt = rtypes(ex, con.name)[0]
    PP = c.P + u.mul(par['Cc'])
    r = build(ex, st, rt, {'N': const(n), 'Ls': Ls, 'Rs': Rs, 'U': u, 'P': base('secp', ('ipP', t), False),
                           'Gg': base('secp', ('ipg', t), False), 'Hh': base('secp', ('iph', t), False), 'A': A_, 'B': B_})
    y = ex.P.under(rt)
    i = [q['name'] for q in y['fields']].index('Params')
    pr = list(c.ref['params'])
    j = [q['name'] for q in ex.P.under(y['fields'][i]['t'])['fields']].index('P')
    pr[j] = mkpoint(ex, st, PP)
    r = r[:i] + (tuple(pr),) + r[i + 1:]
    return [(st, (r, NIL))]


def ip_params(ex, st, n, Hh=None, cc=None, P=None):
    return {'N': const(n), 'Cc': var('c') if cc is None else cc, 'Uu': base('secp', 'U', False), 'H': base('secp', 'H', False),
            'Gg': [base('secp', x, False) for x in names('g', n)], 'Hh': [base('secp', x, False) for x in names('h', n)],
            'P': P or base('secp', 'P0', False)}


def prove_ip_variants(V, con, f):
    for n in SIZES:
        def mk(ex, st, n=n):
            return [mkbigs(ex, st, names('a', n)), mkbigs(ex, st, names('b', n)), mkpoint(ex, st, 'P'),
                    build(ex, st, BP + 'InnerProductParams', ip_params(ex, st, n))]
        yield f'n={n}', mk
    for n, m in ((1, 2), (4, 2), (0, 1)):
        def mk2(ex, st, n=n, m=m):
            return [mkbigs(ex, st, names('a', n)), mkbigs(ex, st, names('b', m)), mkpoint(ex, st, 'P'),
                    build(ex, st, BP + 'InnerProductParams', ip_params(ex, st, max(n, 1)))]
        yield f'lengths {n} and {m}', mk2


def prove_ip_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    a, b, par = c0.tree('a'), c0.tree('b'), c0.tree('params')
    if len(a) != len(b):
        return ob('vectors of different lengths are an error', isinstance(r[1], Ifc), f'error is {r[1]}')
    ob('no error', r[1] is NIL, f'error is {r[1]}')
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    n = len(a)
    u = par['Uu'].mul(ipapp(par['Gg'], par['Hh'], c0.P, par['Cc'], n))
    Ls, Rs, A_, B_ = ip_prove(a, b, par['Gg'], par['Hh'], u)
    k = n.bit_length() - 1
    ob('log2(n) pairs of points', len(d['Ls']) == k and len(d['Rs']) == k, f"{len(d['Ls'])} and {len(d['Rs'])}, expected {k}")
    want = {'N': const(n), 'Ls': Ls, 'Rs': Rs, 'A': ModN(A_), 'B': ModN(B_), 'U': u,
            'Params': {'N': const(n), 'Gg': par['Gg'], 'Hh': par['Hh'], 'Cc': par['Cc'], 'P': c0.P + u.mul(par['Cc'])}}
    x = differ(d, want, fs.facts, 'proof')
    ob('the proof of Protocol 2 for a and b', not x, '; '.join(x)[:800])


@contract(BP + 'proveInnerProduct', 'a b P params', variants=prove_ip_variants, post=prove_ip_post, apply=ip_opaque, shares=True)
def _(c):
    pass


def ip_verdict(d, st):
    """what InnerProductProof.Verify answers for a proof with these values"""
    par = d['Params']
    g, h, n = par['Gg'], par['Hh'], d['N'].const()
    if n is None or len(g) != n or len(h) != n or len(d['Ls']) != len(d['Rs']) or 1 << len(d['Ls']) != n or n < 1:
        raise NotApplicable('lengths')
    R = IPREG.get(d['A'])
    if R and R['n'] == n and d['B'] == R['B'] and all(same(d[k], R[k], st.facts) for k in ('Ls', 'Rs')) \
            and same(g, R['g'], st.facts) and same(h, R['h'], st.facts) and same(d['U'], R['u'], st.facts):
        s = par['P'] - gsum(g, R['a']) - gsum(h, R['b']) - d['U'].mul(ip(R['a'], R['b']))
    else:
        for L_, R_ in zip(d['Ls'], d['Rs']):
            if not st.assume(cong0(challenge(L_, R_)[0], SN), False):
                raise Infeasible()
        s = ip_defect(d['Ls'], d['Rs'], d['A'], d['B'], g, h, d['U'], par['P'])
    return s.is_zero_cond()


def ip_verify_apply(con, ex, st, args):
    c = Ctx(ex, st, con, args, 'apply')
    return [(st, (ip_verdict(c.tree('proof'), st), NIL))]


def ip_proof(ex, st, n, k=None, l=None):
    k = n.bit_length() - 1 if k is None else k
    return {'N': const(n), 'Ls': [base('secp', x, False) for x in names('L', k)],
            'Rs': [base('secp', x, False) for x in names('R', k if l is None else l)],
            'U': base('secp', 'u', False), 'P': base('secp', 'P1', False), 'Gg': base('secp', 'gg', False),
            'Hh': base('secp', 'hh', False), 'A': var('a'), 'B': var('b'), 'Params': ip_params(ex, st, n)}


def ip_verify_variants(V, con, f):
    for n in SIZES:
        yield f'n={n}', lambda ex, st, n=n: [build(ex, st, BP + 'InnerProductProof', ip_proof(ex, st, n))]


@contract(f'({BP}InnerProductProof).Verify', 'proof', variants=ip_verify_variants, apply=ip_verify_apply)
def _(c):
    c.ret(ip_verdict(c.tree('proof'), c.st), NIL)


def ip_lemma(V, rep):
    """the inner product argument is complete and exact: what the verifier computes from the prover's proof"""
    t = 'lemma (inner product argument)'
    for n in SIZES:
        a, b = [var(x) for x in names('a', n)], [var(x) for x in names('b', n)]
        g, h = ([base('secp', x, False) for x in names(q, n)] for q in 'gh')
        u, P = base('secp', 'u', False), base('secp', 'P', False)
        Ls, Rs, A_, B_ = ip_prove(a, b, g, h, u)
        s = ip_defect(Ls, Rs, A_, B_, g, h, u, P)
        w = P - gsum(g, a) - gsum(h, b) - u.mul(ip(a, b))
        rep.add(t, f'[n={n}] g^a h^b u^ab L^x2 R^x-2 P = P g^-a h^-b u^-<a,b> over all rounds',
                'proved' if s.same(w) else 'failed', f'{s - w}')
        x, cc = var('x'), var('c')
        U = base('secp', 'Uu', True)
        F = Facts()
        F.add(cong0(x, SN), False)
        v = (gsum(g, a) + gsum(h, b) + U.mul(x * cc)) - gsum(g, a) - gsum(h, b) - U.mul(x).mul(ip(a, b))
        e = cong0(cc - sum((p * q for p, q in zip(a, b)), ZERO), SN)
        ok = True
        for val in (True, False):
            F2 = F.fork()
            F2.add(e, val)
            ok = ok and F2.decide(v.is_zero_cond()) is val
        rep.add(t, f'[n={n}] accepted exactly when c = <a, b> modulo the order', 'proved' if ok else 'failed', f'{v}')


# ---------------------------------------------------------------- building blocks of the range proof
def points_of(p):
    return lambda n: [base('secp', x, False) for x in names(p, n)]


def vec_variants(**kw):
    """n in SIZES; kw: parameter -> 'points', 'ints', 'int64', 'bits', 'n', 'point', 'int'"""
    def gen(V, con, f):
        for n in SIZES:
            def mk(ex, st, n=n):
                out = []
                for p in con.params:
                    k = kw[p]
                    out.append(mkpoints(ex, st, names(p, n)) if k == 'points' else
                               mkbigs(ex, st, names(p, n)) if k == 'ints' else
                               mkslice(ex, st, 'int64', [var(x, -(1 << 63), (1 << 63) - 1) for x in names(p, n)]) if k == 'int64' else
                               mkslice(ex, st, 'int64', [bit(x) for x in names(p, n)]) if k == 'bits' else
                               const(n) if k == 'n' else mkpoint(ex, st, p) if k == 'point' else mkbig(ex, st, p))
                return out
            yield f'n={n}', mk
    return gen


def cn(c, x):
    n = x.const()
    if n is None or n < 0:
        raise NotApplicable('unknown length')
    return n


@contract(BP + 'updateGenerators', 'Hh y N', variants=vec_variants(Hh='points', y='int', N='n'))
def _(c):
    n = cn(c, c.N)
    if n < 1 or c.Hh.n.const() != n:
        raise NotApplicable('lengths')
    c.requires(not_(cong0(c.y, SN)))
    yi = mkinv(c.y, SN)
    c.ret(NewVec(n, lambda i: c.Hh.at(i).mul(yi ** i.const()), 'point', shared=True))


def commit_vec(c):
    n = cn(c, c.n)
    if any(x.n.const() is None or x.n.const() < n for x in (c.aL, c.aR, c.g, c.h)):
        raise NotApplicable('lengths')
    r = c.H.mul(c.alpha)
    for i in range(n):
        r = r + c.g.at(i).mul(c.aL.at(i)) + c.h.at(i).mul(c.aR.at(i))
    c.ret(New('P256', r))


contract(BP + 'commitVector', 'aL aR alpha H g h n', variants=vec_variants(
    aL='int64', aR='int64', alpha='int', H='point', g='points', h='points', n='n'))(commit_vec)
contract(BP + 'commitVectorBig', 'aL aR alpha H g h n', variants=vec_variants(
    aL='ints', aR='ints', alpha='int', H='point', g='points', h='points', n='n'))(commit_vec)


@contract(BP + 'commitInnerProduct', 'g h a b', variants=vec_variants(g='points', h='points', a='ints', b='ints'))
def _(c):
    n = cn(c, c.g.n)
    if any(x.n.const() != n for x in (c.h, c.a, c.b)):
        raise NotApplicable('lengths')
    at = lambda v: [v.at(i) for i in range(n)]
    c.ret(New('P256', gsum(at(c.g), at(c.a)) + gsum(at(c.h), at(c.b))))


def delta(y, z, n):
    return (z - z * z) * sum((y ** i for i in range(n)), ZERO) - z ** 3 * ((1 << n) - 1)


def delta_variants(V, con, f):
    for n in SIZES:
        def mk(ex, st, n=n):
            r = Ref(st.new(ex.P.tid[BP + 'BulletProofSetupParams'], build(ex, st, BP + 'BulletProofSetupParams', {'N': const(n)})))
            return [r, mkbig(ex, st, 'y'), mkbig(ex, st, 'z')]
        yield f'n={n}', mk


@contract(f'(*{BP}BulletProofSetupParams).delta', 'params y z', variants=delta_variants)
def _(c):
    st = c.st
    n = deep(c.ex, st, c.ref['params'], c.ex.P.funcs[c.con.name]['params'][0]['t'])['N'].const()
    if n not in SIZES:
        raise NotApplicable('size')
    c.ret(New('int', delta(c.y, c.z, n), ('mod', SN)))


def ar_variants(V, con, f):
    def mk(ex, st):
        return [A.param(ex, st, 'x', ex.P.tid['int64'], var('len:x', 0, 1 << 40), 'bits')]
    yield 'bits', mk


@contract(BP + 'computeAR', 'x', variants=ar_variants)
def _(c):
    if c.mode == 'apply':
        for i in range(cn(c, c.x.n)):
            c.requires(ge0(c.x.at(i)))
            c.requires(ge0(1 - c.x.at(i)))
    c.ret(NewVec(c.x.n, lambda i: c.x.at(i) - 1, 'int64'), NIL)


def ip_setup_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    n = c0.ref['N'].const()
    if n is None or n < 1:
        return ob('a length below one is an error', isinstance(r[1], Ifc), f'error is {r[1]}')
    ob('no error', r[1] is NIL, f'error is {r[1]}')
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    g, h = c0.tree('g'), c0.tree('h')
    want = {'N': const(n), 'Cc': c0.c, 'P': None}
    H = c0.tree('H')
    if H is not None:
        want['H'] = H
    if g:
        want['Gg'] = g
    if h:
        want['Hh'] = h
    x = differ(d, want, fs.facts, 'parameters')
    ob('the parameters are those given', not x, '; '.join(x)[:500])
    seeds = [d['Uu']] + ([] if H is not None else [d['H']]) + ([] if g else d['Gg']) + ([] if h else d['Hh'])
    check_seeds(ob, seeds, n, d)


def check_seeds(ob, seeds, n, d):
    ok = all(isinstance(s, GE) and len(s.t) == 1 and next(iter(s.t))[0] == 'h2g' and next(iter(s.t.values())) == ONE for s in seeds)
    ob('generators are hashed to the group', ok, f'{seeds}'[:300])
    ob('the seeds of the generators are distinct', len(set(seeds)) == len(seeds), f'{seeds}'[:300])
    ob('as many generators as bits', len(d['Gg']) == n and len(d['Hh']) == n, f"{len(d['Gg'])} and {len(d['Hh'])}")


def ip_setup_variants(V, con, f):
    for n in SIZES:
        for nil in ('', 'H', 'g', 'h', 'Hgh'):
            def mk(ex, st, n=n, nil=nil):
                return [NIL if 'H' in nil else mkpoint(ex, st, 'H'), NIL if 'g' in nil else mkpoints(ex, st, names('g', n)),
                        NIL if 'h' in nil else mkpoints(ex, st, names('h', n)), mkbig(ex, st, 'c'), const(n)]
            yield f'n={n} nil={nil}', mk
    for n in (0, -1):
        yield f'n={n}', lambda ex, st, n=n: [mkpoint(ex, st, 'H'), mkpoints(ex, st, []), mkpoints(ex, st, []),
                                             mkbig(ex, st, 'c'), const(n)]


@contract(BP + 'setupInnerProduct', 'H g h c N', variants=ip_setup_variants, post=ip_setup_post, shares=True,
          apply=lambda con, ex, st, args: None)
def _(c):
    pass


# ---------------------------------------------------------------- set-up of a range
def pow2_variants(V, con, f):
    yield 'x <= 0', lambda ex, st: [var('x', -(1 << 63), 0)]
    for k in range(63):
        yield f'x = 2^{k}', lambda ex, st, k=k: [const(1 << k)]
        if k:
            yield f'2^{k} < x < 2^{k + 1}', lambda ex, st, k=k: [var('x', 1, (1 << k) - 1) + (1 << k)]


def is_pow2(p):
    c = p.const()
    if c is None:
        return False          # the other variants
    return c > 0 and c & (c - 1) == 0


@contract(BP + 'IsPowerOfTwo', 'x', variants=pow2_variants, apply=lambda con, ex, st, args: None)
def _(c):
    c.ret(is_pow2(c.x))


def setup_post(V, c, ent, fs, r, ob):
    ex = c.ex
    b = c.ref['b'].const()
    n = b.bit_length() - 1 if b is not None and is_pow2(const(b)) else None
    if n not in SIZES:
        return ob('an unsupported range end is an error', isinstance(r[1], Ifc), f'error is {r[1]}')
    ob('no error', r[1] is NIL, f'error is {r[1]}')
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    ob('N is the bit length', same(d['N'], const(n), fs.facts), f"{d['N']}")
    ob('G is the base point', same(d['G'], G, fs.facts), f"{d['G']}")
    check_seeds(ob, d['Gg'] + d['Hh'] + [d['H']], n, d)


@contract(BP + 'Setup', 'b', variants=pow2_variants, post=setup_post, apply=lambda con, ex, st, args: None)
def _(c):
    pass


# ---------------------------------------------------------------- the range proof
BPREG = {}        # name of the base of the opaque announcement A -> what the proof was made for


def range_params(n):
    return {'N': const(n), 'G': G, 'H': base('secp', 'H'), 'Gg': [base('secp', x) for x in names('g', n)],
            'Hh': [base('secp', x) for x in names('h', n)],
            'InnerProductParams': dict(ip_params(None, None, n), Gg=[base('secp', x, False) for x in names('ig', n)])}


def bp_ok(d):
    n = d['Params']['N'].const()
    if n not in SIZES or len(d['Params']['Gg']) != n or len(d['Params']['Hh']) != n:
        raise NotApplicable('lengths')
    if any(d[k] is None for k in ('V', 'A', 'S', 'T1', 'T2', 'Commit')):
        raise NotApplicable('nil point')
    return n


def registered(d, facts):
    """the proof is one that Prove returned, unchanged in what the verifier reads"""
    R = BPREG.get(next(iter(d['A'].t), None)) if isinstance(d['A'], GE) else None
    if R is None or not same({k: d[k] for k in R['proof']}, R['proof'], facts):
        return None
    return R


def bp_verdict(d, st):
    """the published equations: (65), (66)/(67) and the inner product argument for g, h', P and t"""
    n = bp_ok(d)
    R = registered(d, st.facts)
    if R is not None:
        return and_(ge0(R['x']), lt0(R['x'] - (1 << n)))
    par, ipp = d['Params'], d['InnerProductProof']
    V_, A_, S_, T1, T2, Cm = (d[k] for k in ('V', 'A', 'S', 'T1', 'T2', 'Commit'))
    x, y, z = hashbp((V_, A_, S_, T1, T2), 1), hashbp((V_, A_, S_), 1), hashbp((V_, A_, S_), 2)
    for q in (x, y, z):
        if not st.assume(cong0(q, SN), False):
            raise Infeasible()
    if len(ipp['Ls']) != len(ipp['Rs']) or 1 << len(ipp['Ls']) != n:
        return False
    yi = mkinv(y, SN)
    h1 = [p.mul(yi ** i) for i, p in enumerate(par['Hh'])]
    c65 = G.mul(d['Tprime']) + par['H'].mul(d['Taux']) \
        - (V_.mul(z * z) + G.mul(delta(y, z, n)) + T1.mul(x) + T2.mul(x * x))
    c67 = A_ + S_.mul(x) - gsum(par['Gg'], [z] * n) + gsum(h1, [z * y ** i + z * z * (1 << i) for i in range(n)]) \
        - par['H'].mul(d['Mu']) - Cm
    # the statement of the inner product argument is determined by the rest of the proof
    w = ipapp(par['Gg'], h1, Cm, d['Tprime'], n)
    if not st.assume(cong0(w, SN), False):
        raise Infeasible()
    u = base('secp', ('h2g', SEEDU)).mul(w)
    e = {'N': const(n), 'Ls': ipp['Ls'], 'Rs': ipp['Rs'], 'A': ipp['A'], 'B': ipp['B'], 'U': u,
         'Params': {'N': const(n), 'Gg': par['Gg'], 'Hh': h1, 'P': Cm + u.mul(d['Tprime'])}}
    return and_(c65.is_zero_cond(), c67.is_zero_cond(), ip_verdict(e, st))


SEEDU = b'BulletproofsDoesNotNeedTrustedSetupU'


def bp_tree(c, n='proof'):
    d = c.tree(n)
    if d is None:
        raise NotApplicable('nil proof')
    return d


def bp_apply(con, ex, st, args):
    d = bp_tree(Ctx(ex, st, con, args, 'apply'))
    return [(st, (bp_verdict(d, st), NIL))]


def bp_proof(n, k=None, l=None):
    b = lambda x: base('secp', x, False)
    ipp = ip_proof(None, None, n, k, l)
    ipp['N'] = var('ip.N', -(1 << 63), (1 << 63) - 1)
    ipp['Params'] = dict(ipp['Params'], N=var('ip.Params.N', -(1 << 63), (1 << 63) - 1), Uu=b('ip.Uu'), H=b('ip.H'), Cc=var('ip.c'),
                         Gg=[b(x) for x in names('ip.g', n)], Hh=[b(x) for x in names('ip.h', n)])
    return {'V': b('V'), 'A': b('A'), 'S': b('S'), 'T1': b('T1'), 'T2': b('T2'), 'Taux': var('Taux'), 'Mu': var('Mu'),
            'Tprime': var('Tprime'), 'Commit': b('Commit'), 'InnerProductProof': ipp, 'Params': range_params(n)}


def bp_variants(V, con, f):
    def mk(n, k=None, l=None):
        def go(ex, st):
            return [Ref(st.new(ex.P.tid[BP + 'BulletProof'], build(ex, st, BP + 'BulletProof', bp_proof(n, k, l))))]
        return go
    for n in SIZES:
        yield f'n={n}', mk(n)
        k = n.bit_length() - 1
        for i, j in ((k + 1, k + 1), (k, k + 1), (k + 1, k), (k, k - 1), (k - 1, k), (k, 0) if k > 1 else (-1, 0),
                     (k - 1, k - 1), (62, 62), (63, 63), (64, 64), (64 + k, 64 + k)):
            if i >= 0 and j >= 0:
                yield f'n={n}, {i} and {j} points in the inner product proof', mk(n, i, j)


@contract(f'(*{BP}BulletProof).Verify', 'proof', variants=bp_variants, apply=bp_apply)
def _(c):
    c.ret(bp_verdict(bp_tree(c), c.st), ANY)


READS = ('V', 'A', 'S', 'T1', 'T2', 'Taux', 'Mu', 'Tprime', 'Commit')


def prove_variants(V, con, f):
    def mk(n, out):
        def go(ex, st):
            s = sum((bit(f'beta{i}') * (1 << i) for i in range(n)), ZERO)
            if out:
                q = var('Q')
                for c in (cong0(q, SN), eq0(q)):       # 0 < |2^n Q| < order, as |secret| < order - 2^n
                    st.assume(c, False)
                s = s + q * (1 << n)
            return [mkbig(ex, st, s), build(ex, st, BP + 'BulletProofSetupParams', range_params(n))]
        return go
    for n in SIZES:
        yield f'n={n}, secret in range', mk(n, False)
        yield f'n={n}, secret out of range', mk(n, True)


def atom_of(p, draws):
    """the draw a coefficient consists of"""
    for i, (v, _, _) in enumerate(draws):
        if isinstance(p, Poly) and p == v:
            return i
    return None


def prove_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    s, par = c0.secret, c0.tree('params')
    n = par['N'].const()
    inside = fs.facts.decide(and_(ge0(s), lt0(s - (1 << n)))) is True
    if inside:
        ob('C01 no error', r[1] is NIL, f'error is {r[1]}')
    rt = rtypes(ex, c.con.name)[0]
    d = deep(ex, fs, r[0], rt)
    if any(d[k] is None for k in READS):
        return ob('C01 the proof is complete', not inside, 'missing: ' + ', '.join(k for k in READS if d[k] is None))
    want = {'N': const(n), 'G': G, 'H': par['H'], 'Gg': par['Gg'], 'Hh': par['Hh']}
    x = differ(d['Params'], want, fs.facts, 'Params')
    ob('C01 the parameters are those given', not x, '; '.join(x)[:300])
    # the nonces
    H = next(iter(par['H'].t))
    co = lambda k, b: d[k].t.get(b, ZERO) if isinstance(d[k], GE) else ZERO
    roles = {'gamma': co('V', H), 'alpha': co('A', H), 'rho': co('S', H), 'tau1': co('T1', H), 'tau2': co('T2', H)}
    for i in range(n):
        roles[f'sL[{i}]'] = co('S', next(iter(par['Gg'][i].t)))
        roles[f'sR[{i}]'] = co('S', next(iter(par['Hh'][i].t)))
    used = {k: atom_of(p, fs.draws) for k, p in roles.items()}
    bad = [f'{k} is {roles[k]}' for k, i in used.items() if i is None]
    ob('C22 every blinding value is a value drawn at random', not bad, '; '.join(bad)[:300])
    idx = [i for i in used.values() if i is not None]
    two = [k for k, i in used.items() if i is not None and idx.count(i) > 1]
    ob('C22 every blinding value is a draw of its own', not two, f'the same draw is used for {two}')
    for i in sorted(set(idx)):
        v, rd, m = fs.draws[i]
        ob('C22 draws are uniform over the scalar field', m == const(SN), f'bound {m}')
        ob('C22 draws come from the system source', system_reader(ex, fs, rd), f'{rd}')
    leaks = published(d, [v for v, _, _ in fs.draws] + [s], fs.facts)
    ob('C22 the proof holds no nonce and no secret', not leaks, '; '.join(leaks)[:300])
    ob('C01 V commits to the secret', same(d['V'], G.mul(s) + par['H'].mul(roles['gamma']), fs.facts), f"V is {d['V']}")
    if not bad and not two:
        x, y, z = hashbp([d[k] for k in ('V', 'A', 'S', 'T1', 'T2')], 1), hashbp([d[k] for k in 'VAS'], 1), hashbp([d[k] for k in 'VAS'], 2)
        g = roles
        resp = {'Taux': g['tau2'] * x * x + g['tau1'] * x + z * z * g['gamma'], 'Mu': g['alpha'] + g['rho'] * x}
        w = differ(d, {k: ModN(v) for k, v in resp.items()}, fs.facts, 'proof')
        ob('C22 the responses are masked by their own draws', not w, '; '.join(w)[:300])
        reduced(ob, d, ('Taux', 'Mu', 'Tprime'), SN, fs.facts)
    # the verifier's answer
    if getattr(V, 'prop', None) == 'C22':
        return
    proof = Ref(fs.new(ex.P.tid[BP + 'BulletProof'], r[0]))
    ans = ex.call(fs.fork(), f'(*{BP}BulletProof).Verify', [proof])
    for s2, v in ans:
        if isinstance(v, PanicV):
            ob('C01 the verifier answers', not inside, str(v))
        elif inside:
            ob('C01 the proof is accepted', s2.facts.decide(v[0]) is True, f'verdict: {v[0]}'[:600])
        else:
            ob('C02 the proof is rejected', s2.facts.decide(v[0]) is False, f'verdict: {v[0]}'[:600])
    ob('C01 the verifier answers', len(ans) > 0)


def system_reader(ex, st, rd):
    o = ex.gaddr.get('crypto/rand.Reader')
    return o is not None and rd is not NIL and st.heap[o][1] == rd


def reduced(ob, d, ns, n, facts):
    """a response outside [0, n) would show more than its residue"""
    for k in ns:
        for v in d[k] if isinstance(d[k], list) else [d[k]]:
            lo, hi = interval(v)
            ok = lo is not None and hi is not None and lo >= 0 and hi < n or \
                (facts.decide(lt0(v)) is False and facts.decide(lt0(v - n)) is True)
            ob('C22 the responses are reduced modulo the order', ok, f'{k} is {v}'[:300])


def published(v, secrets, facts, path='proof', n=SN):
    """the fields of a proof that are one of the secrets"""
    forms = {normal(facts.sub(s), n): s for s in secrets}

    def go(v, path):
        if isinstance(v, dict):
            return [x for k, w in v.items() for x in go(w, f'{path}.{k}')]
        if isinstance(v, list):
            return [x for i, w in enumerate(v) for x in go(w, f'{path}[{i}]')]
        if isinstance(v, Poly) and v.atoms():
            if v in secrets or normal(facts.sub(v), n) in forms:
                return [f'{path} is {v}']
        return []
    return go(v, path)


def prove_apply(con, ex, st, args):
    c = Ctx(ex, st, con, args, 'apply')
    par = c.tree('params')
    s = c.secret
    n = par['N'].const()
    if n not in SIZES or len(par['Gg']) != n or len(par['Hh']) != n or not isinstance(par['H'], GE) or not par['H'].t:
        return None
    # precondition: |secret| < order - 2^n
    for q in (s - (SN - (1 << n)), -s - (SN - (1 << n))):
        if st.facts.decide(lt0(q)) is not True:
            ex.rejected[con.name] = f'precondition: {q} < 0'
            return None
    _tag[0] += 1
    t = _tag[0]
    b = lambda k: base('secp', ('bp' + k, t), False)
    gamma = fresh('rand', 0, SN - 1)
    o = ex.global_oid(st, 'crypto/rand.Reader', ex.P.globals.get('crypto/rand.Reader', {}).get('t', ex.P.tid.get('*io.Reader')))
    st.draws.append((gamma, st.heap[o][1], const(SN)))
    d = {k: b(k) for k in ('A', 'S', 'T1', 'T2', 'Commit')}
    d['V'] = G.mul(s) + par['H'].mul(gamma)
    for k in ('Taux', 'Mu', 'Tprime'):
        d[k] = var(f'bp{k}!{t}', 0, SN - 1)
    k = n.bit_length() - 1
    d['InnerProductProof'] = {'N': const(n), 'Ls': [base('secp', ('bpL', t, i), False) for i in range(k)],
                              'Rs': [base('secp', ('bpR', t, i), False) for i in range(k)],
                              'A': var(f'bpA!{t}', 0, SN - 1), 'B': var(f'bpB!{t}', 0, SN - 1)}
    d['Params'] = {'N': const(n), 'G': G, 'H': par['H'], 'Gg': par['Gg'], 'Hh': par['Hh']}
    BPREG[('bpA', t)] = dict(x=s, n=n, proof=d)
    return [(st, (build(ex, st, rtypes(ex, con.name)[0], d), NIL))]


@contract(BP + 'Prove', 'secret params', variants=prove_variants, post=prove_post, apply=prove_apply, shares=True)
def _(c):
    pass


# ---------------------------------------------------------------- generic ranges [a, b)
def int64v(n):
    return var(n, -(1 << 63), (1 << 63) - 1)


WIDTH = 1 << 32


OTHER_SIZE = 'range proofs for another number of bits than 32'


def generic_setup_post(V, c, ent, fs, r, ob):
    ex = c.ex
    a, b = c.ref['a'], c.ref['b']
    F = fs.facts
    err = isinstance(r[1], Ifc)
    if err:
        # an error is allowed unless a < b <= a + 2^32
        s2 = fs.fork()
        live = s2.assume(lt0(a - b), True) and s2.assume(lt0(b - a - WIDTH - 1), True)
        ob('no error for a < b <= a + 2^32', not live or s2.facts.decide(lt0(a - b)) is False or impossible(s2), 'error')
        return
    s2 = fs.fork()
    live = s2.assume(lt0(a + WIDTH - b), True)
    ob('a range wider than 2^32 is refused', not live or impossible(s2), f'accepted' + V.facts_text(fs))
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    ob('parameters are returned', isinstance(d, dict), f'{d}')
    x = differ(d, {'A': a, 'B': b}, F, 'parameters')
    for k in ('BP1', 'BP2'):
        n = d[k]['N'].const() if isinstance(d[k]['N'], Poly) else None
        if n != 32 and n in SIZES:
            # a choice of its own, on which the proof of ProveGeneric depends
            raise Unsupported(f'{OTHER_SIZE}: {n}')
        x += differ(d[k], {'N': const(32), 'G': G}, F, k)
        check_seeds(ob, d[k]['Gg'] + d[k]['Hh'] + [d[k]['H']], 32, d[k])
    ob('the parameters are those of [a, b)', not x, '; '.join(x)[:300])


def impossible(st):
    """the linear facts contradict each other"""
    return st.facts.decide(lt0(ONE)) is True or L_unsat(st.facts)


def L_unsat(F):
    import z3
    s = z3.Solver()
    s.set('timeout', 5000)
    vs = {}

    def v(a):
        if a not in vs:
            vs[a] = z3.Int(f'v{a}')
            A_ = ATOMS[a]
            if A_.lo is not None:
                s.add(vs[a] >= A_.lo)
            if A_.hi is not None:
                s.add(vs[a] <= A_.hi)
        return vs[a]

    def ex(p):
        t = z3.IntVal(0)
        for m, c in p.t.items():
            if len(m) > 1 or m and m[0][1] != 1:
                return None
            t = t + (c * v(m[0][0]) if m else c)
        return t
    for c, val in F.known.items():
        if isinstance(c, Cond) and c.k in ('lt0', 'eq0'):
            e = ex(c.a[0])
            if e is not None:
                q = e < 0 if c.k == 'lt0' else e == 0
                s.add(q if val else z3.Not(q))
    return s.check() == z3.unsat


@contract(BP + 'SetupGeneric', 'a b', post=generic_setup_post, shares=True, apply=lambda con, ex, st, args: None)
def _(c):
    pass


def generic_tree(a, b):
    return {'A': a, 'B': b, 'BP1': range_params(32), 'BP2': range_params(32)}


def generic_variants(V, con, f):
    def mk(ex, st):
        a, b, s = int64v('a'), int64v('b'), var('secret', -(SN // 2) + 1, SN // 2 - 1)
        st.assume(lt0(a - b), True)
        st.assume(lt0(b - a - WIDTH - 1), True)
        t = rtypes(ex, BP + 'SetupGeneric')[0]
        return [mkbig(ex, st, s), build(ex, st, t, generic_tree(a, b))]
    yield 'a < b <= a + 2^32', mk


def blinding(d, H):
    """the blinding values of a proof: what its announcements carry of h; a proof that the contract of Prove
    returned has announcements of its own"""
    out = {}
    for k in ('V', 'A', 'S', 'T1', 'T2'):
        g = d[k]
        b = next(iter(g.t)) if isinstance(g, GE) and len(g.t) == 1 else None
        if k != 'V' and isinstance(b, tuple) and b[0] == 'bp' + k and g.t[b] == ONE:
            out[k] = b
        else:
            out[k] = g.t.get(H, ZERO) if isinstance(g, GE) else ZERO
    return out


def generic_nonces(ex, c, fs, r, ob):
    """C22: the two proofs do not share a blinding value"""
    d = deep(ex, fs, r, rtypes(ex, c.con.name)[0])
    if any(d[p] is None or d[p][k] is None for p in ('P1', 'P2') for k in ('V', 'A', 'S', 'T1', 'T2')):
        return ob('C22 the proof is complete', False, 'missing')
    par = Ctx(ex, fs, c.con, c.args, 'verify').tree('params')
    used = {}
    for p, q in (('P1', 'BP1'), ('P2', 'BP2')):
        for k, v in blinding(d[p], next(iter(par[q]['H'].t))).items():
            used[p + '.' + k] = v
    drawn = [v for v, _, _ in fs.draws]
    for k, v in used.items():
        ok = isinstance(v, tuple) or v in drawn
        ob('C22 every blinding value is a value drawn at random', ok, f'{k} is {v}', () if isinstance(v, tuple) else (v,))
    vs = list(used.values())
    two = [k for k, v in used.items() if vs.count(v) > 1]
    ob('C22 every blinding value is a draw of its own', not two, f'the same draw is used for {two}')
    s = Ctx(ex, fs, c.con, c.args, 'verify').secret
    w = published(d, drawn + [s], fs.facts)
    ob('C22 the proof holds no nonce and no secret', not w, '; '.join(w)[:300])


def generic_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    s, par = c0.secret, c0.tree('params')
    if getattr(V, 'prop', None) == 'C22':
        return generic_nonces(ex, c, fs, r[0], ob) if r[1] is NIL else None
    want = and_(ge0(s - par['A']), lt0(s - par['B']))
    if not (r[1] is NIL):
        return ob('no error for a secret in the range', False, f'error is {r[1]}')
    vn = f'({BP}ProofBPRP).Verify'
    rs = ex.call(fs.fork(), vn, [r[0]])
    ob('the verifier answers', len(rs) > 0)
    for s2, v in rs:
        if isinstance(v, PanicV):
            ob('the verifier answers', False, str(v))
            continue
        v = v[0]
        ok, detail = True, ''
        for val in (True, False):
            s3 = s2.fork()
            if s3.assume(want, val) and not L_unsat(s3.facts):
                w = s3.facts.decide(v)
                if w is not val:
                    s4 = s3.fork()
                    if s4.assume(v, not val) and not L_unsat(s4.facts):
                        ok, detail = False, f'verdict {v} when {want} is {val}'
        ob('accepted exactly when a <= secret < b', ok, detail)


@contract(BP + 'ProveGeneric', 'secret params', variants=generic_variants, post=generic_post, shares=True,
          apply=lambda con, ex, st, args: None)
def _(c):
    pass


def pair_variants(V, con, f):
    def mk(n):
        def go(ex, st):
            q = bp_proof(n)
            return [build(ex, st, BP + 'ProofBPRP', {'P1': bp_proof(n), 'P2': rename(bp_proof(n), '#2')})]
        return go
    for n in (2, 32):
        yield f'n={n}', mk(n)


def rename(v, suf):
    if isinstance(v, dict):
        return {k: rename(x, suf) for k, x in v.items()}
    if isinstance(v, list):
        return [rename(x, suf) for x in v]
    if isinstance(v, GE):
        return v if v == G else GE(v.g, {b + suf: c for b, c in v.t.items()})
    if isinstance(v, Poly) and v.const() is None:
        a = ATOMS[next(iter(v.atoms()))]
        return var(a.name + suf, a.lo, a.hi)
    return v


@contract(f'({BP}ProofBPRP).Verify', 'proof', variants=pair_variants, apply=lambda con, ex, st, args: None)
def _(c):
    d = c.tree('proof')
    c.ret(and_(bp_verdict(d['P1'], c.st), bp_verdict(d['P2'], c.st)), ANY)
