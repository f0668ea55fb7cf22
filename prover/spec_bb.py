"""Contracts around the pairing: encodings of group elements, Boneh-Boyen signatures, CCS08."""
from contract import *
import contract as C
from logic import *
import lib as L
import terms as Tm
from tower import ORDER
from spec_bp import build, mkbig, mkgrp, differ, same, ModN, published, reduced, system_reader, rtypes, atom_of

BB = PKG + 'crypto/bbsignatures.'
CC = PKG + 'ccs08.'
UT = PKG + 'util.'
G1g = base('g1', 'G1gen')
G2g = base('g2', 'G2gen')
E_ = base('gt', 'E')            # e(G1gen, G2gen), which is not one


def pair(a, b):
    """the bilinear map"""
    r = gzero('gt')
    for x, c in a.t.items():
        for y, d in b.t.items():
            n = 'E' if (x, y) == ('G1gen', 'G2gen') else ('pair', x, y)
            r = r + GE('gt', {n: c}).mul(d)
    return r


def groupmode(f):
    """the contract speaks about group elements, not about coordinates"""
    def ap(con, ex, st, args):
        if not ex.group:
            return None
        return ex.split(st, lambda s: f(con, ex, s, args, Ctx(ex, s, con, args, 'apply')))
    return ap


# ---------------------------------------------------------------- encodings
def marshal(con, ex, st, args, c):
    s = Str((('gm', getattr(c, con.params[0])),))
    n = s.length()
    return Slc(st.new(('array', L.bytet(ex)), s), (), 0, n, n)


def unmarshal(con, ex, st, args, c):
    s = L.bytes_of(ex, st, args[1])
    tn = con.name.split('(*')[1].split(')')[0]
    if len(s.p) != 1 or not isinstance(s.p[0], tuple) or s.p[0][0] != 'gm':
        raise NotApplicable('bytes that are not an encoding')
    g = s.p[0][1]
    if {'g1': 'G1', 'g2': 'G2', 'gt': 'GT'}[g.g] != tn.split('.')[-1]:
        raise NotApplicable('encoding of an element of another group')
    con.write(ex, st, args[0], PtRep(g) if g.g != 'gt' else g, 'any', None)
    return (args[0], True)


def string(con, ex, st, args, c):
    return Str((('gs', getattr(c, con.params[0])),))


def chunks(ex, st, r):
    """the 32-byte numbers of a byte slice"""
    b = L.bytes_of(ex, st, r).explode()
    return [L.int_of_bytes(Str(tuple(('byte', x) for x in b[i:i + 32]))) for i in range(0, len(b), 32)], len(b)


PARTS = {'G1': 2, 'G2': 4, 'GT': 12}
BASIS12 = [(w, t, i) for w in (1, 0) for t in (2, 1, 0) for i in (1, 0)]


def ints12(ex, st, r):
    """the twelve integers of a gfP12 object"""
    out = []
    for six in ex.cell(st, r):
        for two in ex.cell(st, six):
            out += [ex.cell(st, q) for q in ex.cell(st, two)]
    return out


def element(c, st, n):
    return Ctx(c.ex, st, c.con, c.args, 'verify').look(c.ref[n])


def coords(c, st, ob, n):
    """reduced coordinates of the element; None when it is infinity"""
    nm = c.con.name.split(').')[0].split('.')[-1]
    if nm == 'GT':
        return [mkmod(x, Tm_P) for x in ints12(c.ex, st, c.ex.cell(st, c.ref[n])[0])]
    g = element(c, st, n)
    if st.facts.decide(g.is_zero_cond()) is True:
        return None
    return [g.coord(i) for i in range(PARTS[nm])]


def marshal_post(V, c, ent, fs, r, ob):
    ex, n = c.ex, c.con.params[0]
    nm = c.con.name.split(').')[0].split('.')[-1]
    if not isinstance(r, Slc):
        return ob('an encoding', False, f'{r}')
    ob('the encoding is a new slice', r.o not in ent.heap)
    got, ln = chunks(ex, fs, r)
    ob('the length is fixed', ln == 32 * PARTS[nm], f'{ln} bytes')
    e2 = ent.fork()
    e2.facts = fs.facts
    want = coords(c, e2, ob, n)
    if want is None:
        vals = [q.const() for q in got]
        ok = vals in ([0] * PARTS[nm], [0, 1]) if nm == 'G1' else vals == [0] * PARTS[nm]
        return ob('infinity has its own encoding', ok, f'{got}')
    if ln == 32 * PARTS[nm]:
        for i, (a, b) in enumerate(zip(got, want)):
            ob(f'bytes {32 * i} to {32 * i + 31} hold coordinate {i}', fs.facts.decide(eq0(a - b)) is True, f'{a}, expected {b}')
    same_element(c, ent, fs, ob, n)


def same_element(c, ent, fs, ob, n):
    nm = c.con.name.split(').')[0].split('.')[-1]
    if nm == 'GT':
        a, b = (ints12(c.ex, s, c.ex.cell(s, c.ref[n])[0]) for s in (ent, fs))
        ob('the element is unchanged', all(fs.facts.decide(cong0(x - y, Tm_P)) is True for x, y in zip(a, b)), '')
    else:
        g, h = element(c, ent, n), element(c, fs, n)
        ob('the element is unchanged', same(g, h, fs.facts) or fs.facts.decide((g - h).is_zero_cond()) is True, f'{h}')


def string_post(V, c, ent, fs, r, ob):
    ex, n = c.ex, c.con.params[0]
    if not isinstance(r, Str):
        return ob('a string', False, f'{r}')
    e2 = ent.fork()
    e2.facts = fs.facts
    want = coords(c, e2, ob, n)
    if want is None:
        ob('infinity is printed in one way', r.lit_() is not None, f'{r}')
    else:
        bad = [x for x in r.p if not isinstance(x, bytes) and (x[0] != 'dec' or not any(fs.facts.decide(eq0(x[1] - w)) is True for w in want))]
        ob('the printed form depends on the element only', not bad, f'{bad}')
        i = 0
        apart = True
        prev = None
        for x in r.p:                     # the coordinates in order, separated
            if isinstance(x, bytes):
                prev = x
                continue
            if prev is None or not prev or prev[-1:].isdigit() or prev[-1:] == b'-':
                apart = False
            prev = None
            if i < len(want) and x[0] == 'dec' and fs.facts.decide(eq0(x[1] - want[i])) is True:
                i += 1
        ob('all coordinates are printed', i == len(want), f'{r}: coordinate {i} missing')
        ob('the coordinates are separated', apart, f'{r}')
    same_element(c, ent, fs, ob, n)


def unmarshal_variants(V, con, f):
    nm = con.name.split(').')[0].split('.')[-1]
    k = PARTS[nm]
    tn = BN + nm

    def mk(nil, data):
        def go(ex, st):
            p = NIL if nil else C.alloc_any(ex, st, INNER_[nm])
            if data == 'all':
                cs = [var(f'm{i}', 0, (1 << 256) - 1) for i in range(k)]
                if nm == 'GT' or k == 2:
                    pass
                s = Str(tuple(('byte', L.byteof(q, 31 - j)) for q in cs for j in range(32)))
                n = const(32 * k)
            else:
                n = var('len:m', 0, 1 << 40)
                st.assume(eq0(n - 32 * k), False)
                s = Str((('sym', 'm', n),))
            return [Ref(st.new(ex.P.tid[tn], (p,))), Slc(st.new(('array', L.bytet(ex)), s), (), 0, n, n)]
        return go
    for nil in (True, False):
        yield ('new element, ' if nil else '') + f'any {32 * k} bytes', mk(nil, 'all')
        yield ('new element, ' if nil else '') + 'any other length', mk(nil, 'length')


def unmarshal_post(V, c, ent, fs, r, ob):
    ex = c.ex
    nm = c.con.name.split(').')[0].split('.')[-1]
    k = PARTS[nm]
    F = fs.facts
    ok = F.decide(r[1]) if isinstance(r[1], Cond) else r[1]
    if c.args[1].ln.const() is None:
        return ob('the wrong length is refused', ok is False and r[0] is NIL, f'{r}')
    m = [var(f'm{i}', 0, (1 << 256) - 1) for i in range(k)]
    ob('the bytes are unchanged', fs.heap[c.args[1].o][1] == ent.heap[c.args[1].o][1])
    if nm == 'GT':
        ob('accepted', ok is True and r[0] == c.args[0], f'{r}')
        if ok is True:
            for i, (a, b) in enumerate(zip(ints12(ex, fs, ex.cell(fs, c.args[0])[0]), m)):
                ob(f'coefficient {i} is the one encoded', F.decide(cong0(a - b, Tm_P)) is True, f'{a}')
        return
    zero = and_(*[eq0(q) for q in m])
    if nm == 'G1':
        zero = or_(zero, and_(eq0(m[0]), eq0(m[1] - 1)))
    if nm == 'G1':
        on = cong0(C.tower.el_normal(m[1] * m[1] - m[0] * m[0] * m[0] - 3), Tm_P)
    else:
        x, y = m[0] * C.I + m[1], m[2] * C.I + m[3]
        d = C.split(C.red(y * y - x * x * x - TWISTB))
        on = and_(*[cong0(d.get(q, ZERO), Tm_P) for q in ((0, 0, 1), (0, 0, 0))])
    z = decide2(F, zero)
    if z is None:
        raise Unsupported('undecided whether the bytes are those of infinity')
    if z:
        ob('the encoding of infinity is accepted', ok is True and r[0] == c.args[0], f'{r}')
        if ok is True:
            pz = C.view_el(ex, fs, ex.cell(fs, ex.cell(fs, c.args[0])[0])[2], C.COORD[INNER_[nm]])
            ob('the result is infinity', all(q == ZERO for q in pz.ints), f'z is {pz.p}')
        return
    o = decide2(F, on)
    if ok is True:
        ob('only points of the curve are accepted', o is True and r[0] == c.args[0], f'{r}')
        px, py, pz, pt = C.point_fields(ex, fs, ex.cell(fs, c.args[0])[0], INNER_[nm])
        ob('the result is affine', pz.p == ONE, f'z is {pz.p}')
        for i, (a, b) in enumerate(zip(px.ints + py.ints, m)):
            ob(f'coordinate {i} is the one encoded', F.decide(cong0(a - b, Tm_P)) is True, f'{a}')
    elif ok is False:
        # coordinates that are not reduced may be refused
        ob('every point of the curve is accepted', o is False or any(F.decide(lt0(q - Tm_P)) is False for q in m), f'{r}')
        ob('nothing is returned for a refused encoding', r[0] is NIL, f'{r}')
    else:
        raise Unsupported('undecided verdict')


def decide2(F, c):
    """decides a condition part by part"""
    d = F.decide(c)
    if d is not None or isinstance(c, bool):
        return d
    if c.k in ('and', 'or'):
        ds = [decide2(F, q) for q in c.a]
        if c.k == 'and':
            return False if False in ds else True if all(q is True for q in ds) else None
        return True if True in ds else False if all(q is False for q in ds) else None
    if c.k == 'not':
        d = decide2(F, c.a[0])
        return None if d is None else not d
    return None


INNER_ = {'G1': BN + 'curvePoint', 'G2': BN + 'twistPoint', 'GT': BN + 'gfP12'}
Tm_P = C.tower.P
TWISTB = 266929791119991161246907387137283842545076965332900288569378510910307636690 * C.I + \
    19485874751759354771024239261021720505790618469301721065564631296452457478373
for nm in ('G1', 'G2', 'GT'):
    md = ['int'] if nm == 'GT' else ['group']
    contract(nm + '.Marshal', 'n', modes=md, recv='', apply=groupmode(marshal), post=marshal_post, renorm=True,
             normalises=('n',) if nm == 'GT' else ())(lambda c: None)
    contract(nm + '.Unmarshal', 'e m', modes=['int'], variants=unmarshal_variants, apply=groupmode(unmarshal),
             post=unmarshal_post, writes=('e',), shares=True)(lambda c: None)
    contract(nm + '.String', 'g', modes=md, recv='', apply=groupmode(string), post=string_post, renorm=True)(lambda c: None)


def oncurve(c):
    x, y = c.ref['c'], None
    px, py, pz, pt = C.point_fields(c.ex, c.st, c.ref['c'], C.tname(c.ex, c.st, c.ref['c']))
    if px.ints is None or py.ints is None:
        raise NotApplicable('abstract coordinates')
    if len(px.ints) == 1:
        return c.ret(cong0(C.tower.el_normal(py.p * py.p - px.p * px.p * px.p - 3), Tm_P))
    d = C.split(C.red(py.p * py.p - px.p * px.p * px.p - TWISTB))
    c.ret(and_(*[cong0(d.get(q, ZERO), Tm_P) for q in ((0, 0, 1), (0, 0, 0))]))


for nm in ('curvePoint', 'twistPoint'):
    contract(nm + '.IsOnCurve', 'c', modes=['int'], kinds={'c': [None]})(oncurve)


def pair_apply(con, ex, st, args, c):
    if ex.mono != 'gt':
        raise NotApplicable('pairing')
    # bilinearity and non-degeneracy of the optimal ate pairing are trusted
    return con.result_value(ex, st, c, New('GT', pair(c.g1, c.g2)))


@contract(BN + 'Pair', 'g1 g2', modes=['group'], mono='fp12', recv='', apply=groupmode(pair_apply))
def _(c):
    import spec_pair
    c.ret(New('GT', spec_pair.ate_spec(c, c.g2, c.g1)))


# ---------------------------------------------------------------- constants of package util
def globals_goal(V, rep):
    con = Contract('package util', '', lambda c: None, modes=['group'])
    ex = V.exec('group', con)
    ex.rejected = {}
    st = V.base(ex).fork()
    rep.used |= V.group_used
    c = Ctx.__new__(Ctx)
    c.ex, c.st = ex, st
    for n, v in (('G1', G1g), ('G2', G2g), ('E', E_)):
        try:
            w = c.look(st.heap[ex.gaddr[UT + n]][1])
        except (NotApplicable, Unsupported) as e:
            rep.add('package util', f'value of {n}', 'unsupported', str(e))
            continue
        rep.add('package util', f'util.{n} is the generator', 'proved' if w.same(v) else 'failed', f'{w}, expected {v}')


# ---------------------------------------------------------------- Boneh-Boyen signatures
def drawn(ob, ex, fs, v, tag=''):
    """v is a value drawn uniformly below the group order from the system source"""
    i = atom_of(v, fs.draws)
    ob(tag + 'the value is drawn at random', i is not None, f'{v}')
    if i is not None:
        _, rd, m = fs.draws[i]
        ob(tag + 'the draw is uniform over the scalar field', m == const(ORDER), f'bound {m}')
        ob(tag + 'the draw comes from the system source', system_reader(ex, fs, rd), f'{rd}')
    return i


def keygen_post(V, c, ent, fs, r, ob):
    ex = c.ex
    ob('no error', r[1] is NIL, f'{r[1]}')
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    if d['Privk'] is None or d['Pubk'] is None:
        return ob('both keys are returned', False)
    drawn(ob, ex, fs, d['Privk'])
    ob('the public key is the private key times the generator', same(d['Pubk'], G1g.mul(d['Privk']), fs.facts), f"{d['Pubk']}")


def keygen_apply(con, ex, st, args):
    if not ex.group:
        return None
    k = fresh('rand', 0, ORDER - 1)
    o = ex.global_oid(st, 'crypto/rand.Reader', ex.P.globals.get('crypto/rand.Reader', {}).get('t', ex.P.tid.get('*io.Reader')))
    st.draws.append((k, st.heap[o][1], const(ORDER)))
    return [(st, (build(ex, st, rtypes(ex, con.name)[0], {'Privk': k, 'Pubk': G1g.mul(k)}), NIL))]


@contract(BB + 'Keygen', '', modes=['group'], variants=lambda V, con, f: [('', lambda ex, st: [])], post=keygen_post, apply=keygen_apply,
          shares=True)
def _(c):
    pass


def random_variants(V, con, f):
    yield '', lambda ex, st: [Ifc('reader', Ref(st.new(('opaque',), 'reader')))]


def random_post(V, c, ent, fs, r, ob):
    ex = c.ex
    k, g, e = r
    mine = fs.draws[len(ent.draws):]
    if e is not NIL:
        return ob('no element with an error', k is NIL and g is NIL, f'{r}')
    if not isinstance(k, Ref) or not isinstance(g, Ref):
        return ob('an exponent and an element', False, f'{r}')
    kv = ex.cell(fs, k)
    d = [x for x in mine if (x[0] - kv).const() is not None or (x[0] + kv).const() is not None]
    ob('the exponent is drawn from the given source', len(d) == 1 and d[0][1] == c.args[0]
       and d[0][2].const() is not None and d[0][2].const() >= ORDER - 1, f'{kv}, draws {mine}', vals=(kv,))
    ob('the exponent lies in [1, order)', fs.facts.decide(lt0(-kv)) is True and fs.facts.decide(lt0(kv - ORDER)) is True,
       f'{kv}', vals=(kv,))
    n = c.con.name[-2:]
    v = Ctx(ex, fs, c.con, c.args, 'verify').look(g)
    want = (G1g if n == 'G1' else G2g).mul(kv)
    ob('the element is the generator to this power', same(v, want, fs.facts), f'{v}, expected {want}', vals=(v,))
    ob('both are new', k.o not in ent.heap and g.o not in ent.heap)


for nm in ('RandomG1', 'RandomG2'):
    contract(BN + nm, 'r', modes=['group'], variants=random_variants, post=random_post, shares=True)(lambda c: None)


def signature(m, k):
    return G2g.mul(inv_res(m + k, ORDER))


@contract(BB + 'Sign', 'm privk', modes=['group'], recv='')
def _(c):
    s = c.m + c.privk
    if c.mode == 'apply' and getattr(c.ex, 'signable', False):
        c.learn(not_(cong0(s, ORDER)))          # assumption: every element of the set has a signature under the key
    if c.case(cong0(s, ORDER)):
        c.ret(NIL, ERR)
    else:
        c.ret(New('G2', PtRep(signature(c.m, c.privk))), NIL)


@contract(BB + 'verify', 'signature m pubk', modes=['group'], recv='')
def _(c):
    c.ret((pair(c.pubk + G1g.mul(c.m), c.signature) - E_).is_zero_cond(), NIL)


def sign_goal(V, rep):
    """verify accepts a signature for exactly the message and the key it was made with"""
    con = Contract('Boneh-Boyen', '', lambda c: None, modes=['group'])
    for what, other in (('its own message and key', False), ('another message or key', True)):
        ex = V.exec('group', con)
        ex.rejected = {}
        st = V.base(ex).fork()
        m, k = var('m'), var('k')
        m2, k2 = (var("m'"), var("k'")) if other else (m, k)
        st.assume(cong0(m + k, ORDER), False)
        if other:
            st.assume(cong0(m2 + k2 - m - k, ORDER), False)
        for s, r in ex.call(st, BB + 'Sign', [mkbig(ex, st, m), mkbig(ex, st, k)]):
            ok = not isinstance(r, PanicV) and r[1] is NIL and isinstance(r[0], Ref)
            rep.add('Boneh-Boyen', 'signing succeeds', 'proved' if ok else 'failed', f'{r}')
            if not ok:
                continue
            for s2, v in ex.call(s, BB + 'verify', [r[0], mkbig(ex, s, m2), mkgrp(ex, s, BN + 'G1', G1g.mul(k2))]):
                ok = not isinstance(v, PanicV) and v[1] is NIL and s2.facts.decide(v[0]) is (not other)
                rep.add('Boneh-Boyen', f'verification with {what}', 'proved' if ok else 'failed', f'verdict {v}')
        rep.used |= set(ex.used)


# ---------------------------------------------------------------- Fiat-Shamir hashes of CCS08
def gcanon(g):
    n = ORD[g.g]
    return GE(g.g, {b: normal(c, n) for b, c in g.t.items()})


def hash_value(a, C_, D):
    """the number hashed from announcements a (a list), C and D"""
    return app('HashGT', (tuple(gcanon(x) for x in a), gcanon(C_), gcanon(D)), -(1 << 255), (1 << 255) - 1)


def hash_args(con, c):
    """announcements, C, D"""
    if con.name.endswith('HashSet'):
        return [c.a], c.C, c.D
    if c.ref['a'] is NIL:
        return [], c.C, c.D
    n = c.a.n.const()
    if n is None:
        raise NotApplicable('unknown number of announcements')
    return [c.a.at(i) for i in range(n)], c.C, c.D


def hash_apply(con, ex, st, args, c):
    h = hash_value(*hash_args(con, c))
    # the challenge is not zero
    if not st.assume(cong0(h, ORDER), False):
        raise Infeasible()
    return (mkbig(ex, st, h), NIL)


def hash_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    a, C_, D = hash_args(c.con, c0)
    ob('no error', r[1] is NIL, f'{r[1]}')
    if not isinstance(r[0], Ref):
        return ob('a number', False, f'{r[0]}')
    ob('the number is new', r[0].o not in ent.heap)
    v = ex.cell(fs, r[0])
    shas = [ATOMS[x] for x in deps(v) if ATOMS[x].kind == 'app' and ATOMS[x].data[0] == 'sha256']
    gts = [ATOMS[x].data[1] for x in deps(v) if ATOMS[x].kind == 'app' and ATOMS[x].data[0] == 'HashGT']
    ob('the result is a hash', bool(shas or gts), f'{v}', vals=(v,))
    seen = [x for g in gts for x in g[0] + g[1:]] + \
        [p[1] for s in shas for p in s.data[1][0] if isinstance(p, tuple) and p[0] in ('gs', 'gm')]
    for i, x in enumerate(a):
        ob(f'announcement {i} is hashed', x in seen, f'hashed: {seen}')
    ob('C is hashed', C_ in seen, f'hashed: {seen}')
    ob('D is hashed', D in seen, f'hashed: {seen}')
    extra = [x for x in seen if x not in a and x not in (C_, D)] + \
        [str(ATOMS[x]) for x in deps(v) if ATOMS[x].kind == 'var']
    ob('nothing else is hashed', not extra, f'{extra}')


contract(UT + 'HashSet', 'a C D', modes=['group'], recv='', apply=groupmode(hash_apply), post=hash_post)(lambda c: None)


def hashul_variants(V, con, f):
    for n in (0, 1, 2, 5):
        yield f'{n} announcements', lambda ex, st, n=n: [
            build(ex, st, f['params'][0]['t'], [f'a{i}' for i in range(n)]), mkgrp(ex, st, BN + 'G2', 'C'), mkgrp(ex, st, BN + 'G2', 'D')]
    yield 'no announcements (nil)', lambda ex, st: [NIL, mkgrp(ex, st, BN + 'G2', 'C'), mkgrp(ex, st, BN + 'G2', 'D')]


contract(UT + 'Hash', 'a C D', modes=['group'], variants=hashul_variants, apply=groupmode(hash_apply), post=hash_post)(lambda c: None)


# ---------------------------------------------------------------- the public parameters
class SigMap:
    """a map from signed elements to their signatures under the key k; only its lookups are known.
    member(ex, st, key) -> the element as an integer, or None when the key is not in the map"""

    def __init__(self, k, member, u=None):
        self.k, self.member, self.u = k, member, u

    def get(self, ex, st, key):
        x = self.member(ex, st, key)
        if x is None:
            return None, False
        for q, r in self.seen(st):
            if q == x:          # equal digits at other places: another object, which nothing may change either
                return r, True
        if st.facts.decide(cong0(x + self.k, ORDER)) is not False:
            if not st.assume(cong0(x + self.k, ORDER), False):     # the element has a signature
                raise Infeasible()
        r = mkgrp(ex, st, BN + 'G2', signature(x, self.k))
        st.notes.append(('sig', (self, x, r)))
        return r, True

    def seen(self, st):
        return [m[1:] for k, m in st.notes if k == 'sig' and m[0] is self]

    def set(self, ex, st, k, v):
        raise Unsupported('writing to the signatures')


def sigmap(member):
    def mk(ex, st):
        return Ref(st.new(('map', None), SigMap(var('privk', 0, ORDER - 1), member)))
    return mk


def only(x, present):
    def member(ex, st, key):
        if not isinstance(key, Poly) or st.facts.decide(eq0(key - x)) is not True:
            raise Unsupported('lookup of another element')
        return x if present else None
    return member


def digit(u):
    """the map of SetupUL: the decimal strings of 0, ..., u-1"""
    def member(ex, st, key):
        if not isinstance(key, Str):
            raise Unsupported('key')
        s = key.lit_()
        if s is not None:
            if not (s.isdigit() and str(int(s)).encode() == s):
                return None
            d = const(int(s))
        elif len(key.p) == 1 and key.p[0][0] == 'dec':
            d = key.p[0][1]
        else:
            raise Unsupported('key')
        return d if L.dec(st, and_(ge0(d), lt0(d - u))) else None
    return member


def setparams(member=None):
    k = var('privk', 0, ORDER - 1)
    return {'H': 'H', 'kp': {'Privk': k, 'Pubk': G1g.mul(k)}, 'signatures': sigmap(member) if member else NIL}


def opened(ob, x, d, fs, par, ex, i=''):
    """the draws behind one announcement: V = sig^v, a = e(G1, V)^-s e(G1, G2)^t"""
    def among(g):
        at = set()
        for q in g.t.values():
            at |= deps(q)
        return [q for q, _, _ in fs.draws if q.atoms() <= at]
    k = par['kp']['Privk']
    sig = signature(x, k)
    vs = [q for q in among(d['V']) if same(d['V'], sig.mul(q), fs.facts)]
    ob(f'C22 V{i} is the signature blinded by a draw', len(vs) == 1, f"V is {d['V']}")
    if len(vs) != 1:
        return None
    v = vs[0]
    draws = among(d['a'])
    for s in draws:
        t = d['a'] + pair(G1g, d['V']).mul(s)
        for q in draws:
            if q != s and same(t, E_.mul(q), fs.facts):
                return {'v': v, 's': s, 't': q}
    ob(f'C22 a{i} is masked by draws', False, f"a is {d['a']}")
    return None


def kept(ob, c, m, fs, tag):
    """the signatures of the public parameters are what they were"""
    for x, r in m.seen(fs):
        g = Ctx(c.ex, fs, c.con, c.args, 'verify').look(r)
        ob(tag + 'the signatures in the parameters are unchanged', g is not None and same(g, signature(x, m.k), fs.facts), f'signature of {x} is {g}')


def masks(ob, ex, fs, used):
    """every blinding value is a draw of its own, uniform, from the system source"""
    idx = {n: atom_of(q, fs.draws) for n, q in used.items()}
    two = [n for n, i in idx.items() if list(idx.values()).count(i) > 1]
    ob('C22 every blinding value is a draw of its own', not two, f'the same draw is used for {two}')
    for n, i in idx.items():
        ob('C22 every blinding value is a value drawn at random', i is not None, n)
        if i is not None:
            _, rd, m = fs.draws[i]
            ob('C22 draws are uniform over the scalar field', m == const(ORDER), f'{n}: bound {m}')
            ob('C22 draws come from the system source', system_reader(ex, fs, rd), f'{n}: {rd}')


def modorder(v):
    m = ModN(v)
    m.n = ORDER
    return m


def leaks(d, secrets, facts):
    return published(d, secrets, facts, n=ORDER)


# ---------------------------------------------------------------- set membership
def set_equations(c, d, H, y):
    """the verifier's equations: challenge, opening, pairing"""
    h = hash_value([d['a']], d['C'], d['D'])
    e = mkmod(h, ORDER)
    e1 = d['C'].mul(e) + H.mul(d['zr']) + G2g.mul(d['zsig']) - d['D']
    e2 = pair(y, d['V']).mul(e) - pair(G1g, d['V']).mul(d['zsig']) + E_.mul(d['zv']) - d['a']
    return and_(eq0(e - d['c']), e1.is_zero_cond(), e2.is_zero_cond())


SETPROOF = {'V': 'V', 'D': 'D', 'C': 'C', 'a': 'a'}


def verifyset_variants(V, con, f):
    def mk(ex, st, y=None):
        d = dict(SETPROOF)
        for n in ('zsig', 'zv', 'c', 'zr'):
            d[n] = var(n)
        p = setparams()
        p['kp'] = {'Pubk': 'y'}
        return [build(ex, st, f['params'][0]['t'], d), build(ex, st, f['params'][1]['t'], p)]
    yield 'any proof', mk


def complete(d, names):
    return all(d.get(n) is not None for n in names)


@contract(CC + 'VerifySet', 'proof_out p', modes=['group'], variants=verifyset_variants)
def _(c):
    d, p = c.tree('proof_out'), c.tree('p')
    if not complete(d, ('V', 'D', 'C', 'a', 'zsig', 'zv', 'c', 'zr')) or p['H'] is None or p['kp']['Pubk'] is None:
        raise NotApplicable('incomplete proof')
    c.ret(set_equations(c, d, p['H'], p['kp']['Pubk']), NIL)


def proveset_variants(V, con, f):
    def mk(present):
        def go(ex, st):
            x = var('x', -(1 << 63), (1 << 63) - 1)
            return [x, mkbig(ex, st, 'r'), build(ex, st, f['params'][2]['t'], setparams(only(x, present)))]
        return go
    yield 'a member', mk(True)
    yield 'not a member', mk(False)


def proveset_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    x, rr, par = c0.ref['x'], c0.r, c0.tree('p')
    sm = ent.heap[par['signatures'].o][1]
    present = sm.member(ex, ent, x) is not None
    kept(ob, c, sm, fs, 'C08 ')
    if not present:
        return ob('C08 an error for an element outside the set', isinstance(r[1], Ifc), f'error is {r[1]}')
    ob('C08 no error for an element of the set', r[1] is NIL, f'error is {r[1]}')
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    need = ('V', 'D', 'C', 'a', 'zsig', 'zv', 'c', 'zr')
    if not complete(d, need):
        return ob('C08 the proof is complete', False, 'missing: ' + ', '.join(n for n in need if d[n] is None))
    ob('C08 the commitment is to the element', same(d['C'], G2g.mul(x) + par['H'].mul(rr), fs.facts), f"{d['C']}")
    o = opened(ob, x, d, fs, par, ex)
    if o:
        o['m'] = d['D'].t.get('H', ZERO)
        ob('C22 D is masked by draws', same(d['D'], G2g.mul(o['s']) + par['H'].mul(o['m']), fs.facts), f"{d['D']}")
        masks(ob, ex, fs, o)
        e = hash_value([d['a']], d['C'], d['D'])
        w = differ(d, {'zr': modorder(o['m'] - rr * e), 'zsig': modorder(o['s'] - x * e), 'zv': modorder(o['t'] - o['v'] * e)}, fs.facts, 'proof')
        ob('C22 the responses are masked by their own draws', not w, '; '.join(w)[:300])
        reduced(ob, d, ('zr', 'zsig', 'zv'), ORDER, fs.facts)
    w = leaks(d, [q for q, _, _ in fs.draws] + [x, rr], fs.facts)
    ob('C22 the proof holds no nonce and no secret', not w, '; '.join(w)[:300])
    if getattr(V, 'prop', None) == 'C22':
        return
    s2 = fs.fork()
    pp = Ref(s2.new(ex.P.under(ex.P.funcs[CC + 'VerifySet']['params'][0]['t'])['elem'], r[0]))
    qq = Ref(s2.new(ex.P.under(ex.P.funcs[CC + 'VerifySet']['params'][1]['t'])['elem'], c.args[2]))
    ans = ex.call(s2, CC + 'VerifySet', [pp, qq])
    for s3, v in ans:
        ob('C08 the proof is accepted', not isinstance(v, PanicV) and s3.facts.decide(v[0]) is True, f'verdict: {v}'[:600])
    ob('C08 the verifier answers', len(ans) > 0)


@contract(CC + 'ProveSet', 'x r p', modes=['group'], variants=proveset_variants, post=proveset_post, shares=True,
          apply=lambda con, ex, st, args: None)
def _(c):
    pass


# ---------------------------------------------------------------- setup
H_EXP = 18560948149108576432482904553159745978835170526553990798435819795989606410925


def setup_post(c, ent, fs, r, ob, key, n, extra):
    ex = c.ex
    ob('no error', r[1] is NIL, f'{r[1]}')
    setup_check(ex, deep(ex, fs, r[0], rtypes(ex, c.con.name)[0]), ent, fs, ob, key, n, extra)


def setup_check(ex, d, ent, fs, ob, key, n, extra):
    k = d['kp']['Privk']
    if k is None or d['kp']['Pubk'] is None or d['H'] is None or not isinstance(d['signatures'], Ref):
        return ob('the parameters are complete', False, f'{d}')
    drawn(ob, ex, fs, k, 'private key: ')
    ob('the public key belongs to the private key', same(d['kp']['Pubk'], G1g.mul(k), fs.facts), f"{d['kp']['Pubk']}")
    ob('H is an element other than infinity', fs.facts.decide(d['H'].is_zero_cond()) is False, f"{d['H']}")
    w = differ(d, extra, fs.facts, 'parameters')
    ob('the sizes are those given', not w, '; '.join(w))
    m = fs.heap[d['signatures'].o][1]
    ob('the map is new', d['signatures'].o not in ent.heap)
    if isinstance(m, SigMap):
        return ob('every digit has its signature', m.u is not None and m.k == k and fs.facts.decide(eq0(m.u - n)) is True, f'{m.u}, expected {n}')
    if isinstance(m, MapV):
        cnt = n.const()
        if cnt is None:
            if fs.facts.decide(eq0(n)) is True or fs.facts.decide(lt0(n)) is True:
                cnt = 0
            else:
                raise Unsupported('number of elements')
        ks = [A.map_key(q) for q, _ in m.e]
        for i in range(max(cnt, 0)):
            want = key(const(i))
            hit = [v for q, (_, v) in zip(ks, m.e) if q and q[0] == want[0] and fs.facts.decide(eq0(q[1] - want[1])) is True]
            g = A.map_val(fs, hit[0]) if hit else None
            ob('every element has its signature', g is not None and same(g, signature(want[1], k), fs.facts), f'element {want[1]}: {g}')
        for q in ks:
            ok = q and any(fs.facts.decide(eq0(q[1] - key(const(i))[1])) is True for i in range(max(cnt, 0)))
            ob('nothing else is signed', ok, f'{q}')
        return
    if not isinstance(m, A.SymMap) or m.w or m.val is A.HAV:
        ob('every element has its signature', False, f'{m}', ('h!',) if isinstance(m, A.SymMap) else ())
        return
    F = fs.facts.fork()
    empty = F.decide(lt0(n)) is True
    ob('every element is signed', F.decide(eq0(m.k - (ZERO if empty else n))) is True, f'{m.k}, expected {n}', (m.k,))
    F.add(ge0(n - 1 - A.JV), True)
    want = key(A.JV)
    if F.decide(eq0(m.k - n)) is True and F.decide(eq0(m.key[1] - want[1])) is not True:      # the last one first
        back = [A.inst(t, n - 1 - A.JV) for t in (m.key[1], m.val)]
        if F.decide(eq0(back[0] - want[1])) is True:
            m = A.SymMap(m.k, (m.key[0], back[0]), back[1])
    ob('the keys are the elements', m.key[0] == want[0] and F.decide(eq0(m.key[1] - want[1])) is True, f'{m.key}, expected {want}')
    s2 = fs.fork()
    F.add(cong0(want[1] + k, ORDER), False)
    ob('every element has its signature', same(m.val, signature(want[1], k), F), f'{m.val}')


def setupset_variants(V, con, f):
    et = V.prog.under(f['params'][0]['t'])['elem']

    def sym(ex, st):
        ex.signable = True
        return [A.param(ex, st, 's', et, var('len:s', 1, 1 << 40), 'int64')]
    yield 'any elements', sym
    yield 'no elements', lambda ex, st: [NIL]


def setupset_post(V, c, ent, fs, r, ob):
    if c.args[0] is NIL:
        return setup_post(c, ent, fs, r, ob, lambda i: ('int', ZERO), ZERO, {})
    c0 = Ctx(c.ex, ent, c.con, c.args, 'verify')
    v = c0.view('s')
    setup_post(c, ent, fs, r, ob, lambda i: ('int', v.at(i)), v.n, {})


contract(CC + 'SetupSet', 's', modes=['group'], variants=setupset_variants, post=setupset_post, shares=True,
         apply=lambda con, ex, st, args: None)(lambda c: None)


def setupul_variants(V, con, f):
    def sym(ex, st):
        ex.signable = True
        return [var('u', 0, (1 << 63) - 1), var('l', -(1 << 63), (1 << 63) - 1)]
    yield 'any u >= 0 and l', sym


def setupul_post(V, c, ent, fs, r, ob):
    u, l = c.args
    setup_post(c, ent, fs, r, ob, lambda i: ('dec', i), u, {'u': u, 'l': l})


def setupul_apply(con, ex, st, args):
    """the map itself stays opaque"""
    if not ex.group:
        return None
    u, l = args
    k = fresh('rand', 0, ORDER - 1)
    o = ex.global_oid(st, 'crypto/rand.Reader', ex.P.globals.get('crypto/rand.Reader', {}).get('t', ex.P.tid.get('*io.Reader')))
    st.draws.append((k, st.heap[o][1], const(ORDER)))
    p = {'kp': {'Privk': k, 'Pubk': G1g.mul(k)}, 'H': G2g.mul(H_EXP), 'u': u, 'l': l,
         'signatures': lambda ex, st: Ref(st.new(('map', None), SigMap(k, digit(u), u)))}
    return [(st, (build(ex, st, rtypes(ex, con.name)[0], p), NIL))]


contract(CC + 'SetupUL', 'u l', modes=['group'], variants=setupul_variants, post=setupul_post, shares=True,
         apply=setupul_apply)(lambda c: None)


# ---------------------------------------------------------------- range [0, u^l)
ULS = tuple(range(0, 12)) + (16, 32, 63)


def ulparams(u, l, member):
    p = setparams(member)
    p['u'], p['l'] = u, const(l)
    return p


def ul_equations(d, H, y, u, l):
    h = hash_value(d['a'], d['C'], d['D'])
    e = mkmod(h, ORDER)
    e1 = d['C'].mul(e) + H.mul(d['zr']) - d['D']
    cs = [eq0(e - d['c'])]
    for i in range(l):
        e1 = e1 + G2g.mul(d['zsig'][i] * u ** i)
    cs.append(e1.is_zero_cond())
    for i in range(l):
        V_ = d['V'][i]
        e2 = pair(y, V_).mul(e) - pair(G1g, V_).mul(d['zsig'][i]) + E_.mul(d['zv'][i]) - d['a'][i]
        cs.append(e2.is_zero_cond())
    return and_(*cs)


def verifyul_variants(V, con, f):
    def mk(l):
        def go(ex, st):
            u = var('u', 2, (1 << 63) - 1)
            d = {'V': [f'V{i}' for i in range(l)], 'a': [f'a{i}' for i in range(l)], 'D': 'D', 'C': 'C',
                 'zsig': [var(f'zsig{i}') for i in range(l)], 'zv': [var(f'zv{i}') for i in range(l)], 'c': var('c'), 'zr': var('zr')}
            p = ulparams(u, l, None)
            p['kp'] = {'Pubk': 'y'}
            return [build(ex, st, f['params'][0]['t'], d), build(ex, st, f['params'][1]['t'], p)]
        return go
    for l in ULS:
        yield f'any proof, l={l}', mk(l)


@contract(CC + 'VerifyUL', 'proof_out p', modes=['group'], variants=verifyul_variants)
def _(c):
    d, p = c.tree('proof_out'), c.tree('p')
    l = p['l'].const()
    if l is None or not complete(d, ('D', 'C', 'c', 'zr')) or p['H'] is None or p['kp']['Pubk'] is None \
            or any(not isinstance(d[n], list) or len(d[n]) < l or None in d[n][:l] for n in ('V', 'a', 'zsig', 'zv')) or len(d['a']) != l:
        raise NotApplicable('incomplete proof')
    c.ret(ul_equations(d, p['H'], p['kp']['Pubk'], p['u'], l), NIL)


def proveul_variants(V, con, f):
    def mk(l, inside):
        def go(ex, st):
            u, x = var('u', 2, (1 << 63) - 1), var('x')
            q = A.mkidiv(x, u, const(l))         # x lies in [0, u^l) iff the quotient by u^l is 0
            if inside:
                st.assume(eq0(q), True)
            else:
                st.assume(eq0(q), False)
                st.assume(cong0(q * u ** l, ORDER), False)
            return [mkbig(ex, st, x), mkbig(ex, st, 'r'), build(ex, st, f['params'][2]['t'], ulparams(u, l, digit(u)))]
        return go
    for l in ULS:
        for inside in (True, False):
            yield f'l={l}, secret {"in" if inside else "outside"} the range', mk(l, inside)


def proveul_post(V, c, ent, fs, r, ob):
    ex = c.ex
    c0 = Ctx(ex, ent, c.con, c.args, 'verify')
    x, rr, par = c0.x, c0.r, c0.tree('p')
    u, l = par['u'], par['l'].const()
    inside = fs.facts.decide(eq0(A.mkidiv(x, u, const(l)))) is True
    kept(ob, c, ent.heap[par['signatures'].o][1], fs, 'C09 ')
    if isinstance(r[1], Ifc):
        return ob('C09 no error for a secret in the range', not inside, 'error')
    d = deep(ex, fs, r[0], rtypes(ex, c.con.name)[0])
    need = ('D', 'C', 'c', 'zr')
    if not complete(d, need) or any(len(d[n]) != l or None in d[n] for n in ('V', 'a', 'zsig', 'zv')):
        return ob('C09 the proof is complete', not inside, f'{d}')
    ob('C09 the commitment is to the secret', same(d['C'], G2g.mul(x) + par['H'].mul(rr), fs.facts), f"{d['C']}")
    dig = [A.mkidiv(x, u, const(i)) - u * A.mkidiv(x, u, const(i + 1)) for i in range(l)]
    e = hash_value(d['a'], d['C'], d['D'])
    used = {'m': d['D'].t.get('H', ZERO)}
    want = {'zr': modorder(used['m'] - rr * e), 'zsig': [], 'zv': []}
    Dw = par['H'].mul(used['m'])
    ok = True
    for i in range(l):
        o = opened(ob, dig[i], {'V': d['V'][i], 'a': d['a'][i]}, fs, par, ex, i)
        if o is None:
            ok = False
            continue
        for n, q in o.items():
            used[n + str(i)] = q
        Dw = Dw + G2g.mul(o['s'] * u ** i)
        want['zsig'].append(modorder(o['s'] - dig[i] * e))
        want['zv'].append(modorder(o['t'] - o['v'] * e))
    if ok:
        ob('C22 D is masked by draws', same(d['D'], Dw, fs.facts), f"{d['D']}")
        masks(ob, ex, fs, used)
        w = differ(d, want, fs.facts, 'proof')
        ob('C22 the responses are masked by their own draws', not w, '; '.join(w)[:300])
        reduced(ob, d, ('zr', 'zsig', 'zv'), ORDER, fs.facts)
    w = leaks(d, [q for q, _, _ in fs.draws] + [x, rr] + dig, fs.facts)
    ob('C22 the proof holds no nonce and no secret', not w, '; '.join(w)[:300])
    if getattr(V, 'prop', None) == 'C22':
        return
    s2 = fs.fork()
    pp = Ref(s2.new(ex.P.under(ex.P.funcs[CC + 'VerifyUL']['params'][0]['t'])['elem'], r[0]))
    qq = Ref(s2.new(ex.P.under(ex.P.funcs[CC + 'VerifyUL']['params'][1]['t'])['elem'], c.args[2]))
    ans = ex.call(s2, CC + 'VerifyUL', [pp, qq])
    for s3, v in ans:
        ob(f'C09 the proof is {"accepted" if inside else "rejected"}',
           not isinstance(v, PanicV) and s3.facts.decide(v[0]) is inside, f'verdict: {v}'[:600])
    ob('C09 the verifier answers', len(ans) > 0)


contract(CC + 'ProveUL', 'x r p', modes=['group'], variants=proveul_variants, post=proveul_post, shares=True,
         apply=lambda con, ex, st, args: None)(lambda c: None)


# ---------------------------------------------------------------- range [a, b)
W = f'(*{CC}ccs08).'
I64 = (-(1 << 63), (1 << 63) - 1)


def obj(ex, st, d):
    return build(ex, st, ex.P.tid['*' + CC + 'ccs08'], d)


def wsetup_variants(V, con, f):
    def mk(ex, st):
        ex.signable = True
        ex.loophook = None                       # the loop over the digits is unrolled: 64 bits end after 11 rounds
        return [obj(ex, st, {'x': 'x', 'r': 'r'}), var('a', *I64), var('b', *I64)]
    yield 'any bounds', mk


def wsetup_post(V, c, ent, fs, r, ob):
    ex = c.ex
    a, b = c.args[1:]
    d = deep(ex, fs, c.args[0], ex.P.tid['*' + CC + 'ccs08'])
    F = fs.facts
    if F.decide(lt0(b - a)) is not False:
        ob('a > b is refused', isinstance(r, Ifc) and F.decide(lt0(b - a)) is True, f'error is {r}')
        return
    if isinstance(r, Ifc):
        # b = 1 is the one other refusal
        return ob('no error when a <= b', F.decide(eq0(b - 1)) is True, f'error is {r}')
    if d['p'] is None or d['p']['p'] is None:
        return ob('the parameters are complete', False)
    p = d['p']['p']
    w = differ(d['p'], {'a': a, 'b': b}, F, 'parameters')
    ob('the bounds are those given', not w, '; '.join(w))
    u, l = p['u'], p['l'].const()
    ob('the base is at least two', F.decide(lt0(u - 2)) is False, f'{u}')
    if l is None:
        # a number of digits the loop left unknown
        ob('the digits cover the interval', F.decide(eq0(A.mkidiv(b - a, u, p['l']))) is True, f"b - a against {u} ** {p['l']}",
           (A.mkidiv(b - a, u, p['l']),))
    else:
        ob('the number of digits is not negative', l >= 0, f'{l}')
        ob('the digits cover the interval', l >= 0 and F.decide(lt0(u ** l - (b - a))) is False, f'b - a against {u} ** {l}')
        ob('the number of digits is at most 11', l <= 11, f'{l}', ('h!',))
    setup_check(ex, p, ent, fs, ob, lambda i: ('dec', i), u, {})


contract(W + 'Setup', 'zkrp a b', modes=['group'], variants=wsetup_variants, post=wsetup_post, shares=True, recv='',
         writes=('zkrp',), apply=lambda con, ex, st, args: None)(lambda c: None)


def wprove_variants(V, con, f):
    def mk(l, in1, in2, again=False):
        def go(ex, st):
            u, x, a, b = var('u', 2, I64[1]), var('x'), var('a', *I64), var('b', *I64)
            st.assume(lt0(b - a), False)
            for y, inside in ((x - b + u ** l, in1), (x - a, in2)):
                q = A.mkidiv(y, u, const(l))
                st.assume(eq0(q), inside)
                if not inside:
                    st.assume(cong0(q * u ** l, ORDER), False)
            par = ulparams(u, l, digit(u))
            old = {'proof_out': {'p1': ulproof(l, "'"), 'p2': ulproof(l, "''")}} if again else {}
            return [obj(ex, st, {'x': x, 'r': 'r', 'p': {'a': a, 'b': b, 'p': par}, **old})]
        return go
    for l in (1, 2):                # the object holds an earlier proof
        yield f'l={l}, a <= secret < b, again', mk(l, True, True, True)
        yield f'l={l}, secret not below b, again', mk(l, False, True, True)
        yield f'l={l}, secret below a, again', mk(l, True, False, True)
        yield f'l={l}, secret far from the interval, again', mk(l, False, False, True)
    for l in WLS:
        yield f'l={l}, a <= secret < b', mk(l, True, True)
        yield f'l={l}, secret not below b', mk(l, False, True)
        yield f'l={l}, secret below a', mk(l, True, False)
        yield f'l={l}, secret far from the interval', mk(l, False, False)


WLS = tuple(range(0, 12))


def wprove_nonces(ex, c, e, fs, ob):
    """C22: the two proofs do not share a nonce"""
    d = deep(ex, fs, c.args[0], ex.P.tid['*' + CC + 'ccs08'])['proof_out']
    par, x = e['p']['p'], e['x']
    u, l = par['u'], par['l'].const()
    used = {}
    for n, y in (('p1', x - e['p']['b'] + u ** l), ('p2', x - e['p']['a'])):
        q = d[n]
        if not complete(q, ('D', 'C', 'c', 'zr')) or any(len(q[f]) != l or None in q[f] for f in ('V', 'a', 'zsig', 'zv')):
            return ob('C22 the proof is complete', False, f'{d}')
        used[n + '.m'] = q['D'].t.get('H', ZERO)
        for i in range(l):
            dig = A.mkidiv(y, u, const(i)) - u * A.mkidiv(y, u, const(i + 1))
            o = opened(ob, dig, {'V': q['V'][i], 'a': q['a'][i]}, fs, par, ex, i)
            for k, v in (o or {}).items():
                used[f'{n}.{k}{i}'] = v
        w = leaks(q, [v for v, _, _ in fs.draws] + [y, e['r']], fs.facts)
        ob('C22 the proof holds no nonce and no secret', not w, '; '.join(w)[:300])
    masks(ob, ex, fs, used)


def wprove_post(V, c, ent, fs, r, ob):
    ex = c.ex
    t = ex.P.tid['*' + CC + 'ccs08']
    e = deep(ex, ent, c.args[0], t)
    if getattr(V, 'prop', None) == 'C22':
        return wprove_nonces(ex, c, e, fs, ob) if r is NIL else None
    u, l, a, b, x = e['p']['p']['u'], e['p']['p']['l'].const(), e['p']['a'], e['p']['b'], e['x']
    inside = all(fs.facts.decide(eq0(A.mkidiv(y, u, const(l)))) is True for y in (x - b + u ** l, x - a))
    if isinstance(r, Ifc):
        return ob('no error for a secret in the interval', not inside, 'error')
    d = deep(ex, fs, c.args[0], t)['proof_out']
    for n, y in (('p1', x - b + u ** l), ('p2', x - a)):
        if d[n]['C'] is None:
            return ob('the proof is complete', False, f'{d}')
        ob(f'{n}: the commitment is to the shifted secret', same(d[n]['C'], G2g.mul(y) + e['p']['p']['H'].mul(e['r']), fs.facts), f"{d[n]['C']}")
    ans = ex.call(fs.fork(), W + 'Verify', [c.args[0]])
    for s3, v in ans:
        ob(f'the proof is {"accepted" if inside else "rejected"}',
           not isinstance(v, PanicV) and s3.facts.decide(v[0]) is inside, f'verdict: {v}'[:600])
    ob('the verifier answers', len(ans) > 0)


contract(W + 'Prove', 'zkrp', modes=['group'], variants=wprove_variants, post=wprove_post, shares=True, recv='', writes=('zkrp',),
         apply=lambda con, ex, st, args: None)(lambda c: None)


def ulproof(l, s):
    return {'V': [f'V{i}{s}' for i in range(l)], 'a': [f'a{i}{s}' for i in range(l)], 'D': 'D' + s, 'C': 'C' + s,
            'zsig': [var(f'zsig{i}{s}') for i in range(l)], 'zv': [var(f'zv{i}{s}') for i in range(l)], 'c': var('c' + s), 'zr': var('zr' + s)}


def wverify_variants(V, con, f):
    def mk(l):
        def go(ex, st):
            p = ulparams(var('u', 2, I64[1]), l, None)
            p['kp'] = {'Pubk': 'y'}
            return [obj(ex, st, {'p': {'a': var('a', *I64), 'b': var('b', *I64), 'p': p},
                                 'proof_out': {'p1': ulproof(l, "'"), 'p2': ulproof(l, "''")}})]
        return go
    for l in WLS:
        yield f'any proof, l={l}', mk(l)


@contract(W + 'Verify', 'zkrp', modes=['group'], variants=wverify_variants, recv='')
def _(c):
    d = c.tree('zkrp')
    p, l = d['p']['p'], d['p']['p']['l'].const()
    c.ret(and_(*[ul_equations(d['proof_out'][n], p['H'], p['kp']['Pubk'], p['u'], l) for n in ('p1', 'p2')]), NIL)


def interval_goal(V, rep):
    """x lies in [a, b) iff both shifted values lie in [0, U), when b - a <= U; and a shifted value outside is not
    congruent to one inside, for secrets below half the order"""
    import z3
    x, a, b, U, q, y = z3.Ints('x a b U q y')
    s = z3.Solver()
    s.add(a <= b, b - a <= U, U >= 1)
    s.add(z3.And(0 <= x - b + U, x - b + U < U, 0 <= x - a, x - a < U) != z3.And(a <= x, x < b))
    rep.add('interval', 'x in [a, b) iff both shifted secrets are in [0, u^l)', 'proved' if s.check() == z3.unsat else 'failed')
    s = z3.Solver()
    h = ORDER // 2
    B = (1 << 63)
    qU, r = z3.Ints('qU r')                     # y = q U + r, qU a multiple of U
    s.add(U >= 1, U < ORDER // 8, -h < x, x < h, -B <= a, a < B, -B <= b, b < B, z3.Or(y == x - b + U, y == x - a, y == x))
    s.add(y == qU + r, 0 <= r, r < U, qU != 0)
    k = z3.Int('k')
    s.add(qU == k * ORDER)
    rep.add('interval', 'the quotient part of a secret outside is not a multiple of the order', 'proved' if s.check() == z3.unsat else 'failed')
