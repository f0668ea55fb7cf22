"""Loops of unknown length: inductive invariants found by guess and check.

For a loop whose condition depends on an unknown, the values of the objects and
variables the body changes are described by candidate formulas in the number of
iterations kappa (and the loop counters).  A formula is kept only if it holds on
entry and is preserved by one execution of the body from an arbitrary state in
which the kept formulas hold; everything else that the body changes is forgotten.
The code after the loop is executed from the resulting arbitrary state."""
import itertools

from terms import *
import terms as Tm
from logic import *
from exec import *
import arrays as A

P256T = A.NP256


class Ptr:
    """the contents of the object a variable points to"""
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.t == o.t and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Arr:
    """a slice that is nil before the loop and that the loop appends to: an array of its own"""
    __slots__ = ('et', 'a')

    def __init__(self, et, a):
        self.et, self.a = et, a

    def __eq__(self, o):
        return isinstance(o, Arr) and self.et == o.et and self.a == o.a

    def __hash__(self):
        return hash(self.et)


def asge(v):
    """the group element a P256 struct holds"""
    if v == (NIL, NIL):
        return gzero('secp')
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(q, Coord) for q in v) and v[0].g == v[1].g \
            and (v[0].i, v[1].i) == (0, 1):
        return v[0].g
    return None


def ofge(g):
    return (Coord(g, 0), Coord(g, 1))


# ---------------------------------------------------------------- bit terms
def shr(s, e):
    """floor(s / 2^e)"""
    s, e = P_(s), P_(e)
    ce, cs = e.const(), s.const()
    if ce is not None and cs is not None:
        return const(cs >> ce if ce >= 0 else cs << -ce)
    if ce == 0:
        return s
    d = e - bl(s)
    c = d.const()
    lo, hi = interval(s)
    if c is not None and c >= 0 and lo is not None and lo >= 0:
        return ZERO
    return app('shr', (s, e), 0 if lo is not None and lo >= 0 else None, hi if hi is not None and hi >= 0 else None)


def bl(s):
    import lib
    c = s.const()
    return const(abs(c).bit_length()) if c is not None else lib.bitlen(s)


def bitat(s, e):
    ce, cs = e.const(), s.const()
    if ce is not None and cs is not None:
        return const((cs >> ce) & 1)
    a = app('bitat', (s, e), 0, 1)
    return a


def pow2(e):
    c = e.const()
    return const(1 << c) if c is not None and c >= 0 else app('pow2', (e,), 1, None)


Tm.SIMP['shr'] = shr
Tm.SIMP['bitat'] = bitat
Tm.SIMP['pow2'] = pow2


def expand(p):
    """rewrite shr and pow2 terms with exponents that differ by a constant to a
    common exponent"""
    for _ in range(40):
        g = {}
        for a in p.atoms():
            at = ATOMS[a]
            if at.kind == 'app' and at.data[0] in ('shr', 'pow2'):
                g.setdefault((at.data[0], at.data[1][:-1]), []).append((a, at.data[1][-1]))
        done = True
        for (k, s), l in g.items():
            for (a, e1), (b, e2) in itertools.permutations(l, 2):
                c = (e2 - e1).const()
                if c is None or not 0 < c <= 300:
                    continue
                if k == 'shr':
                    s0 = s[0]
                    r = from_atom(ATOMS[b]) * (1 << c)
                    for j in range(c):
                        r = r + bitat(s0, e1 + j) * (1 << j)
                    p = Tm.subst1(p, a, r)
                else:
                    p = Tm.subst1(p, b, from_atom(ATOMS[a]) * (1 << c))
                done = False
                break
            if not done:
                break
        if done:
            return p
    return p


# shr(s, 0) next to shr(s, e): the number itself
def bits_equal(p, facts, m=None):
    """p is zero (modulo m), using the facts and the meaning of bits"""
    p = facts.sub(p)
    p = facts.sub(expand(p))
    if (zero_mod(p, m) if m is not None else facts.decide(eq0(p)) is True):
        return True
    for at in deps(p):
        at = ATOMS[at]
        if at.kind == 'app' and at.data[0] == 'ipow':
            # x^(k - c) for k >= c: in terms of k - c
            u = at.data[1][1]
            c, r = u.t.get((), 0), [(mo, d) for mo, d in u.t.items() if mo]
            if c < 0 and len(r) == 1 and r[0][1] == 1 and len(r[0][0]) == 1 and r[0][0][0][1] == 1 \
                    and facts.decide(ge0(u)) is True:
                q = subst(p, {r[0][0][0][0]: fresh('k', 0) - c})
                return zero_mod(q, m) if m is not None else q == ZERO or facts.decide(eq0(q)) is True
    return False


def ge_same(a, b, facts):
    d = (a - b).subst(facts.sub)
    n = ORD[d.g]
    return all(bits_equal(c, facts, n) for c in d.t.values())


# ---------------------------------------------------------------- loop shape
_loops = {}


def loops_of(f):
    """header -> set of blocks of the natural loop"""
    k = id(f)
    if k in _loops:
        return _loops[k]
    bm = f['bmap']
    entry = f['blocks'][0]['i']
    dom = {b: set(bm) for b in bm}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in bm:
            if b == entry:
                continue
            ps = [p for p in bm[b]['preds'] if p in bm]
            n = set.intersection(*(dom[p] for p in ps)) if ps else set()
            n = n | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    out = {}
    for b in bm:
        for s in bm[b]['succs']:
            if s in dom[b]:
                body = out.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo.extend(bm[x]['preds'])
    _loops[k] = out
    return out


def symbolic_header(ex, st, f, b, body, pred, regs):
    """the loop condition depends on unknown values"""
    blk = f['bmap'][b]
    t = blk['ins'][-1]
    if t['op'] != 'If' or all(s in body for s in blk['succs']):
        return True
    g = eval_header(ex, st, f, b, pred, regs)
    n = t['x'].get('n')
    if not any(i['op'] == 'Phi' for i in blk['ins']) and any(
            i['op'] == 'BinOp' and i['n'] == n and (i['x']['k'] == 'const' or i['y']['k'] == 'const') and g.get(n) in (True, False)
            and any(ex_val(ex, st, g, i[q]) is NIL for q in 'xy') for i in blk['ins']):
        return True         # nothing is counted: a loop that tries again
    for i in blk['ins']:
        if i['op'] == 'BinOp' and i['n'] == n:
            try:
                x, y = ex.val(st, g, i['x']), ex.val(st, g, i['y'])
            except KeyError:
                return True
            if isinstance(x, Poly) and isinstance(y, Poly):
                return x.const() is None or y.const() is None
    if t['x']['k'] == 'reg' and n not in g:
        return True
    return not isinstance(ex.val(st, g, t['x']), bool)


def ex_val(ex, st, g, x):
    try:
        return ex.val(st, g, x)
    except (KeyError, Unsupported):
        return None


def eval_header(ex, st, f, b, pred, regs):
    """the values computed in the header on entry, as far as they are simple"""
    blk = f['bmap'][b]
    s2 = st.fork()
    g = dict(regs)
    for i in blk['ins']:
        if i['op'] == 'Phi':
            g[i['n']] = ex.val(s2, regs, i['edges'][blk['preds'].index(pred)])
    for i in blk['ins']:
        if i['op'] in ('Phi', 'If', 'Jump'):
            continue
        try:
            if i['op'] == 'Call':
                rs = ex.docall(s2, g, i)
                if len(rs) != 1:
                    continue
                s2, r = rs[0]
                if i.get('n') and not isinstance(r, PanicV):
                    g[i['n']] = r
                continue
            g[i.get('n')] = ex.ins(s2, g, i)
        except (Fork, Panic, Unsupported, KeyError):
            pass
    return g


def hook(ex, st, f, b, pred, regs):
    ls = loops_of(f)
    body = ls.get(b)
    if body is None or pred in body or pred is None:
        return None
    if (f['name'], b) in ex.inloop:
        return None
    if not symbolic_header(ex, st, f, b, body, pred, regs):
        return None
    return summarise(ex, st, f, b, body, pred, regs)


# ---------------------------------------------------------------- candidates
class Cand:
    """a formula for a location, as a function of kappa"""

    def __init__(self, fn, txt):
        self.fn, self.txt = fn, txt


def int_sources(ex, st, regs, mod):
    """integers that could drive a bit loop"""
    out = []
    for o, (t, v) in st.heap.items():
        if o in mod or not isinstance(v, Poly) or v.const() is not None:
            continue
        if o in st.dead:
            continue
        if len(v.t) <= 3 and v not in out:
            out.append(v)
    return out


def ge_sources(ex, st, mod):
    out = []
    for o, (t, v) in st.heap.items():
        if o in mod or o in st.dead:
            continue
        if isinstance(v, Leaf) and isinstance(v.v, GE) and v.v.t and v not in out:
            out.append(v.v)
    return out


def candidates(ex, st, regs, mod, counters, v):
    """candidate formulas for a location with entry value v"""
    K = []
    ss = int_sources(ex, st, regs, mod)[:4]
    out = []
    for s in ss:
        ns = [lambda k, c=c, d=d: c(k) + d for c in counters for d in (0, 1, 2)]
        ns += [lambda k, s=s, d=d: bl(s) - k + d for d in (0, 1)]
        for e in ns:
            K.append(lambda k, s=s, e=e: shr(s, e(k)))
        for c in counters:
            K.append(lambda k, s=s, c=c: s - shr(s, c(k)) * pow2(c(k)))
    for c in counters:
        K.append(lambda k, c=c: pow2(c(k)))
    if isinstance(v, Leaf) and isinstance(v.v, GE):
        gs = ge_sources(ex, st, mod)
        if v.v.t and v.v not in gs:
            gs.append(v.v)
        for g in gs:
            if g.g != v.v.g:
                continue
            for q in K:
                out.append(lambda k, g=g, q=q: Leaf(v.k, g.mul(q(k)), None))
            for q in K:
                out.append(lambda k, g=g, q=q: Leaf(v.k, g.mul(q(k) + 1), None))
                if v.v.t:
                    out.append(lambda k, g=g, q=q: Leaf(v.k, v.v + g.mul(q(k)), None))
    elif isinstance(v, Poly):
        for q in K:
            out.append(q)
    return out


def same_value(a, b, facts, s2=None):
    if a is b or a == b:
        return True
    if a is NIL or b is NIL and not isinstance(a, Arr):
        return False
    if isinstance(a, Arr):
        if b is NIL or isinstance(b, Slc) and facts.decide(eq0(b.ln)) is True:
            return facts.decide(eq0(a.a.n)) is True
        return isinstance(b, Arr) and a.et == b.et and same_value(a.a, b.a, facts, s2)
    if isinstance(a, Slc) and isinstance(b, Slc):
        return (a.o, a.p) == (b.o, b.p) and all(facts.decide(eq0(P_(x) - P_(y))) is True
                                                for x, y in ((a.off, b.off), (a.ln, b.ln), (a.cap, b.cap)))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.t == b.t and same_value(a.v, b.v, facts, s2)
    if isinstance(a, A.SymMap):
        return A.same_map(a, b, facts, s2, lambda x, y: x.same(y) or ge_same(x, y, facts))
    if isinstance(a, A.DownArr) or isinstance(b, A.DownArr):
        return (isinstance(a, (A.SymArr, A.DownArr)) and isinstance(b, (A.SymArr, A.DownArr))
                and A.same_down(a, b, facts, lambda v, t, i: same_elem(s2, v, t, i, facts)))
    if isinstance(a, A.SymArr):
        return A.same_arr(a, b, facts, lambda v, t, i: same_elem(s2, v, t, i, facts))
    if isinstance(a, tuple) and isinstance(b, tuple):
        x, y = asge(a), asge(b)
        return x is not None and y is not None and (x.same(y) or ge_same(x, y, facts))
    if isinstance(a, Leaf) and isinstance(b, Leaf):
        if isinstance(a.v, GE) and isinstance(b.v, GE):
            return a.v.g == b.v.g and ge_same(a.v, b.v, facts)
        return False
    if isinstance(a, Poly) and isinstance(b, Poly):
        return bits_equal(a - b, facts)
    return False


def same_elem(s2, v, t, i, facts):
    if isinstance(v, Poly) and isinstance(t, Poly):
        return bits_equal(v - A.inst(t, i), facts)
    if isinstance(v, Ref) and isinstance(t, A.Obj) and s2 is not None and not v.p:
        w = s2.heap[v.o][1]
        x = A.inst(t.v, i)
        if isinstance(x, GE):
            g = asge(w)
            return g is not None and (g.same(x) or ge_same(g, x, facts))
        return isinstance(w, Poly) and bits_equal(w - x, facts)
    return v == t


def linear(p, a):
    """(A, B) with p = A * atom + B, both without the atom"""
    x, y = {}, {}
    for mo, c in p.t.items():
        d = dict(mo)
        e = d.pop(a, 0)
        r = tuple(sorted(d.items()))
        if e == 0:
            y[mo] = c
        elif e == 1:
            x[mo_without(mo, a)] = c
        else:
            return None
    x, y = Poly(x), Poly(y)
    if a in deps(x) or a in deps(y):
        return None
    return x, y


def mo_without(mo, a):
    return tuple((b, e) for b, e in mo if b != a)


def learned(ex, st, s2, o, v0, h, w, kap, known, extra):
    """formulas suggested by the effect of one iteration: h becomes w"""
    (aK,) = kap.atoms()
    out = []
    J = lambda t: A.abstr(t, aK, ZERO)
    if isinstance(v0, Ptr):
        for c in learned(ex, st, s2, o, v0.v, h.v, w.v, kap, known, extra):
            out.append(lambda k, c=c: Ptr(v0.t, c(k)))
        return out
    if isinstance(w, Arr) and isinstance(h, Arr):
        # one element is appended
        a, n = w.a, h.a.n
        if isinstance(a, A.SymArr) and len(a.w) == 1 and n in a.w and len(n.atoms()) == 1:
            (aN,) = n.atoms()
            t = A.template(s2, a.w[n], aK, A.JV, known, extra)
            ab = lambda x: A.abstr_to(x, aN, A.JV)
            t = A.Obj(t.t, ab(t.v)) if isinstance(t, A.Obj) else ab(t)
            if t is not None:
                tag = next(A._tag)
                out.append(lambda k: Arr(w.et, A.SymArr(w.et, k, k, t, tag)))
        return out
    if isinstance(v0, A.SymArr):
        if isinstance(w, A.SymArr):
            c = A.generalise(ex, st, s2, A.SymArr(v0.et, v0.n, v0.k, v0.t, v0.tag, v0.w), w, kap, known, extra)
            if c:
                out.append(c)
            if len(w.w) == 1:
                # a constant stored where another value is known: perhaps the value plus a constant
                (i, v), = w.w.items()
                for at, r in s2.facts.eqs.items():
                    e = Poly({((at, 1),): 1})
                    if isinstance(v, Poly) and v.const() is not None and r.const() is not None and aK in deps(e):
                        w2 = A.SymArr(w.et, w.n, w.k, w.t, w.tag, {i: e + (v - r)})
                        c = A.generalise(ex, st, s2, A.SymArr(v0.et, v0.n, v0.k, v0.t, v0.tag, v0.w), w2, kap, known, extra)
                        if c:
                            out.append(c)
        return out
    if isinstance(v0, (MapV, A.SymMap)):
        if isinstance(w, A.SymMap) and len(w.w) == 1:
            (k, v), = w.w
            if isinstance(v, Ref) and v.o not in known:
                k, v = A.map_key(k), A.map_val(s2, v)
                if k and v is not None:
                    out.append(lambda q: A.SymMap(q, (k[0], J(k[1])), J(v)))
        return out
    if isinstance(v0, tuple):
        g0, gh, gw = asge(v0), asge(h), asge(w)
        if None in (g0, gh, gw):
            return out
        d = gw - gh
        if not any(b in d.t for b in gh.t):
            t = J(d)
            out.append(lambda k: ofge(g0 + A.gsum(t, k)))
        return out
    if isinstance(v0, Leaf) and isinstance(v0.v, GE) and isinstance(w, Leaf) and isinstance(w.v, GE):
        d = w.v - h.v
        if not any(b in d.t for b in h.v.t):
            t = J(d)
            out.append(lambda k: Leaf(v0.k, v0.v + A.gsum(t, k), None))
        return out
    if not (isinstance(v0, Poly) and isinstance(h, Poly) and isinstance(w, Poly)):
        return out
    hs = h.atoms()
    if len(hs) != 1:
        return out
    (aH,) = hs

    def forms(p, wr):
        ab = linear(p, aH)
        if ab is None:
            return
        x, y = ab
        if x == ONE:
            t = J(y)
            out.append(lambda k: wr(v0 + A.mksum(t, k)))
        elif not y.t and aK not in deps(x):
            out.append(lambda k: wr(v0 * A.mkpow(x, k)))
    forms(w, lambda q: q)
    if len(w.t) == 1:
        (mo, c), = w.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            at = ATOMS[mo[0][0]]
            if at.kind == 'mod':
                m = at.data[1]
                forms(at.data[0], lambda q: mkmod(q, m))
            if at.kind == 'div' and at.data[0] == h and aH not in (deps(P_(at.data[1]))):
                dv = at.data[1]
                out.append(lambda k: A.mkidiv(v0, dv, k))
    if aH not in deps(w):
        t = J(w)
        out.append(lambda k: A.inst(t, k - 1))
    return out


def havoc_value(v):
    if isinstance(v, Arr):
        n = fresh('h!n', 0, 1 << 40)
        return Arr(v.et, A.SymArr(v.et, n, n, A.HAV))
    if isinstance(v, Ptr):
        return Ptr(v.t, havoc_value(v.v))
    if isinstance(v, (A.SymArr, A.DownArr)):
        return v.havoc()
    if isinstance(v, MapV) and not v.e or isinstance(v, A.SymMap):
        return A.SymMap(fresh('h!n', 0), None, A.HAV)
    if isinstance(v, tuple) and asge(v) is not None:
        return ofge(base('secp', f'h!{next(Tm._ctr)}', False))
    if isinstance(v, Poly):
        return fresh('h')
    if isinstance(v, Leaf):
        if isinstance(v.v, GE):
            return Leaf(v.k, base(v.v.g, f'h!{next(Tm._ctr)}', False), None)
        return Leaf(v.k, fresh('h'), None)
    if isinstance(v, (bool, Cond)):
        return Cond('pred', 'h', fresh('h'))
    if isinstance(v, Str):
        return Str((('sym', fresh('h'), fresh('h!n', 0)),))
    raise Unsupported('loop changes ' + repr(v)[:60])


def summarise(ex, st, f, b, body, pred, regs):
    blk = f['bmap'][b]
    phis = [i for i in blk['ins'] if i['op'] == 'Phi']
    j = blk['preds'].index(pred)
    entry = {i['n']: ex.val(st, regs, i['edges'][j]) for i in phis}
    key = (f['name'], b)
    ex.inloop.add(key)
    known = set(st.heap)
    old = known - set(st.alloc[getattr(ex, 'entry', 0):])
    ptrs, shared, mutated = set(), set(), set()
    arrs, al, sl = {}, {}, {}

    def v0of(o):
        if not isinstance(o, str):
            return st.heap[o][1]
        return Ptr(*st.heap[entry[o].o]) if o in ptrs else entry[o]

    def havocked(o):
        if o in ptrs:
            return havoc_value(v0of(o))
        if o in arrs:
            if o in al:
                return Arr(arrs[o], A.SymArr(arrs[o], kap * al[o], kap * al[o], A.HAV))
            return havoc_value(Arr(arrs[o], None))
        return havoc_phi(ex, f, b, o, entry[o]) if isinstance(o, str) else havoc_value(st.heap[o][1])

    def run(kap, vals, hv, conds):
        """execute from the header; vals: oid or phi -> value; returns (exits, backs, state)"""
        s = st.fork()
        s.steps = st.steps
        for o, v in hv.items():
            if not isinstance(o, str):
                t, _ = s.heap[o]
                s.heap[o] = (t, v)
        g = dict(regs)
        stars = {}
        for i in phis:
            v = hv.get(i['n'], entry[i['n']])
            if isinstance(v, Arr):
                o = s.new(('array', v.et), v.a)
                if entry[i['n']] is NIL:
                    ex.maybenil.add(o)
                else:
                    s.lost.add(entry[i['n']].o)
                ex.grown.add(o)
                v = Slc(o, (), 0, v.a.n, v.a.n)
            if isinstance(v, Ptr):
                o = s.new(v.t, v.v)
                stars[i['n']] = o
                if i['n'] in shared:
                    s.ro.add(o)
                s.lost.add(entry[i['n']].o)
                v = Ref(o)
            g[i['n']] = v
        for c in conds:
            if not s.assume(c, True):
                return [], []
        if ex.ghost is not None and not ex.ghost(s, kap):
            return [], []
        outs = ex.run_from(s, f, g, b, None, {b}, body)
        exits, backs = [], []

        def star_ok(s2):
            for n, o in stars.items():
                if s2.heap[o][1] is not hv[n].v and s2.heap[o][1] != hv[n].v:
                    mutated.add(n)
        for s2, r in outs:
            star_ok(s2)
            if isinstance(r, Suspended) and r.b == b and r.pred in body:
                if ex.ghost is not None and not ex.ghost(s2, kap):
                    continue
                nv = {}
                for i in phis:
                    x = ex.val(s2, r.regs, i['edges'][blk['preds'].index(r.pred)])
                    if i['n'] in ptrs and isinstance(x, Ref) and not x.p:
                        if x.o in known:
                            raise Unsupported('loop variable pointing to an older object')
                        if referenced(s2, x.o):
                            shared.add(i['n'])
                        x = Ptr(*s2.heap[x.o])
                    if i['n'] in arrs:
                        x = asarr(s2, x, known)
                    nv[i['n']] = x
                backs.append((s2, nv))
            else:
                for n, o in stars.items():
                    e0 = entry[n].o
                    if e0 in old:
                        s2.lost.add(o)
                    if n not in mutated:
                        s2.lost.discard(e0)
                        s2.ro.add(e0)
                exits.append((s2, r))
        if mutated & {n for n in stars if entry[n].o in old}:
            raise Unsupported('loop changes an object that is older than the function call')
        return exits, backs

    try:
        kap = fresh('k', 0)
        mod = set()
        # what does the body change?
        for _ in range(12):
            hv = {}
            for o in mod:
                hv[o] = havocked(o)
            sh = set(shared)
            _, backs = run(kap, None, hv, [])
            new = set(mod)
            for s2, nv in backs:
                for n, v in nv.items():
                    if v != (hv[n] if n in hv else entry[n]):
                        if isinstance(v, Ref) and isinstance(entry[n], Ref) and not entry[n].p and not v.p \
                                and n not in ptrs and v.o not in known:
                            ptrs.add(n)
                        if isinstance(v, Slc) and empty(entry[n], st) and n not in arrs and v.o not in known:
                            arrs[n] = s2.heap[v.o][0][1]
                        new.add(n)
                for o in known:
                    if o in st.dead:
                        continue
                    w = s2.heap.get(o)
                    if o in s2.dead:
                        ex.loopnotes.append(('recycled', 'a number that outlives a loop iteration is recycled in it'))
                    w0 = hv.get(o, st.heap[o][1])
                    if w[1] is not w0 and w[1] != w0:
                        new.add(o)
            new -= {entry[n].o for n in ptrs}
            if new == mod and shared == sh:
                break
            mod = new
        else:
            raise Unsupported('loop')
        # linear counters: guessed from the effect of an iteration, kept if an iteration
        # has this effect under the bounds found
        lin = {}
        for n in list(mod):
            if isinstance(n, str) and n in arrs:
                steps = {(nv[n].a.n - hv[n].a.n).const() if isinstance(nv[n], Arr) else None for s2, nv in backs}
                if len(steps) == 1 and None not in steps:
                    al[n] = steps.pop()
            elif isinstance(n, str) and isinstance(hv.get(n), Slc):
                steps = set()
                for s2, nv in backs:
                    x, h = nv[n], hv[n]
                    same = isinstance(x, Slc) and (x.o, x.p) == (h.o, h.p)
                    steps.add(tuple(step(P_(y), P_(z), s2.facts) for y, z in zip((x.off, x.ln, x.cap), (h.off, h.ln, h.cap)))
                              if same else (None,))
                if len(steps) == 1 and None not in (d := steps.pop()):
                    sl[n] = d
            if isinstance(n, str) and isinstance(entry[n], Poly):
                steps = set()
                for s2, nv in backs:
                    d = step(nv[n], hv[n], s2.facts)
                    if d is not None:
                        steps.add(d)
                if len(steps) == 1:
                    lin[n] = steps.pop()
        while True:
            counters = [lambda k: k]
            for n, d in lin.items():
                if d in (1, -1):
                    counters.append(lambda k, n=n, d=d: entry[n] + k * d)
            fixed = {n: (lambda k, n=n, d=d: entry[n] + k * d) for n, d in lin.items()}
            pairs = [(entry[n], d) for n, d in lin.items()] + [(ZERO, d) for d in al.values()]
            for n, d in sl.items():
                e = entry[n]
                fixed[n] = lambda k, e=e, d=d: Slc(e.o, e.p, e.off + k * d[0], e.ln + k * d[1], e.cap + k * d[2])
                pairs += [(e.off, d[0]), (e.ln, d[1])]
            counters += [lambda k, d=d: k * d for d in al.values() if d > 1]
            conds = bounds(ex, st, f, b, body, pred, regs, entry, pairs, kap, run, mod, fixed, havocked)
            if not lin and not sl and not al:
                break
            hv = {o: fixed[o](kap) if o in fixed else havocked(o) for o in mod}
            _, backs = run(kap, None, hv, list(conds))
            wrong = {n for n in (*lin, *sl) for s2, nv in backs if not same_value(nv[n], fixed[n](kap + 1), s2.facts, s2)}
            wrong |= {n for n, d in al.items() for s2, nv in backs
                      if not isinstance(nv[n], Arr) or s2.facts.decide(eq0(nv[n].a.n - (kap + 1) * d)) is not True}
            if not wrong:
                break
            for n in wrong:
                for q in (lin, sl, al):
                    q.pop(n, None)
        left = [o for o in mod if o not in fixed]
        cands = {}
        for o in left:
            v0 = v0of(o)
            cs = []
            if ex.loopspec is not None:
                cs.extend(ex.loopspec(ex, st, o, v0, counters, mod) or [])
            for c in candidates(ex, st, regs, mod, counters, v0) + [lambda k, v0=v0: v0]:
                try:
                    if same_value(c(ZERO), v0, st.facts, st):
                        cs.append(c)
                except Unsupported:
                    pass
            cands[o] = cs

        def hvals(fx):
            hv = {}
            for o in mod:
                if o in fx:
                    hv[o] = fx[o](kap)
                else:
                    hv[o] = havocked(o)
            return hv

        def preserved(fx, which):
            hv = hvals(fx)
            try:
                _, backs = run(kap, None, hv, list(conds))
            except Unsupported:
                return False
            for s2, nv in backs:
                for o in which:
                    w = nv[o] if isinstance(o, str) else s2.heap[o][1]
                    if not same_value(w, fx[o](kap + 1), s2.facts, s2):
                        return False
            return True
        n = 0
        prog = True
        while prog and left:
            prog = False
            # what one iteration does to the locations that are left
            hv = hvals(fixed)
            _, backs = run(kap, None, hv, list(conds))
            for o in left:
                ex.firsts = [(s2, nv[o] if isinstance(o, str) else s2.heap[o][1]) for s2, nv in backs
                             if s2.facts.decide(eq0(kap)) is True]
                for s2, nv in backs:
                    w = nv[o] if isinstance(o, str) else s2.heap[o][1]
                    cs = []
                    try:
                        for c in learned(ex, st, s2, o, v0of(o), hv[o], w, kap, known, ptrs):
                            if same_value(c(ZERO), v0of(o), st.facts, st):
                                cs.append(c)
                    except Unsupported:
                        pass
                    cands[o] = cs + [c for c in cands[o] if c not in cs]
            for o in list(left):
                for c in cands[o]:
                    n += 1
                    if n > 400:
                        break
                    fx = dict(fixed)
                    fx[o] = c
                    if preserved(fx, [o]):
                        fixed[o] = c
                        left.remove(o)
                        prog = True
                        break
            if not prog and len(left) > 1:
                for o1, o2 in itertools.combinations(left, 2):
                    for c1, c2 in itertools.product(cands[o1][:30], cands[o2][:30]):
                        n += 1
                        if n > 1500:
                            break
                        fx = dict(fixed)
                        fx[o1], fx[o2] = c1, c2
                        if preserved(fx, [o1, o2]):
                            fixed[o1], fixed[o2] = c1, c2
                            left.remove(o1)
                            left.remove(o2)
                            prog = True
                            break
                    if prog:
                        break
        hv = hvals(fixed)
        if any(isinstance(hv[o], Slc) and o not in fixed for o in mod):
            raise Unsupported('slice that changes in a loop')
        exits, backs = run(kap, None, hv, conds)
        for s2, nv in backs:
            for nt in s2.notes[len(st.notes):]:
                ex.loopnotes.append(nt)
        wr = set().union(*(s2.wr for s2, nv in backs))
        for s2, r in exits:
            s2.wr |= wr
            for o in mod:
                if not isinstance(o, str) and isinstance(s2.heap[o][1], A.DownArr):
                    s2.heap[o] = (s2.heap[o][0], s2.heap[o][1].settle(s2.facts))
        ex.loops += 1
        return [(s2, r) for s2, r in exits]
    finally:
        ex.inloop.discard(key)


def step(w, h, facts):
    """w is h plus this constant, as machine integers may be"""
    if not isinstance(w, Poly):
        return None
    c = (w - h).const()
    if c is not None:
        return c
    for m in (1 << 64, 1 << 32, 1 << 8, 1 << 16):
        c = (unwrap(w + m // 2, m) - m // 2 - h).const()
        if c is None:
            c = (unwrap(w, m) - h).const()
        if c is not None:
            c %= m
            return c - m if c >= m // 2 else c
    return None


def asarr(s, x, known):
    """the array a slice stands for"""
    if x is NIL:
        return x
    if not isinstance(x, Slc) or x.p or x.o in known or x.o in s.lost or x.off != ZERO:
        raise Unsupported('slice built by a loop')
    t, a = s.heap[x.o]
    if isinstance(a, tuple):
        a = A.SymArr(t[1], const(len(a)), ZERO, A.ZV, None, {const(i): v for i, v in enumerate(a)})
    if not isinstance(a, A.SymArr) or s.facts.decide(eq0(a.n - x.ln)) is not True:
        raise Unsupported('slice built by a loop')
    return Arr(t[1], a)


def empty(x, st):
    return x is NIL or isinstance(x, Slc) and not x.p and x.off == ZERO and st.facts.decide(eq0(x.ln)) is True


def referenced(st, o):
    """another object refers to the object"""
    def has(v):
        if isinstance(v, Ref):
            return v.o == o
        if isinstance(v, tuple):
            return any(has(x) for x in v)
        if isinstance(v, (A.SymArr, A.DownArr)):
            return any(has(x) for x in v.w.values()) or has(v.t)
        if isinstance(v, Ifc):
            return has(v.v)
        return False
    return any(has(v) for q, (t, v) in st.heap.items())


def havoc_phi(ex, f, b, n, v):
    if isinstance(v, Poly):
        for i in f['bmap'][b]['ins']:
            if i['op'] == 'Phi' and i['n'] == n:
                w, s = ex.intw(i['t'])
                return fresh('h', -(1 << (w - 1)) if s else 0, (1 << (w - 1)) - 1 if s else (1 << w) - 1)
    if isinstance(v, Slc):
        return Slc(v.o, v.p, fresh('h', 0, 1 << 40), fresh('h', 0, 1 << 40), fresh('h', 0, 1 << 40))
    return havoc_value(v)


def bounds(ex, st, f, b, body, pred, regs, entry, pairs, kap, run, mod, fixed, havocked):
    """inequalities on the counters that hold at every iteration"""
    cs = []
    for e, d in pairs:
        if d < 0:
            for k in (-1, 0, 1):
                cs.append((lambda kk, e=e, d=d, k=k: ge0(e + kk * d - k)))
        elif d > 0:
            # upper bounds from comparisons in the header
            for q in header_bounds(ex, st, f, b, body, pred, regs, entry) + string_bounds(st, regs):
                cs.append(lambda kk, e=e, d=d, q=q: ge0(q - e - kk * d))
    good = [c for c in cs if st.facts.decide(c(ZERO)) is True]
    for _ in range(6):
        hv = {}
        for o in mod:
            if o in fixed:
                hv[o] = fixed[o](kap)
            else:
                hv[o] = havocked(o)
        _, backs = run(kap, None, hv, [c(kap) for c in good])
        keep = [c for c in good if all(s2.facts.decide(c(kap + 1)) is True for s2, _ in backs)]
        if len(keep) == len(good):
            break
        good = keep
    return [c(kap) for c in good]


def string_bounds(st, regs):
    """where the parts of the strings at hand begin"""
    out = []
    for v in regs.values():
        if isinstance(v, Slc) and not v.p and v.o in st.heap:
            v = st.heap[v.o][1]
        if isinstance(v, Str) and len(v.p) > 1:
            k = ZERO
            for x in v.p[:-1]:
                k = k + Str((x,)).length()
                out.extend([k - 1, k, k + 1])
    return list(dict.fromkeys(out))


def header_bounds(ex, st, f, b, body, pred, regs, entry):
    """integers the header compares with"""
    out = []
    blk = f['bmap'][b]
    g = eval_header(ex, st, f, b, pred, regs)
    for i in blk['ins']:
        if i['op'] == 'BinOp' and i.get('o') in ('<', '<=', '>', '>=', '!='):
            for k in ('x', 'y'):
                if i[k]['k'] == 'reg' and i[k]['n'] in entry:
                    continue
                try:
                    q = ex.val(st, g, i[k])
                except KeyError:
                    continue
                if isinstance(q, Poly):
                    out.extend([q, q + 1, q - 1])
    return out
