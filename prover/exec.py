"""Symbolic execution of the SSA form of /repo.

One run of a function from a symbolic state yields a list of final states, one
per feasible combination of the branches taken; together they cover every
execution from the initial state.  Machine integers wrap exactly as in Go,
heap objects have identity, every Go run-time panic that can occur on a path is
reported as a path ending in a panic.
"""
import itertools
import json
import math

from terms import *
import terms as T
from logic import *

NIL = None


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Panic(Exception):
    """raised while an instruction is executed: the path panics"""


class Fork(Exception):
    """raised when an undecided condition has to be split before going on"""

    def __init__(self, cond):
        self.cond = cond


class Ref:
    __slots__ = ('o', 'p')

    def __init__(self, o, p=()):
        self.o, self.p = o, p

    def __eq__(self, x):
        return isinstance(x, Ref) and x.o == self.o and x.p == self.p

    def __hash__(self):
        return hash((self.o, self.p))

    def __repr__(self):
        return f'&{self.o}' + ''.join(f'.{i}' for i in self.p)


class Slc:
    """a slice: elements off..off+ln of the array at ref"""
    __slots__ = ('o', 'p', 'off', 'ln', 'cap')

    def __init__(self, o, p, off, ln, cap):
        self.o, self.p, self.off, self.ln, self.cap = o, p, P_(off), P_(ln), P_(cap)

    def __eq__(self, x):
        return (isinstance(x, Slc) and x.o == self.o and x.p == self.p and x.off == self.off
                and x.ln == self.ln and x.cap == self.cap)

    def __hash__(self):
        return hash((self.o, self.off, self.ln))

    def __repr__(self):
        return f'slice({self.o}[{self.off}:+{self.ln}])'


class Ifc:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, x):
        return isinstance(x, Ifc) and x.t == self.t and x.v == self.v

    def __hash__(self):
        return hash((self.t, str(self.v)))

    def __repr__(self):
        return f'iface({self.t},{self.v})'


class Fn:
    __slots__ = ('n', 'bind')

    def __init__(self, n, bind=()):
        self.n, self.bind = n, bind

    def __eq__(self, x):
        return isinstance(x, Fn) and x.n == self.n and x.bind == self.bind

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f'func {self.n}'


class Coord:
    """pointer to coordinate i of an abstract group element; nil iff it is the identity"""
    __slots__ = ('g', 'i')

    def __init__(self, g, i):
        self.g, self.i = g, i

    def __eq__(self, x):
        return isinstance(x, Coord) and x.i == self.i and x.g == self.g

    def __hash__(self):
        return hash((self.g, self.i))

    def __repr__(self):
        return f'coord{self.i}({self.g})'


class Flt:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f'float {self.f}'


class MapV:
    """map contents: list of (key, value), most recent last; complete"""
    __slots__ = ('e',)

    def __init__(self, e=()):
        self.e = tuple(e)

    def __eq__(self, x):
        return isinstance(x, MapV) and self.e == x.e

    def __hash__(self):
        return hash(self.e)


class Leaf:
    """abstract contents of a field element (k='f', v a Poly, rng what is known
    about its integer coefficients) or of a point (k='g', v a GE)"""
    __slots__ = ('k', 'v', 'rng')

    def __init__(self, k, v, rng=None):
        self.k, self.v, self.rng = k, v, rng

    def __eq__(self, x):
        return isinstance(x, Leaf) and x.k == self.k and x.v == self.v and x.rng == self.rng

    def __hash__(self):
        return hash((self.k, self.v, self.rng))

    def __repr__(self):
        return f'<{self.v}>'


class Lazy:
    """contents of an array with a symbolic number of elements; see arrays.py"""


_oid = itertools.count(1)
_err = itertools.count(1)


class State:
    __slots__ = ('heap', 'facts', 'draws', 'dead', 'pooled', 'notes', 'alloc', 'steps', 'mat', 'ro', 'lost', 'wr')

    def __init__(self):
        self.heap = {}
        self.facts = Facts()
        self.draws = []
        self.dead = set()
        self.pooled = set()
        self.notes = []
        self.alloc = []      # oids in order of allocation
        self.steps = 0
        self.mat = {}        # elements of symbolic arrays that have been looked at
        self.ro = set()      # ... which must not be written
        self.lost = set()    # objects whose contents are not tracked any more
        self.wr = set()      # older objects and package-level variables that have been written to

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = self.facts.fork()
        s.draws = list(self.draws)
        s.dead = set(self.dead)
        s.pooled = set(self.pooled)
        s.notes = list(self.notes)
        s.alloc = list(self.alloc)
        s.steps = self.steps
        s.mat = dict(self.mat)
        s.ro = set(self.ro)
        s.lost = set(self.lost)
        s.wr = set(self.wr)
        return s

    def new(self, t, v):
        o = next(_oid)
        self.heap[o] = (t, v)
        self.alloc.append(o)
        return o

    def assume(self, cond, val=True):
        """False if the condition contradicts what is known"""
        return self.facts.add(cond, val)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.globals = {g['n']: g for g in d['globals']}
        self.pkgs = d['pkgs']
        self.imports = d['imports']
        self.funcs = {}
        for f in d['funcs']:
            old = self.funcs.get(f['name'])
            if old is None or (f['pos'] and not old['pos']):
                self.funcs[f['name']] = f
        self.tid = {t['str']: i for i, t in enumerate(self.types)}
        self.bodies = d['funcs']
        for f in self.funcs.values():
            f['bmap'] = {b['i']: b for b in f['blocks']}

    def under(self, t):
        y = self.types[t]
        while y['k'] == 'named' and 'u' in y:
            y = self.types[y['u']]
        return y

    def kind(self, t):
        y = self.under(t)
        if y['k'] == 'named':
            return 'opaque:' + y['name']
        return y['k']

    def zero(self, t):
        y = self.under(t)
        k = y['k']
        if k == 'basic':
            n = y['name']
            if n in ('bool', 'untyped bool'):
                return False
            if 'string' in n:
                return Str(())
            if 'float' in n:
                return Flt(0.0)
            if n == 'untyped nil':
                return NIL
            return ZERO
        if k == 'struct':
            return tuple(self.zero(f['t']) for f in y['fields'])
        if k == 'array':
            return tuple(self.zero(y['elem']) for _ in range(y['len']))
        if k in ('ptr', 'slice', 'map', 'func', 'iface'):
            return NIL
        if k == 'named':
            if y['name'] == 'math/big.Int':
                return ZERO
            if y['name'] == 'bytes.Buffer':
                return Str(())
            return ('opaque', y['name'])
        raise Unsupported('zero value of ' + y['str'])


INTW = {'int': (64, True), 'int64': (64, True), 'int32': (32, True), 'int16': (16, True), 'int8': (8, True),
        'uint': (64, False), 'uint64': (64, False), 'uint32': (32, False), 'uint16': (16, False),
        'uint8': (8, False), 'byte': (8, False), 'rune': (32, True), 'uintptr': (64, False),
        'untyped int': (4096, True), 'untyped rune': (32, True)}


def wrap(p, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    l, h = interval(p)
    if l is not None and h is not None and l >= lo and h <= hi:
        return p
    # remove an inner wrap
    if signed:
        return wrapmod(p + (1 << (w - 1)), 1 << w) - (1 << (w - 1))
    return wrapmod(p, 1 << w)


def unwrap(p, m):
    acc = ZERO
    for mo, c in p.t.items():
        if len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]].kind == 'mod' and ATOMS[mo[0][0]].data[1] == m:
            acc = acc + ATOMS[mo[0][0]].data[0] * c
        else:
            acc = acc + Poly({mo: c})
    return acc


def wrapmod(p, m):
    c = p.const()
    if c is not None:
        return const(c % m)
    acc = unwrap(p, m)
    p = Poly({mo: c % m for mo, c in acc.t.items() if c % m})
    l, h = interval(p)
    if l is not None and l >= 0 and h is not None and h < m:
        return p
    c = p.const()
    if c is not None:
        return const(c % m)
    # prefer the representative with the smallest interval
    return from_atom(atom('mod', (p, m), 0, m - 1))


class Pooled:
    def __repr__(self):
        return 'pooled'


POOLED = Pooled()        # contents of a field of a pool that nothing is known about
POOLGET = '(*github.com/ing-bank/zkrp/crypto/bn256.bnPool).Get'


class Exec:
    expand = None        # gives an abstract object its fields, where their values are known
    """executes functions of a Prog; contracts are consulted at call sites"""

    def __init__(self, prog, lib, contracts=None):
        self.P = prog
        self.lib = lib
        self.contracts = contracts or {}
        self.no_contract = set()
        self.gaddr = {}       # global name -> oid
        self.maxpaths = 3000
        self.maxsteps = 400000
        self.unroll = 100000
        self.used = {}        # contract name -> number of applications
        self.inlined = {}
        self.depth = 0
        self.loophook = None
        self.inloop = set()
        self.loopnotes = []
        self.params = set()   # elements of slice parameters
        self.loopspec = None
        self.ghost = None
        self.maybenil = set()
        self.partof = {}
        self.firstnew = 0
        self.grown = set()      # arrays that may have room behind what is known of them
        self.poolt = prog.tid.get('github.com/ing-bank/zkrp/crypto/bn256.bnPool')
        self.weak = {}        # contracts of functions that also write to these parameters, without a change of value
        self.goids = set()
        self.loops = 0
        self.approx = False
        self.stack = []

    # ------------------------------------------------------------ values
    def val(self, st, regs, v):
        k = v['k']
        if k == 'reg':
            return regs[v['n']]
        if k == 'const':
            return self.constant(v)
        if k == 'global':
            return Ref(self.global_oid(st, v['n'], v['t']))
        if k == 'func':
            return Fn(v['n'])
        if k == 'builtin':
            return Fn('builtin:' + v['n'])
        if k == 'free':
            return regs['free:' + v['n']]
        raise Unsupported('operand ' + k)

    def constant(self, v):
        c = v['v']
        if c is None:
            return self.P.zero(v['t'])
        if isinstance(c, bool):
            return c
        if c[0] == 's':
            import base64
            b = base64.b64decode(c[1])
            return Str.lit(b)
        if c[0] == 'i':
            y = self.P.under(v['t'])
            if y['k'] == 'basic' and 'float' in y['name']:
                return Flt(float(int(c[1])))
            return const(int(c[1]))
        if c[0] == 'f':
            return Flt(c[1])
        raise Unsupported('constant')

    def global_oid(self, st, n, ptrt):
        o = self.gaddr.get(n)
        if o is None:
            o = next(_oid)
            self.gaddr[n] = o
            self.goids.add(o)
        if o not in st.heap:
            t = self.P.under(ptrt)['elem']
            if n in self.P.globals:
                v = self.P.zero(t)
            else:
                v = Ifc('external', n) if self.P.under(t)['k'] == 'iface' else ('external', n)
            st.heap[o] = (t, v)
        return o

    # ------------------------------------------------------------ memory
    def cell(self, st, r):
        if r is NIL:
            raise Panic('nil pointer dereference')
        if isinstance(r, Coord):
            c = r.g.is_zero_cond()
            d = st.facts.decide(c)
            if d is None:
                raise Fork(c)
            if d:
                raise Panic('nil pointer dereference')
            return r.g.coord(r.i)
        if not isinstance(r, Ref):
            raise Unsupported(f'dereference of {r!r}')
        if r.o in st.dead:
            self.viol(st, 'recycled', f'object {r.o} is used after it was recycled')
        if r.o in st.lost:
            raise Unsupported('object that was carried into a loop')
        v = st.heap[r.o][1]
        if r.p and isinstance(v, Leaf) and self.expand:
            v = self.expand(self, st, r.o)
        for i in r.p:
            v = self.index(st, v, i)
        return v

    def inpool(self, st, x):
        """a field of a pool of scratch numbers; callers and callees may have put anything there"""
        if len(x.p) != 1:
            raise Unsupported('copy of a pool')
        v = self.cell(st, x)
        if v is POOLED:
            t = self.P.under(self.poolt)['fields'][x.p[0]]['t']
            k, u = self.P.kind(t), self.P.under(t)
            if k == 'slice':
                import arrays
                n = fresh('pooled', 0, 1 << 40)
                v = arrays.param(self, st, 'pooled', u['elem'], n, 'pooled')
            elif k == 'basic' and u['name'] in INTW:
                w, s = INTW[u['name']]
                v = fresh('pooled', -(1 << (w - 1)) if s else 0, (1 << (w - 1)) - 1 if s else (1 << w) - 1)
            else:
                raise Unsupported('field of a pool')
            c, o = st.heap[x.o]
            st.heap[x.o] = (c, self.update(st, o, x.p, v))
        return v

    def repool(self, st, x):
        """a field of a pool is written: what the list holds from now on is recycled, what it does not is not"""
        if isinstance(x, Poly):
            return
        if x is NIL:
            return                    # forgets what it held
        if not isinstance(x, Slc) or x.p or x.o in st.lost:
            raise Unsupported('representation of a pool')
        a = st.heap[x.o][1]
        new = []
        if isinstance(a, tuple):
            lo, n = x.off.const(), x.ln.const()
            if lo is None or n is None:
                raise Unsupported('representation of a pool')
            new, old = list(a[lo:lo + n]), [e for e in a[:lo] + a[lo + n:] if e is not NIL]
        elif getattr(a, 'tag', None) and isinstance(a.tag, tuple):
            old = []
            at = [(i, e) for i, e in a.w.items()] + [(i, e) for (tg, i), e in st.mat.items() if tg == a.tag and i not in a.w]
            for i, e in at:
                ins = and_(not_(lt0(i - x.off)), lt0(i - x.off - x.ln))
                d = st.facts.decide(ins)
                if d is None:
                    raise Unsupported('representation of a pool')
                (new if d else old).append(e)
        else:
            raise Unsupported('representation of a pool')
        if any(not isinstance(e, Ref) or e.p for e in new + old) or len(set(new)) < len(new):
            self.viol(st, 'recycled', 'a number is recycled twice')
        tags = {e.o for (tg, i), e in st.mat.items() if isinstance(tg, tuple) and len(tg) == 1}
        for e in old:
            st.dead.discard(e.o)
        for e in new:
            if e.o not in st.dead and e.o not in tags and (
                    e.o in self.gaddr.values() or self.entry is not None and e.o not in st.alloc[self.entry:]):
                self.viol(st, 'recycled', 'a number that belongs to someone else is recycled')
            st.dead.add(e.o)

    def viol(self, st, kind, msg):
        st.notes.append((kind, msg))

    def index(self, st, v, i):
        if isinstance(v, Leaf):
            raise Unsupported('field of an abstract object')
        if isinstance(i, Poly):
            c = i.const()
            if c is None:
                if isinstance(v, Lazy):
                    return v.get(self, st, i)
                if isinstance(v, tuple):
                    i = const(concretize(st, i, 0, len(v) - 1))
                    return self.index(st, v, i)
                if isinstance(v, Str):
                    return self.byteat(st, v, i)
                raise Unsupported('symbolic index')
            i = c
        if isinstance(v, Lazy):
            return v.get(self, st, P_(i))
        if isinstance(v, Str):
            return self.byteat(st, v, const(i))
        if i < 0 or i >= len(v):
            raise Panic('index out of range')
        return v[i]

    def byteat(self, st, v, i):
        r = v.at(i, st.facts)
        if isinstance(r, Cond):
            raise Fork(r)
        return r

    def update(self, st, v, path, x):
        if not path:
            return x
        if isinstance(v, Leaf):
            raise Unsupported('field of an abstract object')
        i = path[0]
        if isinstance(i, Poly):
            c = i.const()
            if c is None:
                if isinstance(v, Lazy):
                    if len(path) == 1:
                        return v.put(self, st, i, x)
                    return v.put(self, st, i, self.update(st, v.get(self, st, i), path[1:], x))
                if not isinstance(v, tuple):
                    raise Unsupported('store at symbolic index')
                c = concretize(st, i, 0, len(v) - 1)
            i = c
        if isinstance(v, Lazy):
            if len(path) == 1:
                return v.put(self, st, P_(i), x)
            return v.put(self, st, P_(i), self.update(st, v.get(self, st, P_(i)), path[1:], x))
        if isinstance(v, Str):
            v = v.explode()
        if i < 0 or i >= len(v):
            raise Panic('index out of range')
        return v[:i] + (self.update(st, v[i], path[1:], x),) + v[i + 1:]

    def store(self, st, r, x):
        if r is NIL:
            raise Panic('nil pointer dereference')
        if isinstance(r, Coord):
            raise Unsupported('store through a shared coordinate')
        if r.o in st.dead:
            self.viol(st, 'recycled', f'object {r.o} is written after it was recycled')
        if r.o in st.lost:
            raise Unsupported('object that was carried into a loop')
        if r.o in st.ro:
            if r.o in self.params:
                self.viol(st, 'frame', 'an element of a parameter is written')
            else:
                raise Unsupported('write to an element of a symbolic array')
        t, v = st.heap[r.o]
        if r.p and isinstance(v, Leaf) and self.expand:
            v = self.expand(self, st, r.o)
        st.heap[r.o] = (t, self.update(st, v, r.p, x))
        if t == self.poolt and POOLGET in self.contracts and POOLGET not in self.no_contract:
            self.repool(st, x if len(r.p) == 1 else None)
        o = r.o
        while o in self.partof:       # a part of an abstract object
            o = self.partof[o]
        if o < self.firstnew or o in self.goids:
            st.wr.add(o)

    def typeat(self, t, path):
        for i in path:
            y = self.P.under(t)
            if y['k'] == 'struct':
                t = y['fields'][i if isinstance(i, int) else i.const()]['t']
            else:
                t = y['elem']
        return t

    # ------------------------------------------------------------ running
    def call(self, st, name, args, site=None):
        """list of (state, result); result is a value, a tuple of results or a PanicV"""
        c = self.contracts.get(name)
        for a in args:
            if isinstance(a, Ref) and self.poolt is not None and st.heap[a.o][0] == self.poolt and \
                    (a.o < self.firstnew or a.o in self.goids):
                st.wr.add(a.o)         # whoever is given a pool uses it
        if c is not None and name not in self.no_contract:
            for a in args:
                if isinstance(a, Ref) and self.poolt is not None and st.heap[a.o][0] == self.poolt and not a.p:
                    st.heap[a.o] = (self.poolt, tuple(POOLED for _ in st.heap[a.o][1]))
            r = c.apply(self, st, args)
            if r is not None:
                self.used[name] = self.used.get(name, 0) + 1
                for n in self.weak.get(name, ()):
                    for s, _ in r:
                        self.touch(st, s, args[c.params.index(n)])
                return r
        m = self.lib.find(name)
        if m is not None:
            return self.split(st, lambda s: m(self, s, args))
        f = self.P.funcs.get(name)
        if f is None:
            raise Unsupported('call of external function ' + name)
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        if self.depth:
            self.inlined[name] = self.inlined.get(name, 0) + 1
        self.depth += 1
        self.stack.append(name)
        try:
            return self.run(st, f, args)
        finally:
            self.depth -= 1
            self.stack.pop()

    def touch(self, st, s, a):
        """a call has written to what a refers to"""
        for o in self.reach(self, st, a):
            while o in self.partof:
                o = self.partof[o]
            if o < self.firstnew or o in self.goids:
                s.wr.add(o)

    def split(self, st, thunk):
        """run thunk(state) -> result, splitting on undecided conditions; the
        thunk must not change the state before its last fork"""
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.maxpaths:
                raise Unsupported('too many paths')
            base = s.fork()
            try:
                r = thunk(s)
                out.append((s, r))
            except Fork as e:
                for v in (True, False):
                    s2 = base.fork()
                    if s2.assume(e.cond, v):
                        work.append(s2)
            except Infeasible:
                pass
            except Panic as e:
                out.append((s, PanicV(str(e))))
        return out

    def run(self, st, f, args):
        if len(args) != len(f['params']):
            raise Unsupported('arity of ' + f['name'])
        regs = {p['n']: a for p, a in zip(f['params'], args)}
        return self.run_from(st, f, regs)

    def merge(self, st, regs, f, b, c):
        """a branch that only chooses between truth values, as a value; (block, registers)"""
        bm = f['bmap']
        t, e = bm[b]['succs']

        def empty(x):
            return len(bm[x]['ins']) == 1 and bm[x]['ins'][0]['op'] == 'Jump' and bm[x]['preds'] == [b]
        if empty(t) and bm[t]['succs'][0] == e:
            j, p, q = e, t, b
        elif empty(e) and bm[e]['succs'][0] == t:
            j, p, q = t, b, e
        elif empty(t) and empty(e) and bm[t]['succs'] == bm[e]['succs']:
            j, p, q = bm[t]['succs'][0], t, e
        else:
            return None
        if sorted(bm[j]['preds']) != sorted((p, q)):
            return None
        regs = dict(regs)
        for i in bm[j]['ins']:
            if i['op'] != 'Phi':
                break
            x, y = (self.val(st, regs, i['edges'][bm[j]['preds'].index(k)]) for k in (p, q))
            if not (isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond))):
                return None
            regs['merged', i['n']] = ite(c, x, y)
        return j, regs

    def run_from(self, st, f, regs, block=None, pred=None, stop=None, inside=None):
        """stop: set of block indices at which a path is suspended instead of
        continuing; such paths come back as (state, Suspended)"""
        out = []
        work = [(st, f['blocks'][0]['i'] if block is None else block, pred, regs)]
        first = True
        while work:
            if len(work) + len(out) > self.maxpaths:
                raise Unsupported('too many paths in ' + f['name'])
            st, b, pred, regs = work.pop()
            if not first and (stop is not None and b in stop or inside is not None and b not in inside):
                out.append((st, Suspended(b, pred, regs)))
                continue
            if self.loophook is not None and not (first and inside is not None):
                r = self.loophook(self, st, f, b, pred, regs)
                if r is not None:
                    for s2, x in r:
                        if isinstance(x, Suspended):
                            work.append((s2, x.b, x.pred, x.regs))
                        else:
                            out.append((s2, x))
                    first = False
                    continue
            first = False
            blk = f['bmap'][b]
            # phis in parallel
            ins = blk['ins']
            k = 0
            new = {}
            while k < len(ins) and ins[k]['op'] == 'Phi':
                if pred is None and inside is not None:
                    k += 1      # values supplied by the caller
                    continue
                if ('merged', ins[k]['n']) in regs:
                    new[ins[k]['n']] = regs['merged', ins[k]['n']]
                    k += 1
                    continue
                j = blk['preds'].index(pred)
                new[ins[k]['n']] = self.val(st, regs, ins[k]['edges'][j])
                k += 1
            if new:
                regs = {n: v for n, v in regs.items() if not isinstance(n, tuple)}
                regs.update(new)
            work2 = [(st, regs, k)]
            while work2:
                st, regs, k = work2.pop()
                while True:
                    i = ins[k]
                    st.steps += 1
                    if st.steps > self.maxsteps:
                        raise Unsupported('too many steps')
                    op = i['op']
                    if op == 'Jump':
                        work.append((st, blk['succs'][0], b, regs))
                        break
                    if op == 'If':
                        c = self.val(st, regs, i['x'])
                        d = st.facts.decide(c)
                        if d is not None:
                            work.append((st, blk['succs'][0 if d else 1], b, regs))
                        else:
                            j = self.merge(st, regs, f, b, c)
                            if j is not None:
                                work.append((st, j[0], b, j[1]))
                                break
                            s2 = st.fork()
                            if st.assume(c, True):
                                work.append((st, blk['succs'][0], b, dict(regs)))
                            if s2.assume(c, False):
                                work.append((s2, blk['succs'][1], b, regs))
                        break
                    if op == 'Return':
                        rs = tuple(self.val(st, regs, x) for x in i['r'])
                        out.append((st, rs[0] if len(rs) == 1 else rs))
                        break
                    if op == 'Panic':
                        out.append((st, PanicV('explicit panic')))
                        break
                    if op == 'Defer':
                        self.defer(st, regs, i, inside)
                        k += 1
                        continue
                    last = op == 'RunDefers' and regs.get('%defers', ())
                    if op == 'Call' or last:
                        if last:
                            regs['%defers'] = last[:-1]
                            i = {'pos': i.get('pos', '')}
                            rs = self.perform(st, *last[-1])
                            k -= 1
                        else:
                            rs = self.docall(st, regs, i)
                        if len(rs) == 1:
                            st, r = rs[0]
                            if isinstance(r, PanicV):
                                r.trace.append(i.get('pos', ''))
                                out.append((st, r))
                                break
                            if i.get('n'):
                                regs[i['n']] = r
                            k += 1
                            continue
                        for s2, r in rs:
                            if isinstance(r, PanicV):
                                r.trace.append(i.get('pos', ''))
                                out.append((s2, r))
                                continue
                            g = dict(regs)
                            if i.get('n'):
                                g[i['n']] = r
                            work2.append((s2, g, k + 1))
                        if len(work2) > self.maxpaths:
                            raise Unsupported('too many paths in ' + f['name'])
                        break
                    # simple instruction
                    try:
                        r = self.ins(st, regs, i)
                    except Fork as e:
                        s2 = st.fork()
                        if st.assume(e.cond, True):
                            work2.append((st, dict(regs), k))
                        if s2.assume(e.cond, False):
                            work2.append((s2, regs, k))
                        break
                    except Infeasible:
                        break
                    except Panic as e:
                        p = PanicV(str(e))
                        p.trace.append(i.get('pos', ''))
                        out.append((st, p))
                        break
                    if 'n' in i:
                        regs[i['n']] = r
                    k += 1
        return out

    def docall(self, st, regs, i):
        return self.perform(st, i, *self.operands(st, regs, i))

    def operands(self, st, regs, i):
        """(receiver or function, arguments) of a call"""
        args = [self.val(st, regs, a) for a in i['args']]
        return self.val(st, regs, i['recv' if 'invoke' in i else 'fn']), args

    def defer(self, st, regs, i, inside):
        f, args = self.operands(st, regs, i)
        if inside is not None:
            raise Unsupported('defer in a loop')
        if 'invoke' in i or not isinstance(f, Fn) or self.recovers(f.n):
            raise Unsupported('deferred call')
        regs['%defers'] = regs.get('%defers', ()) + ((i, f, args),)

    def recovers(self, n):
        f = self.P.funcs.get(n)
        if f is None:
            return False
        return any(i['op'] == 'Call' and 'recover' in str(i.get('fn')) for b in f['blocks'] for i in b['ins'])

    def perform(self, st, i, f, args):
        if 'invoke' in i:
            recv = f
            m = self.lib.find_method(recv, i['invoke'])
            if m is not None:
                return self.split(st, lambda s: m(self, s, [recv] + args))
            if isinstance(recv, Ifc):
                n = self.method_name(recv.t, i['invoke'])
                return self.call(st, n, [recv.v] + args)
            if recv is NIL:
                return [(st, PanicV('method call on nil interface'))]
            raise Unsupported('interface call ' + i['invoke'])
        if not isinstance(f, Fn):
            raise Unsupported('call through ' + repr(f))
        if f.n.startswith('builtin:') or f.n.startswith('ssa:'):
            m = self.lib.builtin(f.n)
            if m is None:
                raise Unsupported(f.n)
            ts = [a.get('t') for a in i['args']]
            return self.split(st, lambda s: m(self, s, args, ts, i.get('t')))
        if f.bind:
            fn = self.P.funcs[f.n]
            g = {p['n']: a for p, a in zip(fn['params'], args)}
            for nm, v in zip(fn['free'], f.bind):
                g['free:' + nm] = v
            self.depth += 1
            try:
                return self.run_from(st, fn, g)
            finally:
                self.depth -= 1
        return self.call(st, f.n, args, i.get('pos'))

    def method_name(self, t, m):
        y = self.P.types[t]
        if y['k'] == 'ptr':
            return f"(*{self.P.types[y['elem']]['name']}).{m}"
        return f"({y['name']}).{m}"

    # ------------------------------------------------------------ instructions
    def ins(self, st, regs, i):
        op = i['op']
        V = lambda k: self.val(st, regs, i[k])
        if op == 'Alloc':
            t = self.P.under(i['t'])['elem']
            return Ref(st.new(t, self.P.zero(t)))
        if op == 'FieldAddr':
            x = V('x')
            if x is NIL:
                raise Panic('nil pointer dereference')
            if isinstance(x, Coord):
                raise Unsupported('field of coordinate')
            return Ref(x.o, x.p + (i['f'],))
        if op == 'Field':
            return V('x')[i['f']]
        if op == 'IndexAddr':
            x, j = V('x'), V('i')
            if isinstance(x, Slc):
                self.bounds(st, j, x.ln)
                n = x.off + j
                c = n.const()
                return Ref(x.o, x.p + (n if c is None else c,))
            if x is NIL:
                raise Panic('index of nil slice')
            if isinstance(x, Ref):
                a = self.P.under(self.P.under(i['x']['t'])['elem'])
                self.bounds(st, j, const(a['len']))
                c = j.const()
                return Ref(x.o, x.p + (j if c is None else c,))
            raise Unsupported('IndexAddr')
        if op == 'Index':
            x, j = V('x'), V('i')
            if isinstance(x, Str):
                self.bounds(st, j, x.length())
                return x.at(j)
            return self.index(st, x, j)
        if op == 'UnOp':
            x = V('x')
            o = i['o']
            if o == '*':
                if isinstance(x, Ref) and self.poolt is not None and POOLGET in self.contracts and \
                        POOLGET not in self.no_contract and st.heap[x.o][0] == self.poolt:
                    return self.inpool(st, x)
                return self.cell(st, x)
            if o == '!':
                return not_(x)
            if o == '-':
                if isinstance(x, Flt):
                    return Flt(-x.f)
                return wrap(-x, *self.intw(i['t']))
            if o == '^':
                w, s = self.intw(i['t'])
                return wrap(-x - 1, w, s) if s else const((1 << w) - 1) - x
            raise Unsupported('unary ' + o)
        if op == 'Store':
            self.store(st, V('a'), V('v'))
            return None
        if op == 'BinOp':
            return self.binop(st, i['o'], V('x'), V('y'), i)
        if op == 'Convert':
            return self.convert(st, V('x'), i['x']['t'], i['t'])
        if op in ('ChangeType', 'ChangeInterface'):
            return V('x')
        if op == 'MakeInterface':
            v = V('x')
            return Ifc(i['x']['t'], v)
        if op == 'Extract':
            return V('x')[i['i']]
        if op == 'MakeSlice':
            n, c = V('len'), V('cap')
            e = self.P.under(i['t'])['elem']
            neg = lt0(n)
            d = st.facts.decide(neg)
            if d is None:
                raise Fork(neg)
            if d:
                raise Panic('makeslice: len out of range')
            small = lt0(c - n)
            d = st.facts.decide(small)
            if d is None:
                raise Fork(small)
            if d:
                raise Panic('makeslice: cap out of range')
            if n.const() is not None:
                cap = c.const() if c.const() is not None else n.const()
                if cap > 100000:
                    raise Unsupported('large slice')
                r = Slc(st.new(('array', e), tuple(self.P.zero(e) for _ in range(cap))), (), 0, n, cap)
            else:
                r = Slc(st.new(('array', e), self.lib.symarray(self, st, e, n)), (), 0, n, n)
            if r.cap != c:
                self.grown.add(r.o)
            return r
        if op == 'MakeMap':
            return Ref(st.new(('map', i['t']), MapV()))
        if op == 'MapUpdate':
            m = V('x')
            if m is NIL:
                raise Panic('assignment to nil map')
            t, v = st.heap[m.o]
            self.store(st, m, self.lib.mapset(self, st, v, V('key'), V('v')))
            return None
        if op == 'Lookup':
            x, j = V('x'), V('i')
            if isinstance(x, Str):
                self.bounds(st, j, x.length())
                return x.at(j)
            y = self.P.under(i['x']['t'])
            e = y['elem']
            if x is NIL:
                r, ok = self.P.zero(e), False
            else:
                r, ok = self.lib.mapget(self, st, st.heap[x.o][1], j)
                if not ok:
                    r = self.P.zero(e)
            return (r, ok) if i['commaok'] else r
        if op == 'Slice':
            return self.slice(st, V('x'), *(None if i[k] is None else V(k) for k in ('lo', 'hi', 'max')), i)
        if op == 'MakeClosure':
            return Fn(i['fn']['n'], tuple(self.val(st, regs, b) for b in i['bind']))
        if op == 'Range':
            return self.lib.range(self, st, V('x'))
        if op == 'RunDefers':
            return None
        raise Unsupported('instruction ' + op)

    def bounds(self, st, j, n):
        """0 <= j < n or panic"""
        for c in (lt0(j), ge0(j - n)):
            d = st.facts.decide(c)
            if d is None:
                raise Fork(c)
            if d:
                raise Panic('index out of range')

    def intw(self, t):
        y = self.P.under(t)
        if y['k'] == 'basic' and y['name'] in INTW:
            return INTW[y['name']]
        raise Unsupported('integer type ' + y['str'])

    def slice(self, st, x, lo, hi, mx, i):
        y = self.P.under(i['x']['t'])
        if isinstance(x, Str):
            n = x.length()
            lo = ZERO if lo is None else lo
            hi = n if hi is None else hi
            self.check_le(st, ZERO, lo, hi, n)
            return x.sub(lo, hi)
        if x is NIL:
            for q in (lo, hi, mx):
                if q is not None and q != ZERO:
                    self.check_le(st, ZERO, q, ZERO, ZERO)
            return NIL
        if isinstance(x, Ref):     # pointer to array
            a = self.P.under(y['elem'])
            base, off, ln, cap = x, ZERO, const(a['len']), const(a['len'])
            o, p = x.o, x.p
        else:
            o, p, off, ln, cap = x.o, x.p, x.off, x.ln, x.cap
        lo = ZERO if lo is None else lo
        hi = ln if hi is None else hi
        top = cap if mx is None else mx
        self.check_le(st, ZERO, lo, hi, top)
        if mx is not None:
            self.check_le(st, top, cap)
        return Slc(o, p, off + lo, hi - lo, top - lo)

    def check_le(self, st, *ps):
        for a, b in zip(ps, ps[1:]):
            c = lt0(b - a)
            d = st.facts.decide(c)
            if d is None:
                raise Fork(c)
            if d:
                raise Panic('slice bounds out of range')

    def convert(self, st, x, ft, tt):
        f, t = self.P.under(ft), self.P.under(tt)
        if t['k'] == 'basic' and t['name'] in INTW:
            w, s = INTW[t['name']]
            if isinstance(x, Flt):
                if isinstance(x.f, float) and x.f == x.f and abs(x.f) < 2**63:
                    return const(int(x.f))
                raise Unsupported('conversion of a float')
            return wrap(x, w, s)
        if t['k'] == 'basic' and 'float' in t['name']:
            if isinstance(x, Flt):
                return x
            c = x.const()
            return Flt(float(c)) if c is not None else Flt(x)
        if t['k'] == 'basic' and 'string' in t['name']:
            if isinstance(x, Poly):
                c = x.const()
                if c is None:
                    return Str((('rune', x),))
                return Str.lit(chr(c if 0 <= c <= 0x10ffff and not 0xd800 <= c < 0xe000 else 0xfffd).encode())
            if isinstance(x, Str):
                return x
            return self.lib.bytes_of(self, st, x)
        if t['k'] == 'slice':
            if isinstance(x, Str):
                e = t['elem']
                n = x.length()
                return Slc(st.new(('array', e), x), (), 0, n, n)
            return x
        if t['k'] == f['k']:
            return x
        raise Unsupported('conversion ' + f['str'] + ' to ' + t['str'])

    def binop(self, st, o, x, y, i):
        if o in ('==', '!='):
            c = self.equal(st, x, y)
            return c if o == '==' else not_(c)
        if isinstance(x, Flt) or isinstance(y, Flt):
            if isinstance(x.f, float) and isinstance(y.f, float):
                a, b = x.f, y.f
                if o in ('<', '<=', '>', '>='):
                    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
                if o == '/' and b == 0:
                    raise Unsupported('float division by zero')
                return Flt({'+': a + b, '-': a - b, '*': a * b, '/': a / b if b else 0}[o])
            raise Unsupported('symbolic float')
        if isinstance(x, Str):
            if o == '+':
                return x + y
            raise Unsupported('string ' + o)
        if o in ('<', '<=', '>', '>='):
            if o == '<':
                return lt0(x - y)
            if o == '>':
                return lt0(y - x)
            return not_(lt0(y - x)) if o == '<=' else not_(lt0(x - y))
        if isinstance(x, (bool, Cond)):
            if o == '&':
                return and_(x, y)
            if o == '|':
                return or_(x, y)
            raise Unsupported('bool ' + o)
        w, s = self.intw(i['t'])
        if o == '+':
            return self.wrapf(st, x + y, w, s)
        if o == '-':
            return self.wrapf(st, x - y, w, s)
        if o == '*':
            return self.wrapf(st, x * y, w, s)
        a, b = x.const(), y.const()
        if o in ('/', '%'):
            c = eq0(y)
            d = st.facts.decide(c)
            if d is None:
                raise Fork(c)
            if d:
                raise Panic('division by zero')
            if a is not None and b is not None:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return wrap(const(q if o == '/' else a - b * q), w, s)
            if b is not None and b > 0:
                neg = lt0(x)
                d = st.facts.decide(neg)
                if d is None:
                    raise Fork(neg)
                if not d:
                    q = mkdiv(x, y)
                else:
                    q = -mkdiv(-x, y)
                return q if o == '/' else x - q * b
            raise Unsupported('symbolic division')
        if o in ('<<', '>>'):
            if b is None:
                if o == '<<' and a == 1:
                    # 1 << y, decided by cases on y
                    self.bounds(st, y, const(w))
                    return wrap(const(1 << concretize(st, y, 0, w - 1)), w, s)
                raise Unsupported('symbolic shift')
            if b < 0:
                raise Panic('negative shift')
            if o == '<<':
                return wrap(x * (1 << b), w, s) if b < w + 64 else ZERO
            return mkdiv(x, const(1 << b))
        if o in ('&', '|', '^', '&^'):
            if a is not None and b is not None:
                r = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}[o]
                return wrap(const(r), w, s)
            # masks and disjoint bit fields
            if o == '&':
                for u, v in ((x, b), (y, a)):
                    if v is not None and v >= 0 and (v & (v + 1)) == 0:
                        return u - mkdiv(u, const(v + 1)) * (v + 1)
                r = self.lowbit(st, x, y)
                if r is None:
                    r = self.andbits(x, y)
                if r is not None:
                    return r
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            if o == '^' and s is False and b is not None and b == hi:
                return const(hi) - x
            if o == '^' and s is False and a is not None and a == hi:
                return const(hi) - y
            self.approx = True
            return app('h!bit' + o, (x, y, w, s), lo, hi)
        raise Unsupported('operator ' + o)

    def lowbit(self, st, x, y):
        """x & -x for a number that lies strictly between two consecutive powers of two"""
        if (x + y).t:
            return None
        for z in (x, y):
            l, h = interval(z)
            if l is not None and h is not None and l > 0 and (l - 1).bit_length() == h.bit_length() and l & (l - 1):
                return app('lowbit', (z,), 1, 1 << (h.bit_length() - 2))
        return None

    def andbits(self, x, y):
        """x & y for numbers that are known not to be negative"""
        (l1, h1), (l2, h2) = interval(x), interval(y)
        if None in (l1, h1, l2, h2) or l1 < 0 or l2 < 0:
            return None
        if h1 == 0 or h2 == 0:
            return ZERO
        k = max(h1, h2).bit_length() - 1
        t = [l >> k for l in (l1, l2)]
        if t == [h1 >> k, h2 >> k]:
            r = self.andbits(x - (t[0] << k), y - (t[1] << k))
            return None if r is None else r + ((t[0] & t[1]) << k)
        return app('and', (x, y), 0, min(h1, h2))

    def wrapf(self, st, p, w, s):
        """the machine integer, using what is known about the operands"""
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        l, h = interval(p)
        okl, okh = l is not None and l >= lo, h is not None and h <= hi
        if okl and okh:
            return p
        if len(p.t) <= 4 and st.facts.lin:
            if (okl or st.facts.decide(lt0(p - lo)) is False) and (okh or st.facts.decide(lt0(hi - p)) is False):
                return p
            q = unwrap(p, 1 << w)
            if q != p and st.facts.decide(lt0(q - lo)) is False and st.facts.decide(lt0(hi - q)) is False:
                return q
        return wrap(p, w, s)

    def equal(self, st, x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return eq0(x - y)
        if isinstance(x, Flt) and isinstance(y, Flt):
            if isinstance(x.f, float) and isinstance(y.f, float):
                return x.f == y.f
            if isinstance(x.f, float):
                x, y = y, x
            c = y.f
            if isinstance(c, float) and isinstance(x.f, tuple) and x.f[0] == 'log' and c == 0:
                return eq0(x.f[1] - 1)            # the logarithm is zero for 1 only
            if isinstance(c, float) and isinstance(x.f, Poly) and c == int(c) and abs(c) < 2 ** 53:
                return eq0(x.f - int(c))          # conversion to float is monotone, and exact below 2^53
            raise Unsupported('symbolic float')
        if isinstance(x, Str) and isinstance(y, Str):
            return streq(x, y)
        if isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
            return or_(and_(x, y), and_(not_(x), not_(y)))
        if x is NIL and y is NIL:
            return True
        if x is NIL or y is NIL:
            z = y if x is NIL else x
            if isinstance(z, Coord):
                return z.g.is_zero_cond()
            if isinstance(z, MaybeNil):
                return z.cond
            if isinstance(z, Slc) and z.o in self.maybenil:
                raise Unsupported('whether a slice built by a loop is nil')
            return False
        if isinstance(x, Coord) or isinstance(y, Coord):
            if x == y:
                return True
            raise Unsupported('comparison of shared coordinates')
        if isinstance(x, (Ref, Slc, Fn, Ifc)) and type(x) is type(y):
            return x == y
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return and_(*(self.equal(st, a, b) for a, b in zip(x, y)))
        raise Unsupported('comparison')


class MaybeNil:
    """a pointer that is nil under cond and otherwise the pointer p"""
    __slots__ = ('cond', 'p')

    def __init__(self, cond, p):
        self.cond, self.p = cond, p


class PanicV:
    def __init__(self, msg):
        self.msg = msg
        self.trace = []

    def __repr__(self):
        return f'panic: {self.msg} at {" < ".join(t for t in self.trace if t)}'


class Suspended:
    def __init__(self, b, pred, regs):
        self.b, self.pred, self.regs = b, pred, regs


def concretize(st, y, lo, hi):
    """the value of y, by cases lo..hi (the range must have been established)"""
    c = y.const()
    if c is not None:
        return c
    l, h = interval(y)
    lo = lo if l is None else max(lo, l)
    hi = hi if h is None else min(hi, h)
    if hi - lo > 300:
        raise Unsupported('case split over a large range')
    for k in range(lo, hi + 1):
        c = eq0(y - k)
        d = st.facts.decide(c)
        if d is True:
            return k
        if d is None:
            raise Fork(c)
    raise Infeasible()
