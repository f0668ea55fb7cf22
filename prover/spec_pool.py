"""The pool of scratch numbers itself, and what recycling must never do."""
from contract import *
import arrays as A

POOL = f'(*{BN}bnPool).'


def held(ex, st, pool, tag):
    """the numbers the pool holds: (positions lo, hi of the original list, [further numbers])"""
    s = ex.cell(st, pool)[0]
    if s is NIL:
        return ZERO, ZERO, []
    if not isinstance(s, Slc):
        raise Unsupported('representation of the pool')
    if s.o in st.lost:
        raise Unsupported('contents of the pool')
    a = st.heap[s.o][1]
    if isinstance(a, A.SymArr) and a.tag == tag:
        lo, hi, more = s.off, s.off + s.ln, []
        if a.w:
            if a.k != a.n - len(a.w) or set(a.w) != {a.k + i for i in range(len(a.w))}:
                raise Unsupported('contents of the pool')
            if st.facts.decide(eq0(hi - a.n)) is not True:
                raise Unsupported('contents of the pool')
            hi, more = a.k, [a.w[a.k + i] for i in range(len(a.w))]
        return lo, hi, more
    if isinstance(a, tuple):
        n, lo = s.ln.const(), s.off.const()
        if n is None or lo is None:
            raise Unsupported('contents of the pool')
        return ZERO, ZERO, list(a[lo:lo + n])
    raise Unsupported('contents of the pool')


def pool_goal(V, rep):
    """Get hands out a number that is not in the pool afterwards and nobody else's; Put adds the number once and
    nothing else.  So every number is in the pool at most once if it is recycled at most once."""
    for kind in ('nil', 'empty', 'some'):
        for m in ('Get', 'Put'):
            con = Contract(POOL + m, '', lambda c: None, modes=['int'])
            ex = V.exec('int', con)
            ex.no_contract = set(ex.no_contract) | {POOL + 'Get', POOL + 'Put', POOL + 'Count'}
            ex.rejected = {}
            st = V.base(ex).fork()
            f = V.prog.funcs.get(POOL + m)
            if f is None:
                rep.add(POOL + m, 'exists', 'unsupported', 'function not found')
                continue
            tag = 'pool'
            n = var('len:pool', 1, 1 << 40)
            pt = ex.P.tid['math/big.Int']
            if kind == 'nil':
                pool = NIL
            else:
                t = ex.P.tid[BN + 'bnPool']
                fl = ex.P.under(t)['fields']
                if len(fl) != 2 or ex.P.kind(fl[0]['t']) != 'slice':
                    rep.add(POOL + m, 'within reach', 'unsupported', 'the fields of the pool')
                    continue
                et = ex.P.under(fl[0]['t'])['elem']
                bns = NIL if kind == 'empty' else A.param(ex, st, tag, et, n, 'int')
                pool = Ref(st.new(t, (bns, fresh('count', 0, 1 << 40))))
            arg = Ref(st.new(pt, var('value of the recycled number')))
            ex.entry = len(st.alloc)
            ex.verifying = con
            ex.steps = 0
            ex.loopnotes = []
            ent = st.fork()
            fin = ex.run(st, f, [pool] if m == 'Get' else [pool, arg])

            def ob(fs, what, ok, detail=''):
                rep.add(POOL + m, f'[{kind}] {what}', 'proved' if ok else 'failed', detail)
            for fs, r in fin:
                if getattr(fs.facts, 'bad', False):
                    continue
                if isinstance(r, PanicV):
                    ob(fs, 'no panic', False, str(r))
                    continue
                ob(fs, 'no panic', True)
                known = {o: i for (tg, i), rr in fs.mat.items() if tg == tag for o in (rr.o,)}
                lo, hi, more = (ZERO, ZERO, []) if pool is NIL else held(ex, fs, pool, tag)
                got = []
                if m == 'Get':
                    if not isinstance(r, Ref) or r.p:
                        ob(fs, 'a number is handed out', False, repr(r))
                        continue
                    ob(fs, 'a number is handed out', fs.heap[r.o][0] == pt, repr(r))
                    if r.o in known:
                        i = known[r.o]
                        out = fs.facts.decide(lt0(i - lo)) is True or fs.facts.decide(lt0(hi - 1 - i)) is True
                        ob(fs, 'the number handed out is not recycled any more', out, f'position {i} of {lo}..{hi}')
                        ob(fs, 'the number handed out was recycled', fs.facts.decide(lt0(i)) is False
                           and fs.facts.decide(lt0(n - 1 - i)) is False, f'position {i}')
                    else:
                        ob(fs, 'the number handed out is not recycled any more', r.o not in [x.o for x in more], repr(r))
                        ob(fs, 'the number handed out is new', r.o not in ent.heap, repr(r))
                else:
                    ob(fs, 'the value of a recycled number is not needed', True)
                objs = [x.o for x in more if isinstance(x, Ref)]
                kn = [known[o] for o in objs if o in known]
                ob(fs, 'every number is held once', len(set(objs)) == len(objs) and all(
                    fs.facts.decide(lt0(i - lo)) is True or fs.facts.decide(lt0(hi - 1 - i)) is True for i in kn), f'{more}')
                ob(fs, 'only recycled numbers are held', all(
                    o in known or o not in ent.heap or m == 'Put' and o == arg.o for o in objs), f'{more}')
                ob(fs, 'the numbers held before are held in their places', kind != 'some' or
                   fs.facts.decide(lt0(lo)) is False and fs.facts.decide(lt0(n - hi)) is False, f'{lo}..{hi}')
