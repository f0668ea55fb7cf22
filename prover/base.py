"""The program state after package initialisation."""
from exec import *
from lib import Lib
import logic

PKG = 'github.com/ing-bank/zkrp/'


def init_order(P):
    out, seen = [], set()

    def go(p):
        if p in seen or p not in P.imports:
            return
        seen.add(p)
        for q in P.imports[p]:
            go(q)
        out.append(p)
    for p in sorted(P.imports):
        go(p)
    return out


def base_state(ex):
    """execute the initialisers of all packages; exactly one path is expected"""
    st = State()
    P = ex.P
    for g in P.globals.values():
        ex.global_oid(st, g['n'], g['t'])
    done = []
    for p in init_order(P):
        f = P.funcs.get(p + '.init')
        if f is None:
            continue
        rs = ex.call(st, p + '.init', [])
        if len(rs) != 1 or isinstance(rs[0][1], PanicV):
            raise Unsupported('initialiser of ' + p)
        st = rs[0][0]
        done.append(p)
    return st


def inits_to_skip(lib, P):
    """calls of the initialisers of imported packages inside an initialiser"""
    import lib as L

    def nop(ex, st, a):
        return NIL
    for p, qs in P.imports.items():
        for q in qs:
            if q not in P.imports:
                L.TABLE[q + '.init'] = nop


def glob(ex, st, name):
    return st.heap[ex.gaddr[PKG + name]][1]
