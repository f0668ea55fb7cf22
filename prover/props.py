"""Properties: which contracts and goals decide each of them."""
import re
import signal
import time

from contract import *
from base import *
from lib import Lib
import lib as L
import spec_bn
import spec_p2
import spec_vec
import spec_bp
import spec_bytes
import spec_bb
import spec_pair
import spec_pool
import spec_parse
import spec_json

T = '(*' + BN


def bn(*ns):
    return [f'(*{BN}{n.split(".")[0]}).{n.split(".")[1]}' if '.' in n else BN + n for n in ns]


def methods(t, pat=None):
    return [n for n in CONTRACTS if n.startswith(f'(*{BN}{t}).')]


TOWER = lambda: [n for t in ('gfP2', 'gfP6', 'gfP12') for n in methods(t)] + bn('newGFp2', 'newGFp6', 'newGFp12')
CURVE = lambda: [n for t in ('curvePoint', 'twistPoint', 'G1', 'G2') for n in methods(t)
                 if n.split('.')[-1] != 'Unmarshal'] + [PKG + 'util.Commit'] + bn('RandomG1', 'RandomG2')
SECP = lambda: [n for n in CONTRACTS if n.startswith((spec_p2.CUR, spec_p2.BC, spec_p2.M))] + [PKG + 'util.CommitG1']

BIGINT = 'math/big integers behave as mathematical integers (models in prover/lib.py)'
LENGTHS = 'slice lengths are below 2^40'
POINTS_ = 'points in slices are held as coordinate pairs of group elements'
VECS = [spec_vec.BP + n for n in ('VectorAdd', 'VectorSub', 'VectorMul', 'VectorScalarMul', 'VectorECAdd', 'VectorCopy',
                                  'VectorConvertToBig', 'powerOf', 'VectorExp', 'ScalarProduct', 'vectorScalarExp')] \
    + [spec_vec.NB + n for n in ('Add', 'Sub', 'Multiply', 'Mod', 'ModInverse', 'ModPow')]


def bp(*ns):
    def full(n):
        if n.startswith('*'):
            return f'(*{spec_vec.BP}{n[1:].split(".")[0]}).{n.split(".")[1]}'
        return f'({spec_vec.BP}{n.split(".")[0]}).{n.split(".")[1]}' if '.' in n else spec_vec.BP + n
    return lambda: [full(n) for n in ns]


def bpd(*cs):
    return [('bulletproofs', f'TestVerif{cs[0].upper()}', ['bulletproofs/bp_oracle_verif_test.go']
             + [f'bulletproofs/{c}_verif_test.go' for c in cs] + ['ec.go.tmpl'])]


def frame(n, o, all_=()):
    """the obligations about what a call leaves alone"""
    return any(w in o[1] for w in FRAME)


FRAME = ('nothing else changes', 'recycled', 'shared', 'sharing', 'panic', 'reaches an end', 'feasible', 'within reach')
def recycling(n, o, all_=()):
    """what the pool must never change, and differences between a run with and one without a pool"""
    if 'recycled' in o[1] or 'within reach' in o[1]:
        return True
    if o[2] != 'failed':
        return 'pool=nil' in o[1]
    other = o[1].replace(' pool=nil]', ']') if 'pool=nil]' in o[1] else o[1].replace(']', ' pool=nil]', 1)
    same = [x for x in all_ if x[0] == o[0] and x[1] == other]
    return bool(same) and all(x[2] == 'proved' for x in same)


def races(n, o, all_=()):
    """what a call writes to"""
    return any(w in o[1] for w in ('others may hold', 'initial values', 'within reach'))


BPA = [BIGINT, LENGTHS, POINTS_, 'Fiat-Shamir challenges are not zero modulo the group order', 'reading the system random source succeeds',
       'proved for n in {1, 2, 4, 8, 16, 32}, the supported sizes',
       'the logarithms of the generators to one another play no role: equations are decided in the free module on the generators']
BPT = []
PAIRA = [BIGINT, 'reading the system random source succeeds', 'elements of G2 and GT lie in the subgroups of prime order',
         'bn256 groups are cyclic of order bn256.Order']
PAIRT = ['bilinearity and non-degeneracy of the optimal Ate pairing as mathematics (that bn256.Pair computes it is proved: C16)']
ULL = 'range proofs for [0, u^l): every base u, l one of 0..11, 16, 32, 63 (0..11 is all that Setup(a, b) yields)'


def ccd(c):
    return [('ccs08', f'TestVerif{c.upper()}', ['ccs08/ccs_common_verif_test.go', f'ccs08/{c}_verif_test.go'])]


PROPS = {
    'C14': dict(title='The pairing field tower implements field arithmetic', contracts=TOWER,
                driver=[('crypto/bn256', 'TestVerifC14', ['bn256/oracle_verif_test.go', 'bn256/c14_verif_test.go'])],
                assumptions=[BIGINT, 'bit lengths are below 2^40', 'termination of loops is not proved']),
    'C15': dict(title='G1 and G2 operations obey the group law', contracts=CURVE,
                driver=[('crypto/bn256', 'TestVerifC15', ['bn256/oracle_verif_test.go', 'bn256/c15_verif_test.go'])],
                assumptions=[BIGINT]),
    'C11': dict(title='secp256k1 point operations obey the group law', contracts=SECP,
                driver=[('crypto/p256', 'TestVerifC11', ['p256/oracle_verif_test.go', 'p256/c11_verif_test.go'])],
                assumptions=[BIGINT, 'curve points have prime order; -7 is no cube root obstruction: no point has a zero coordinate'],
                trusted=['go-ethereum secp256k1.BitCurve.ScalarMult (C code of libsecp256k1): k*P for 0 < k < N, (nil, nil) for k = 0']),
    'C13': dict(title='Modular vector and integer helpers compute their mathematical functions', contracts=lambda: VECS,
                driver=[('bulletproofs', 'TestVerifC13', ['bulletproofs/c13_verif_test.go', 'ec.go.tmpl'])],
                assumptions=[BIGINT, LENGTHS, POINTS_]),
    'C01': dict(title='Bulletproofs range proofs are complete', contracts=bp('Prove'), goals=[spec_bp.ip_lemma],
                driver=bpd('c01'), assumptions=BPA, trusted=BPT),
    'C02': dict(title='Bulletproofs never validate an honest proof for a secret outside the range', contracts=bp('Prove'),
                goals=[spec_bp.ip_lemma], driver=bpd('c02'), assumptions=BPA + [
                    'secrets are smaller in magnitude than the group order minus 2^n'], trusted=BPT),
    'C03': dict(title='Generic range proofs accept exactly the secrets inside [a, b)',
                contracts=bp('SetupGeneric', 'ProveGeneric', 'ProofBPRP.Verify', 'Prove', '*BulletProof.Verify', 'Setup'),
                goals=[spec_bp.ip_lemma], tags=('C01', 'C02', 'C03'), driver=bpd('c03'), assumptions=BPA, trusted=BPT),
    'C04': dict(title="The Bulletproofs verifier enforces the published equations on the given proof",
                contracts=bp('*BulletProof.Verify', 'InnerProductProof.Verify', 'HashBP', 'hashIP'),
                driver=bpd('c04'), assumptions=BPA, trusted=BPT),
    'C05': dict(title='The inner product argument is complete and exact',
                contracts=bp('proveInnerProduct', 'InnerProductProof.Verify', 'setupInnerProduct', 'commitInnerProduct'),
                goals=[spec_bp.ip_lemma], driver=bpd('c05'), assumptions=BPA, trusted=BPT),
    'C06': dict(title='Verification is repeatable and leaves its inputs unchanged',
                contracts=bp('*BulletProof.Verify', 'InnerProductProof.Verify', 'ProofBPRP.Verify', 'Prove', 'ProveGeneric',
                             'Setup', 'SetupGeneric', 'proveInnerProduct', 'setupInnerProduct'),
                driver=bpd('c06', 'c04'), assumptions=BPA, trusted=BPT, only=frame),
    'C07': dict(title='Range setup accepts exactly the supported sizes and yields valid generators',
                contracts=bp('Setup', 'IsPowerOfTwo'), driver=bpd('c07'),
                assumptions=BPA + ['math.Log2 of a power of two is exact'], trusted=BPT),
    'C22': dict(title='Provers draw fresh full-range nonces and publish none of them',
                contracts=lambda: bp('Prove', 'ProveGeneric')() + [spec_bb.CC + 'ProveSet', spec_bb.CC + 'ProveUL', spec_bb.W + 'Prove',
                                                                   spec_bb.BB + 'Keygen'],
                driver=bpd('c22') + ccd('c22s'), assumptions=BPA + PAIRA + [ULL], trusted=BPT + PAIRT, budget=6),
    'C08': dict(title='Set membership proofs are complete, and the verifier checks every equation',
                contracts=lambda: [spec_bb.CC + n for n in ('SetupSet', 'ProveSet', 'VerifySet')] + [spec_bb.UT + 'HashSet'],
                goals=[spec_bb.globals_goal], driver=ccd('c08'),
                assumptions=PAIRA + [LENGTHS, 'the challenge is not zero modulo the order',
                                     'no element of the set is the opposite of the private key'], trusted=PAIRT, budget=8),
    'C09': dict(title='CCS08 range proofs accept exactly the secrets inside the range',
                contracts=lambda: [spec_bb.CC + n for n in ('SetupUL', 'ProveUL', 'VerifyUL')] + [spec_bb.UT + 'Hash']
                + [spec_bb.W + n for n in ('Setup', 'Prove', 'Verify')],
                goals=[spec_bb.globals_goal, spec_vec.digits, spec_bb.interval_goal], driver=ccd('c09'),
                assumptions=PAIRA + [ULL, 'the challenge is not zero modulo the order', 'no digit is the opposite of the private key',
                                     'secrets are below half the group order in magnitude'], trusted=PAIRT, budget=12),
    'C10': dict(title='Boneh-Boyen signatures verify exactly for the signed message and key',
                contracts=lambda: [spec_bb.BB + n for n in ('Keygen', 'Sign', 'verify')], goals=[spec_bb.sign_goal],
                driver=[('crypto/bbsignatures', 'TestVerifC10', ['bbsignatures/c10_verif_test.go'])],
                assumptions=PAIRA, trusted=PAIRT, budget=8),
    'C18': dict(title="Two's-complement byte conversion is exact and minimal",
                contracts=lambda: [spec_bytes.BC + n for n in ('FlipBytes', 'FromByteArray', 'ToByteArray')],
                goals=[spec_bytes.conversions],
                driver=[('util/byteconversion', 'TestVerifC18', ['byteconversion/c18_verif_test.go'])],
                assumptions=[BIGINT, LENGTHS, 'a byte string of unknown length is its first bytes and the number the rest denotes']),
    'C12': dict(title='Hash-to-group returns valid reproducible points',
                contracts=lambda: [spec_p2.P2 + n for n in ('MapToGroup', 'F', 'HashToInt')] + [spec_p2.M + 'IsOnCurve'],
                driver=[('crypto/p256', 'TestVerifC12', ['p256/c12_verif_test.go'])],
                assumptions=[BIGINT, LENGTHS, 'SHA-256 is a function of the bytes it is given']),
    'C16': dict(title='Pairing building blocks and target-group arithmetic are exact',
                contracts=lambda: bn('lineFunctionAdd', 'lineFunctionDouble', 'mulLine', 'miller', 'finalExponentiation', 'optimalAte',
                                     'Pair', 'PairingCheck', 'GT.Add', 'GT.Neg', 'GT.Invert', 'GT.ScalarMult', 'GT.Exp', 'GT.IsOne',
                                     'gfP12.Frobenius', 'gfP12.FrobeniusP2', 'gfP12.Conjugate', 'gfP12.Exp', 'gfP6.Frobenius',
                                     'gfP6.FrobeniusP2'),
                driver=[('crypto/bn256', 'TestVerifC16', ['bn256/oracle_verif_test.go', 'bn256/c16_verif_test.go'])], budget=10,
                assumptions=[BIGINT, 'elements of G2 lie in the subgroup of prime order, where the Frobenius is multiplication by p',
                             'PairingCheck: lists of up to 3 pairs (bounded)'],
                trusted=['the theory of Miller functions: a function is determined up to a constant by its divisor, and vertical lines '
                         'disappear in the final exponentiation; bilinearity of the optimal ate pairing']),
    'C17': dict(title='Group element encodings round-trip and off-curve encodings are rejected',
                contracts=lambda: [f'(*{BN}{g}).{m}' for g in ('G1', 'G2', 'GT') for m in ('Marshal', 'Unmarshal', 'String')]
                + [f'(*{BN}{t}).{m}' for t in ('curvePoint', 'twistPoint') for m in ('IsOnCurve', 'MakeAffine')],
                driver=[('crypto/bn256', 'TestVerifC17', ['bn256/oracle_verif_test.go', 'bn256/c17_verif_test.go'])],
                assumptions=[BIGINT, 'z coordinates of points are stored reduced (never -1)']),
    'C21': dict(title='Recycled scratch numbers are never used by two owners',
                contracts=lambda: list(dict.fromkeys(TOWER() + CURVE() + bn(
                    'lineFunctionAdd', 'lineFunctionDouble', 'mulLine', 'miller', 'finalExponentiation', 'optimalAte', 'Pair',
                    'PairingCheck', 'GT.Add', 'GT.Neg', 'GT.Invert', 'GT.ScalarMult', 'GT.Exp', 'GT.Marshal', 'GT.Unmarshal'))),
                goals=[spec_pool.pool_goal], only=recycling,
                driver=[('crypto/bn256', 'TestVerifC21', ['bn256/oracle_verif_test.go', 'bn256/c21_verif_test.go'])],
                assumptions=[BIGINT, 'bit lengths are below 2^40', 'PairingCheck: lists of up to 3 pairs (bounded)',
                             'the miller loop runs over the literal loop constant']),
    'C19': dict(title='Integer-list parsing accepts exactly well-formed input',
                contracts=lambda: [PKG + 'util/byteconversion.ConvertToBigInt', PKG + 'util/byteconversion.ParseInput'],
                driver=[('util/byteconversion', 'TestVerifC19', ['byteconversion/c19_verif_test.go'])],
                assumptions=[BIGINT, LENGTHS, 'big.Int.SetString of the empty string leaves a new number zero (its '
                             'documentation calls the value undefined)',
                             'fields of a list are named by definitions by recursion over its prefixes']),
    'C23': dict(title='Concurrent use of shared constants and parameters is safe', races=True, only=races,
                contracts=lambda: bp('Setup', 'Prove', '*BulletProof.Verify', 'SetupGeneric', 'ProveGeneric', 'ProofBPRP.Verify',
                                     'setupInnerProduct', 'proveInnerProduct', 'InnerProductProof.Verify')()
                + [spec_bb.CC + n for n in ('SetupSet', 'ProveSet', 'VerifySet', 'SetupUL', 'ProveUL', 'VerifyUL')]
                + [spec_bb.W + n for n in ('Setup', 'Prove', 'Verify')] + [spec_bb.BB + n for n in ('Keygen', 'Sign', 'verify')]
                + [f'(*{BN}{g}).{m}' for g in ('G1', 'G2', 'GT') for m in ('Marshal', 'String')] + bn('Pair'),
                driver=[('ccs08', 'TestVerifC23', ['ccs08/c23_verif_test.go'], '-race'),
                        ('bulletproofs', 'TestVerifC23', ['bulletproofs/bp_oracle_verif_test.go', 'bulletproofs/c23_verif_test.go',
                                                          'ec.go.tmpl'], '-race')],
                assumptions=BPA + PAIRA),
    'C25': dict(title='Proofs survive JSON encoding', contracts=lambda: [], goals=[spec_json.json_goal], driver=bpd('c25'),
                assumptions=['documented behaviour of encoding/json for structs of exported fields (the assumed contract is spelled out '
                             'in prover/spec_json.py)', "a proof's verdict is a function of its contents (C04, C06)"],
                trusted=['encoding/json, math/big.Int.MarshalJSON and UnmarshalJSON']),
    'C20': dict(title='Base-u decomposition returns the digits of its argument', contracts=lambda: [PKG + 'util.Decompose'],
                goals=[spec_vec.digits],
                driver=[('util', 'TestVerifC20', ['util/c20_verif_test.go'])],
                assumptions=[BIGINT, LENGTHS]),
}


def setup(path):
    Pr = Prog(path)
    inits_to_skip(None, Pr)
    for p in ('util', 'ccs08'):
        L.TABLE[PKG + p + '.init'] = lambda e, s, a: NIL
    cache = {}

    def basest(ex):
        if 'st' not in cache:
            e0 = Exec(Pr, Lib())
            cache['st'] = base_state(e0)
            cache['g'] = e0.gaddr
        k = ''
        if ex.group:
            k = 'group'
            if 'stgroup' not in cache:
                groupstate()
        ex.gaddr = dict(cache['g' + k])
        return cache['st' + k].fork()

    def groupstate():
        """the initialiser of package util, in terms of group elements"""
        e0 = V.exec('group', Contract('package util', '', lambda c: None))
        e0.gaddr = dict(cache['g'])
        st = cache['st'].fork()
        n = PKG + 'util.init'
        V.group_used = set()
        try:
            rs = e0.run(st.fork(), Pr.funcs[n], [])
            if len(rs) == 1 and not isinstance(rs[0][1], PanicV):
                st = rs[0][0]
            V.group_used = set(e0.used)
        except (Unsupported, NotApplicable):
            pass
        cache['stgroup'], cache['ggroup'] = st, e0.gaddr
    V = Verifier(Pr, Lib(), basest)
    return V


def canaries(V):
    """obligations that must fail; all of them must be rejected"""
    n = 0
    bad = [Contract(f'(*{BN}gfP2).Add', 'e a b', lambda c: (c.set('e', c.a.p - c.b.p, 'any'), c.ret('e'))),
           Contract(f'(*{BN}gfP2).Mul', 'e a b pool', lambda c: (c.set('e', c.a.p * c.b.p + 1, 'any'), c.ret('e'))),
           Contract(f'(*{BN}curvePoint).Negative', 'c a', lambda c: c.set('c', PtRep(c.a)), outonly=('c',))]
    for con in bad:
        r = Report()
        V.verify(con, r)
        if any(o[2] == 'failed' for o in r.obl):
            n += 1
        elif any(o[2] in ('unsupported', 'undecided') for o in r.obl):
            n += 1
        else:
            return 0
    return n


def prove(prop, path, tier):
    """The property's own functions and goals are proved from the contracts of the functions they call.
    A contract of a called function that its body does not meet is withdrawn: the body itself is used
    in its callers, so that only what the property promises can fail."""
    P = PROPS[prop]
    t0 = time.time()
    V = setup(path)
    V.prop = prop
    V.races = P.get('races', False)
    main = [n for n in dict.fromkeys(P['contracts']() if P.get('contracts') else []) if n in CONTRACTS]
    done = {}                     # name or goal -> report
    deps = {}
    withdrawn = {}

    limit = P.get('limit', (160, 480) if tier == 'quick' else (900, 3600))

    def late(sig, frame):
        raise Unsupported('out of time')
    signal.signal(signal.SIGALRM, late)

    def run(n):
        if n in done:
            return
        r = Report()
        left = min(limit[0], limit[1] - (time.time() - t0))
        try:
            if left < 1:
                raise Unsupported('out of time')
            signal.alarm(int(left))
            try:
                if callable(n):
                    n(V, r)
                else:
                    V.verify(CONTRACTS[n], r)
            finally:
                signal.alarm(0)
        except Unsupported as e:
            r.add(getattr(n, '__name__', n), 'within reach', 'unsupported', str(e))
        done[n] = r
        deps[n] = set(r.used)

    for rnd in range(6):
        todo = list(P.get('goals', [])) + main
        seen = set()
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            if not callable(n):
                con = CONTRACTS.get(n)
                if con is None or con.o.get('special') or con.trusted:
                    continue
            run(n)
            todo.extend(sorted(deps[n]))
        bad = [n for n in seen if n in done and not callable(n) and n not in main
               and any(o[2] == 'failed' for o in done[n].obl)]
        # functions that write to an operand without changing its value: their contracts hold with this addition
        weak = [n for n in bad if V.races and n not in V.weak and None not in V.writers.get(n, {None})
                and all('others may hold' in o[1] for o in done[n].obl if o[2] == 'failed')]
        for n in weak:
            V.weak[n] = V.writers[n]
        bad = [n for n in bad if n not in V.weak
               or any(o[2] == 'failed' and 'others may hold' not in o[1] for o in done[n].obl)]
        if not bad and not weak or time.time() - t0 > P.get('retry', 200):
            break
        for n in bad:
            withdrawn[n] = [o for o in done[n].obl if o[2] == 'failed'][0]
        V.no_contract |= set(bad)
        stale = set(bad)
        for n in weak:
            stale |= {m for m in done if n in deps[m]}
        more = True
        while more:
            more = False
            for n in list(done):
                if n not in stale and deps[n] & stale:
                    stale.add(n)
                    more = True
        for n in stale:
            done.pop(n, None)
    obl, inlined, loops = [], set(), 0
    order = [n for n in done if n in seen]
    only = P.get('only')
    other = any(spec_bp.OTHER_SIZE in str(o[3]) for n in order for o in done[n].obl)
    for n in order:
        for o in done[n].obl:
            tag = o[1].split('] ', 1)[-1][:4]
            if re.match(r'C\d\d ', tag) and tag.strip() not in P.get('tags', (prop,)):
                continue
            if only and n in main and not callable(n) and not only(n, o, done[n].obl):
                continue
            if n in V.weak and 'others may hold' in o[1]:
                continue
            if n not in main and not callable(n) and o[2] == 'failed':
                o = (o[0], o[1], 'undecided', 'no time left to use the body in the callers: ' + str(o[3]))
            if other and o[2] == 'failed' and o[0].endswith('bulletproofs.ProveGeneric'):
                o = (o[0], o[1], 'undecided', 'proved for parameters of 32 bits only: ' + str(o[3]))
            obl.append(o)
        inlined |= done[n].inlined
        loops += done[n].loops
    lib = set(L.USED)
    can = canaries(V)
    return {'obl': obl, 'inlined': inlined - seen, 'loops': loops, 'lib': lib, 'canary': can, 'withdrawn': withdrawn,
            'seconds': time.time() - t0}
