#!/usr/bin/env python3-vt
"""Decide one property of /repo:  check.py C14 [--thorough]

1. the SSA form of /repo's current source is extracted (front/),
2. every contract the property depends on is verified against the body it is
   attached to, and the lemmas and whole-protocol goals of the property are
   discharged from the contracts (prover/),
3. the replay driver of the property runs the real code on seeded inputs with an
   independent oracle: it turns a failed obligation into a failing input, it is the
   bounded stand-in for functions outside the verifier's reach, and it cross-checks
   the trusted models.
"""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':     # the order of sets, and with it every run, is the same each time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'prover'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, executable='/bin/bash', stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def extract(tmp):
    front = os.path.join(HERE, 'build', 'front')
    if not os.path.exists(front):
        r = sh(f'. /opt/vp/env.sh; cd {HERE}/front && go build -o ../build/front .')
        if r.returncode:
            raise RuntimeError('building the front end: ' + r.stdout[-2000:])
    out = os.path.join(tmp, 'ssa.json')
    r = sh(f'. /opt/vp/env.sh; {front} {REPO} {out}')
    if r.returncode:
        raise RuntimeError('extracting the SSA form: ' + r.stdout[-2000:])
    return out


def run_driver(prop, spec, tmp, tier, seed, budget):
    """(status, text): status ok / fail / error"""
    texts = []
    for pkg, test, files, *flags in spec:
        rep = {}
        name = next(l.split()[1] for l in open(os.path.join(HERE, 'replay', files[0])) if l.startswith('package '))
        for f in ['common.go.tmpl'] + list(files):
            src = os.path.join(HERE, 'replay', f)
            if f.endswith('.tmpl'):
                com = os.path.join(tmp, f'{os.path.basename(f)[:-8]}_verif_test.go')
                with open(com, 'w') as g:
                    g.write(open(src).read().replace('package PKG', 'package ' + name))
                src = com
            rep[f'{REPO}/{pkg}/{os.path.basename(src)}'] = src
        ov = os.path.join(tmp, 'overlay.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        env = f'VERIF_SEED={seed} VERIF_TIER={tier} VERIF_BUDGET={budget}'
        try:
            r = sh(f'. /opt/vp/env.sh; cd {REPO} && {env} timeout {budget * 3 + 120} go test {" ".join(flags)} -count=1 -overlay {ov} '
                   f"-vet=off -run '^{test}$' -v ./{pkg}")
        except Exception as e:                                  # noqa
            return 'error', str(e)
        texts.append(f'== {pkg} {test}\n' + r.stdout)
        if r.returncode:
            if 'WARNING: DATA RACE' in r.stdout:
                texts.append('FAILING-INPUT the calls of this test made at the same time: the race detector reports a data race')
                return 'fail', '\n'.join(texts)
            if 'FAILING-INPUT' in r.stdout:
                return 'fail', '\n'.join(texts)
            if 'panic:' in r.stdout and '[build failed]' not in r.stdout and 'setup failed' not in r.stdout:
                return 'fail', '\n'.join(texts)
            return 'error', '\n'.join(texts)
    return 'ok', '\n'.join(texts)


def main():
    prop = sys.argv[1]
    if prop == '--warm':                       # compile the packages once, so that checks start from a warm cache
        sh(f'. /opt/vp/env.sh; cd {REPO} && go test -count=1 -vet=off -run XXX ./...')
        return 0
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        return decide(prop, tier, seed, t0, tmp)
    finally:
        subprocess.run(['rm', '-rf', tmp])


def decide(prop, tier, seed, t0, tmp):
    import props
    P = props.PROPS[prop]
    obl, undec, notes = [], [], []
    rep = None
    try:
        path = extract(tmp)
        rep = props.prove(prop, path, tier)
        obl = rep['obl']
    except Exception:                                           # noqa
        notes.append('the verifier stopped: ' + traceback.format_exc()[-1500:])
    proved = [o for o in obl if o[2] == 'proved']
    failed = [o for o in obl if o[2] == 'failed']
    undec = [o for o in obl if o[2] in ('unsupported', 'undecided')]
    if rep is not None and not rep['canary']:
        print('the canary obligations were accepted: the verifier is broken', file=sys.stderr)
        return 3
    budget = P.get('budget', 8) * (6 if tier == 'thorough' else 1)
    if failed or undec or notes:
        budget *= 3
    drv, text = 'none', ''
    if P.get('driver'):
        drv, text = run_driver(prop, P['driver'], tmp, tier, seed, budget)
    viol = bool(failed) or drv == 'fail'
    evid = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evid, exist_ok=True)
    replay = os.path.join(evid, f'{prop}.replay.txt')
    if viol or drv == 'error':
        with open(replay, 'w') as f:
            f.write(f'property {prop}: {P["title"]}\n\n')
            for o in failed[:40]:
                f.write(f'FAILED OBLIGATION {short(o[0])} {o[1]}\n    {str(o[3])[:1500]}\n')
            for o in undec[:20]:
                f.write(f'undecided {short(o[0])} {o[1]}: {str(o[3])[:600]}\n')
            f.write('\n'.join(notes) + '\n')
            f.write(f'\nreplay on the real code (re-run: VERIF_SEED={seed} python3-vt {HERE}/check.py {prop}): {drv}\n')
            f.write(text[-6000:])
    ev = evidence(prop, P, tier, seed, t0, rep, obl, proved, failed, undec, notes, drv, text)
    with open(os.path.join(evid, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(obl)} obligations, {len(proved)} discharged, {len(failed)} failed, '
          f'{len(undec)} outside the verifier\'s reach; replay driver: {drv}; {time.time() - t0:.1f} s')
    for o in undec[:8]:
        print(f'  not decided by proof (bounded stand-in): {short(o[0])} {o[1]}: {str(o[3])[:200]}')
    for n, o in (rep or {}).get('withdrawn', {}).items():
        print(f'  contract not met, body used in the callers: {short(n)} {o[1]}: {str(o[3])[:200]}')
    for n in notes:
        print('  ' + n.replace('\n', '\n  '))
    if viol:
        for o in failed[:8]:
            print(f'  failed obligation: {short(o[0])} {o[1]}: {str(o[3])[:300]}')
        for l in text.splitlines():
            if 'FAILING-INPUT' in l:
                print('  ' + l.strip()[:400])
                break
        end = '' if drv == 'fail' else ' no-failing-input-found'
        print(f'VIOLATION property={prop} replay={replay}{end}')
        return 1
    return 0


def short(n):
    return str(n).replace('github.com/ing-bank/zkrp/', '')


def evidence(prop, P, tier, seed, t0, rep, obl, proved, failed, undec, notes, drv, text):
    import logic
    per = {}
    for o in obl:
        d = per.setdefault(short(o[0]), {'obligations': 0, 'discharged': 0})
        d['obligations'] += 1
        d['discharged'] += o[2] == 'proved'
    runs = sum(int(l.split('CASES=')[1].split()[0]) for l in text.splitlines() if 'CASES=' in l)
    cov = {
        'obligations': len(obl),
        'discharged': len(proved),
        'checker_cmd': f'python3-vt check.py {prop}',
        'trusted_base': [
            'front/ (SSA extraction with golang.org/x/tools/go/ssa) and prover/ (symbolic execution, contracts, '
            'normal forms modulo primes)',
            'models of library functions: ' + ', '.join(sorted(rep['lib'])) if rep else 'none used',
            'z3 for the linear integer side conditions',
        ] + P.get('trusted', []),
        'functions_under_contract': per,
        'functions_inlined_in_callers': sorted(short(x) for x in rep['inlined']) if rep else [],
        'loops_with_inferred_invariants': rep['loops'] if rep else 0,
        'back_ends': {'normal forms': len(obl), 'z3_queries': logic.STAT['z3'],
                      'z3_seconds': round(logic.STAT['z3_s'], 2),
                      'prover_seconds': round(rep['seconds'], 2) if rep else 0},
        'canaries_rejected': rep['canary'] if rep else 0,
        'bounded_stand_ins': [f'{short(o[0])} {o[1]}: {str(o[3])[:200]}' for o in undec],
        'replay_driver': {'status': drv, 'cases_run_on_the_real_code': runs,
                          'bound': 'seeded inputs only; never counted as proved'},
    }
    if rep and rep.get('withdrawn'):
        cov['contracts_withdrawn'] = {short(n): f'{o[1]}: {str(o[3])[:200]} (the body is used in the callers)'
                                      for n, o in rep['withdrawn'].items()}
    if notes:
        cov['notes'] = notes
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
            'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
            'violations': len(failed) + (1 if drv == 'fail' and not failed else 0)}


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
