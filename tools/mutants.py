#!/usr/bin/env python3
"""Random small mutations of Go functions: which survive the repository's tests and the property's check?
   mutants.py PROP COUNT SEED file.go[:func,func...] ...      (development aid; nothing registered uses it)"""
import json, os, random, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
R = random.Random(seed)
SW = [('Add(', 'Sub('), ('Sub(', 'Add('), ('Multiply(', 'Add('), ('VectorAdd', 'VectorSub'), ('VectorSub', 'VectorAdd'), ('VectorMul(', 'VectorAdd('),
      ('+', '-'), ('-', '+'), ('*', '+'), ('<', '<='), ('<=', '<'), ('>', '>='), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'),
      ('true', 'false'), ('false', 'true'), ('0', '1'), ('1', '0'), ('1', '2'), ('2', '1'), ('2', '3'), ('nil', 'nil'), ('Double(', 'Negative('),
      ('Mul(', 'Add('), ('Square(', 'Double('), ('Mod(', 'Set('), ('Neg(', 'Set('), ('i', '0'), ('i', 'i+1'), ('ORDER', 'CURVE.P'), ('.Lsh(', '.Rsh(')]


def funcs(src):
    out = {}
    for m in re.finditer(r'^func (?:\((\w+) \*?(\w+)\) )?(\w+)\(', src, re.M):
        e = src.index('\n}', m.start())
        b = src.index('{\n', m.start())
        out[(m.group(2) + '.' if m.group(2) else '') + m.group(3)] = (b, e)
    return out


def mutate(src, span):
    b, e = span
    body = src[b:e]
    for _ in range(200):
        k = R.random()
        lines = body.split('\n')
        if k < .25:
            c = [i for i, l in enumerate(lines) if l.strip() and not l.strip().startswith(('//', '}', '{', 'for', 'if', 'var', '*', 'return')) and l.strip()[-1] not in '{,(']
            if not c:
                continue
            i = R.choice(c)
            nb = '\n'.join(lines[:i] + lines[i + 1:])
            d = 'delete: ' + lines[i].strip()
        elif k < .55:
            ids = [m for m in re.finditer(r'(?<![\w.])[a-zA-Z_]\w*(?:\.[xyztpNVASHG]\b)?(?![\w(])', body)]
            ids = [m for m in ids if m.group() not in ('if', 'for', 'return', 'range', 'var', 'int', 'int64', 'new', 'else', 'nil', 'error', 'bool')]
            if len(ids) < 2:
                continue
            a, c = R.sample(ids, 2)
            if a.group() == c.group():
                continue
            nb = body[:a.start()] + c.group() + body[a.end():]
            d = f'{a.group()} -> {c.group()}'
        else:
            o, n = R.choice(SW)
            if o == n:
                continue
            pat = r'(?<![\w])' + re.escape(o) + r'(?![\w])' if o[0].isalnum() and not o.endswith('(') else re.escape(o)
            ms = list(re.finditer(pat, body))
            if not ms:
                continue
            m = R.choice(ms)
            nb = body[:m.start()] + n + body[m.end():]
            d = f'{o} -> {n}'
        if nb == body:
            continue
        ln = src[:b].count('\n') + 1 + next((i for i, (x, y) in enumerate(zip(body.split('\n'), nb.split('\n'))) if x != y), 0)
        l = nb.split('\n')[min(ln - src[:b].count('\n') - 1, len(nb.split('\n')) - 1)].strip()
        if l.startswith(('//', '*')):
            continue
        return src[:b] + nb + src[e:], f'line {ln}: {d}   [{l}]'
    return None, None


def sh(c, t=400):
    try:
        return subprocess.run(['bash', '-c', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 99, 'timeout')


jobs = []
for a in sys.argv[4:]:
    f, _, fs = a.partition(':')
    src = open('/repo/' + f).read()
    F = funcs(src)
    for n in (fs.split(',') if fs else F):
        jobs.append((f, src, n, F[n]))
muts, seen = [], set()
while len(muts) < count and len(seen) < count * 20:
    f, src, n, sp = R.choice(jobs)
    m, d = mutate(src, sp)
    seen.add(len(seen))
    if m and (f, m) not in [(x[0], x[1]) for x in muts]:
        muts.append((f, m, n, d))


def one(m):
    f, src, n, d = m
    T = tempfile.mkdtemp(prefix='mut.', dir='/tmp/w')
    try:
        sh(f'cp -a /repo {T}/repo')
        open(f'{T}/repo/{f}', 'w').write(src)
        b = sh(f'. /opt/vp/env.sh; cd {T}/repo && go build ./... && go vet -composites=false ./{os.path.dirname(f)} 2>/dev/null; go build ./...')
        if b.returncode:
            return 'nobuild', f, n, d, ''
        t = sh(f'. /opt/vp/env.sh; cd {T}/repo && timeout 100 go test -vet=off ./... 2>&1')
        if t.returncode and not os.environ.get('ALL'):
            return 'tests', f, n, d, ''
        c = sh(f'cd {H}; VERIF_REPO={T}/repo VERIF_EVIDENCE={T}/ev timeout 600 python3-vt check.py {prop}', 700)
        ob = [l.strip()[:230] for l in c.stdout.splitlines()]
        how = 'proof' if any('failed obligation' in l for l in ob) else ''
        how += '+driver' if any('FAILING' in l or 'replay driver: fail' in l for l in ob) else ''
        st = 'CAUGHT' if c.returncode == 1 else 'MISSED' if c.returncode == 0 else f'RC{c.returncode}'
        if t.returncode:
            st += '(tests too)'
        return st, f, n, d, how + ' | ' + ' // '.join(ob[:3] if st != 'CAUGHT' else [l for l in ob if 'failed obl' in l or 'FAIL' in l][:1])
    finally:
        sh(f'rm -rf {T}')


tot = {}
with ThreadPoolExecutor(int(os.environ.get('J', '5'))) as P:
    for r in P.map(one, muts):
        tot[r[0]] = tot.get(r[0], 0) + 1
        if r[0] not in ('nobuild', 'tests'):
            print(*r, flush=True)
print(tot)
