"""JSON: what encoding/json makes of the proof types.

Assumed contract of encoding/json (its documentation), for a struct type without codec methods of its own: Marshal
writes the exported fields under their keys (the tag's name, or the field's), except fields tagged "-" and fields that
share their key with another one; omitempty and omitzero leave out zero values.  Unmarshal into a zero value stores
every value under a key into the field with that key, null as nil.  Integers, booleans, *big.Int, and structs, pointers,
slices and arrays of such come back as they were (an empty slice may come back as nil)."""
from contract import *
import re

EXACT = {'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64', 'uintptr', 'bool'}


def json_tag(tag):
    m = re.search(r'(?:^|\s)json:"((?:[^"\\]|\\.)*)"', tag or '')
    if not m:
        return None, []
    if m.group(1) == '-':
        return '-', []
    name, *opts = m.group(1).split(',')
    return name, opts


def json_goal(V, rep):
    P = V.prog
    name = 'JSON encoding'
    seen = set()

    def typ(t, where):
        """obligations for values of this type; where: a field that has it"""
        T = P.types[t]
        k = T['k']
        if k == 'named':
            if T['name'] == 'math/big.Int':
                return rep.add(name, f'{where}: integers come back', 'proved')
            codec = set(T.get('codec', ())) - {'IsZero'}
            if codec or T.get('opaque'):
                return rep.add(name, f'{where}: {T["name"]} comes back', 'unsupported',
                               f'codec of its own: {", ".join(sorted(codec))}' if codec else 'type of a library')
            if t not in seen:
                seen.add(t)
                typ(T['u'], T['name'].split('/')[-1])
            return
        if k == 'basic':
            if T['name'] in EXACT:
                return rep.add(name, f'{where}: {T["name"]} comes back', 'proved')
            return rep.add(name, f'{where}: {T["name"]} comes back', 'unsupported', 'not every value comes back')
        if k in ('ptr', 'slice', 'array'):
            E = P.types[T['elem']]
            if k == 'ptr' and E['k'] == 'ptr':
                return rep.add(name, f'{where} comes back', 'unsupported', 'pointer to a pointer')
            return typ(T['elem'], where)
        if k != 'struct':
            bad = k == 'func' or T['str'].startswith(('chan', '<-chan'))
            return rep.add(name, f'{where} comes back', 'failed' if bad else 'unsupported', f'{T["str"]} in a proof')
        keys = {}
        for f in T['fields']:
            w = f'{where}.{f["name"]}'
            if f.get('emb'):
                rep.add(name, f'{w} is encoded', 'unsupported', 'embedded field')
                continue
            if not f['name'][0].isupper():
                rep.add(name, f'{w} is encoded', 'unsupported', 'not exported: it is zero after decoding')
                continue
            key, opts = json_tag(f.get('tag'))
            if key == '-':
                rep.add(name, f'{w} is encoded', 'failed', 'left out: the tag says "-"')
                continue
            bare = P.types[f['t']]
            zero = P.types[bare['elem']] if bare['k'] == 'ptr' else bare
            if 'omitzero' in opts and 'IsZero' in zero.get('codec', ()):
                rep.add(name, f'{w} is encoded', 'unsupported', 'left out when IsZero says so')
                continue
            if set(opts) - {'omitempty', 'omitzero', 'string'}:
                rep.add(name, f'{w} is encoded', 'unsupported', f'tag {f["tag"]}')
                continue
            if key is not None and not re.fullmatch(r'[A-Za-z0-9_.$%/-]*', key):
                rep.add(name, f'{w} is encoded', 'unsupported', f'key {key}')
                continue
            keys.setdefault(key or f['name'], []).append((w, f))
        fold = {}
        for key in keys:
            fold.setdefault(key.lower(), []).append(key)
        for key, fs in keys.items():
            for w, f in fs:
                if len(fs) > 1:
                    tagged = [x for x, g in fs if json_tag(g.get('tag'))[0]]
                    if tagged != [w]:
                        rep.add(name, f'{w} is encoded', 'failed', f'key {key} is that of {", ".join(x for x, _ in fs)}')
                        continue
                if len(fold[key.lower()]) > 1 and {'omitempty', 'omitzero'} & set(json_tag(f.get('tag'))[1]):
                    # the other key would be taken for this one
                    rep.add(name, f'{w} is encoded', 'unsupported', f'keys {fold[key.lower()]}')
                    continue
                rep.add(name, f'{w} is encoded', 'proved')
                typ(f['t'], w)

    for n in ('BulletProof', 'ProofBPRP'):
        t = P.tid.get(PKG + 'bulletproofs.' + n)
        if t is None:
            rep.add(name, f'type {n}', 'unsupported', 'type not found')
        else:
            typ(t, n)
