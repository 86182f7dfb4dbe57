#!/usr/bin/env python3
"""findings.py [DUMPDIR] [glob...]: every finding on a tree (development aid; not a registered check)."""
import sys, json, fnmatch, check, attrib
path = sys.argv[1] if len(sys.argv) > 1 else 'build/dump'
roots = sorted(x[3:] for x in json.load(open(path + '/mir.json'))['roots'])
pats = sys.argv[2:]
if pats:
    roots = [n for n in roots if any(fnmatch.fnmatch(n, p) for p in pats)]
res = check.run_all(path + '/mir.json', roots, 'quick', 600)
known = {(k['harness'], k['category'], k['what']) for k in json.load(open(check.HERE + '/known_findings.json'))['known']}
seen = {}
for n in roots:
    r = res[n]
    if r['undecided']:
        print('UNDECIDED', n, r['undecided'][:200])
    for f in r['findings']:
        k = (n, f['cat'], f['why'])
        seen.setdefault(k, set()).update(attrib.props(n, f['cat'], f['kind'], f['collision']))
for k, p in seen.items():
    print('known' if k in known else 'NEW', json.dumps(list(k) + [','.join(sorted(p))])[:400])
