"""Checks that do not need abstract interpretation: facts about public signatures and compile-fail witnesses."""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIN_FUNCTIONS, MIN_TYPES = 200, 15


def finding(where, cat, why, loc=None, trace=()):
    return {'harness': 'api:' + where, 'cat': cat, 'why': why, 'where': None, 'loc': loc, 'kind': 'signature',
            'collision': False, 'trace': list(trace)}


def run(prop, out, tier):
    if prop not in ('C20', 'C27'):
        return [], {}
    fs, cov = [], {}
    api = json.load(open(os.path.join(out, 'api.json')))
    if len(api.get('functions', [])) < MIN_FUNCTIONS or len(api.get('types', [])) < MIN_TYPES:
        sys.exit('the public API was not found: %d functions, %d types' % (len(api.get('functions', [])), len(api.get('types', []))))
    (signatures if prop == 'C20' else copies)(api, fs)
    n_sig = len(api['functions']) + len(api['types'])
    und, n, sample = witnesses(prop, out, fs)
    cov = {'signatures': n_sig, 'witnesses': n, 'witnesses_undecided': und, 'witness_samples': sample,
           'obligations': n_sig + n, 'undischarged': len(und),
           'witness_rule': 'each witness program is compiled against /repo twice: with the offending statement it has to be '
                           'rejected by the borrow or trait checker, without it it has to be accepted'}
    if prop == 'C20':
        cov['explanation'] = ('Signature analysis of every function, associated type and type reachable from outside the crate '
                              '(from the resolved types, not the text), and compile-fail witnesses: programs that break the '
                              'rule next to twins that keep it, judged by the borrow and trait checker.')
        cov['rule'] = ('no result type contains a mutable reference, raw pointer or raw table part over stored items; every '
                       'lifetime of a result comes from the receiver; no public fields; no hand-written Send/Sync')
        cov['samples'] = sample
    for k, w in und.items():
        print('UNDECIDED witness %s: %s' % (k, w))
    return fs, cov


def signatures(api, fs):
    for f in api['functions']:
        for x in f['leaks']:
            if 'Global' in x:
                continue
            fs.append(finding(f['path'], 'leak', 'the interface hands out %s' % x, trace=[f['sig']]))
        for x in f.get('loose', []):
            fs.append(finding(f['path'], 'lifetime', 'the result has a lifetime that does not come from the receiver (%s)' % x,
                              trace=[f['sig']]))
    for t in api['types']:
        for x in t['public_fields']:
            fs.append(finding(t['path'], 'field', 'field %s of the type can be changed from outside' % x))
    for i in api['unsafe_impls']:
        if re.search(r'as std::marker::(Send|Sync)>', i['impl']):
            fs.append(finding(i['impl'], 'auto', 'whether the type may cross threads is asserted, not derived from its contents'))


def copies(api, fs):
    for f in api['functions']:
        if re.search(r'::clone::Clone>::clone(_from)?$|OptionalPair::<&L, &R>::cloned$', f['path']):
            continue
        for b in f['bounds']:
            m = re.match(r"^(&?'?\w+): std::(clone::Clone|marker::Copy)$", b)
            if m and m.group(1) in ('L', 'R', 'T'):
                fs.append(finding(f['path'], 'copy', 'the operation needs copies of stored items (%s)' % b, trace=[f['sig']]))


# ---------------------------------------------------------------------------------------------- witnesses

def codes_of(text):
    cs = set(re.findall(r'^error\[(E\d+)\]', text, re.M))
    if re.search(r'lifetime may not live long enough|does not live long enough|captures lifetime', text):
        cs.add('lifetime')
    return cs


def build_lib(out):
    d = os.path.join(out, 'wlib')
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d)
    env.pop('RUSTC_WRAPPER', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline'], cwd=os.path.join(HERE, 'probe'), env=env, timeout=400,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    libs = glob.glob(d + '/debug/**/libcycle_map-*.rmeta', recursive=True)
    if r.returncode or len(libs) != 1:
        print(r.stdout[-2000:])
        sys.exit('cannot compile /repo for the witnesses')
    dirs = sorted({os.path.dirname(x) for x in glob.glob(d + '/debug/**/*.rmeta', recursive=True)} |
                  {os.path.dirname(x) for x in glob.glob(d + '/debug/**/*.so', recursive=True)})
    return d, libs[0], dirs


def witnesses(prop, out, fs):
    sys.path.insert(0, os.path.join(HERE, 'witness'))
    import cases
    todo = [c for c in cases.cases() if c['prop'] == prop]
    names = [c['name'] for c in todo]
    assert len(set(names)) == len(names), 'witness names'
    d, lib, dirs = build_lib(out)
    w = os.path.join(out, 'w')
    os.makedirs(w, exist_ok=True)

    def rustc(src, bad, to):
        a = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=human',
             '--extern', 'cycle_map=' + lib, '-o', to, src]
        for x in dirs:
            a += ['-L', 'dependency=' + x]
        if bad:
            a += ['--cfg', 'bad']
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return r.returncode, r.stdout

    def one(c):
        src = os.path.join(w, c['name'] + '.rs')
        with open(src, 'w') as f:
            f.write(c['src'])
        return c, rustc(src, False, src + '.a'), rustc(src, True, src + '.b')
    und = {}
    sample = []
    with ThreadPoolExecutor(8) as ex:
        for c, (g, gt), (b, bt) in ex.map(one, todo):
            prog = c['src'].splitlines()[-1]
            if g != 0:
                cs = codes_of(gt)
                if cs and cs <= c['codes'] | {'E0382', 'E0308'} and cs - {'E0308'}:
                    fs.append(finding(c['name'], 'witness', 'an ordinary use is rejected (%s): %s' % (', '.join(sorted(cs)), c['what']),
                                      trace=[prog] + gt.splitlines()[:12]))
                else:
                    und[c['name']] = 'the accepted form does not compile (%s)' % ', '.join(sorted(cs))
            elif b == 0:
                fs.append(finding(c['name'], 'witness', 'the compiler accepts %s' % c['what'], trace=[prog]))
            else:
                cs = codes_of(bt)
                if not cs & c['codes']:
                    und[c['name']] = 'rejected for another reason (%s)' % ', '.join(sorted(cs))
                elif len(sample) < 6:
                    sample.append({'program': prog, 'rejected_with': sorted(cs)})
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return und, len(todo), sample
