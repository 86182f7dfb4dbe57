#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of CycleMap from /repo's current source.

Steps: (1) compile /repo (through /verif/probe) with the rustc front end and dump the resolved, monomorphic MIR
of every function reachable from the public API, (2) abstractly interpret the entry points that matter for the
property over the shape domain of analysis/, (3) judge every abstract outcome against analysis/specs.py,
(4) report what is attributed to the property (analysis/attrib.py)."""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.setrecursionlimit(12000)
from multiprocessing import Process, Queue, cpu_count

LEVEL = 'other'
TRUSTED = [
    'rustc (front end, type checker, MIR construction) of the pinned nightly',
    'analysis/models.py: the meaning of hashbrown::raw::RawTable, std iterators, Option, closures and formatting',
    'analysis/specs.py: the reference semantics of each public operation',
    'the probe crate instantiates the generic code at opaque item types: the code cannot inspect them except by Hash/Eq/Clone',
    'user Hash/Eq/Clone implementations are pure and mutually consistent; counters do not wrap',
]


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ensure_driver():
    exe = os.path.join(HERE, 'build/driver/release/mirdump')
    if not os.path.exists(exe):
        r = sh(['bash', os.path.join(HERE, 'setup.sh')], timeout=1500)
        if r.returncode or not os.path.exists(exe):
            print(r.stdout[-3000:])
            sys.exit('cannot build the MIR dumper')


def dump(tag, config=()):
    out = os.path.join(HERE, 'build', 'dump-' + tag)
    r = sh(['bash', os.path.join(HERE, 'run_dump.sh'), out] + list(config), timeout=400)
    if r.returncode and config:
        return None
    if r.returncode:
        print(r.stdout[-3000:])
        print('the analysed crate (or an entry point of its public API) no longer compiles')
        sys.exit(4)
    return out


def attempt(E, name, tl, tier):
    import specs, attrib
    from absint import Undecided
    t0 = time.time()
    res = {'name': name, 'outcomes': 0, 'findings': [], 'undecided': None, 'fns': [], 'blocks': 0, 'states': 0}

    class TimeUp(Undecided):
        pass

    def alarm(*a):
        raise TimeUp('time limit')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(tl))
    I = None
    fs = {}
    try:
        ext = specs.HANDLERS.get(name.split('__')[0]) is specs.h_extend
        eq = specs.is_equality(name)
        prep = None
        E.torn = specs.torn_after(name.split('__')[0]) if ext else None
        if eq and not name.endswith('self'):
            prep = lambda I, st: E.joint_maps(I, st, name[:2])
        I, outs = E.run(name, items=items_for(name, tier) if ext else None, prepare=prep)
        for f in I.findings:
            k = (f.kind, f.msg, f.where, 'any', f.collision)
            fs.setdefault(k, (f.loc, f.trace))
        for kind, r, st in outs:
            col = bool(st.flags.get('collision'))
            try:
                for cat, why in (specs.judge_eq if eq else specs.judge)(E, I, name, kind, r, st):
                    fs.setdefault((cat, why, None, kind, col), (None, st.trace_list()))
            except TimeUp:
                raise
            except Undecided as ex:
                res['undecided'] = str(ex)[:300]
        res['outcomes'] = len(outs)
    except Undecided as ex:
        res['undecided'] = str(ex)[:300]
        if I is None:
            I = E.last
            for f in I.findings:
                if f.kind == 'nontermination':
                    fs.setdefault((f.kind, f.msg, f.where, 'any', f.collision), (f.loc, f.trace))
    except MemoryError:
        res['undecided'] = 'memory limit'
    except Exception:
        res['undecided'] = 'internal: ' + traceback.format_exc()[-500:]
    finally:
        signal.alarm(0)
    for (cat, why, where, kind, col), (loc, trace) in fs.items():
        res['findings'].append({'harness': name, 'cat': cat, 'why': why, 'where': where, 'kind': kind,
                                'collision': col, 'loc': loc, 'trace': trace[-60:]})
    try:
        I = I or E.last
        res['fns'] = sorted({E.prog.inst[str(i)]['path'] for i in I.fnseen
                             if E.prog.inst[str(i)]['krate'] == 'cycle_map'})
        res['blocks'] = len(I.blkseen)
        res['states'] = I.stats['states']
        res['steps'] = I.stats['blocks']
    except Exception:
        pass
    if I is not None and getattr(I, 'cut', 0):
        res['cut'] = I.cut
        if not res['undecided']:
            res['undecided'] = 'groups of entangled elements grow beyond the limit (%d states not followed)' % I.cut
    if I is not None and I.unclear and not res['undecided']:
        res['undecided'] = 'a panic depends on a count that was lost track of'
    if I is not None:
        res['maxes'] = I.maxes
    res['s'] = round(time.time() - t0, 2)
    return res


UB = ('dangling', 'unreachable', 'iterator-invalidated')


def attempt_wild(E, name, tl, tier):
    """run a harness on arbitrary tables with arbitrarily answering and panicking Hash and Eq: it may do
    anything but touch elements that are gone"""
    import absint
    from absint import Undecided
    t0 = time.time()
    res = {'name': name, 'outcomes': 0, 'findings': [], 'undecided': None, 'fns': [], 'blocks': 0, 'states': 0}

    class TimeUp(Undecided):
        pass

    def alarm(*a):
        raise TimeUp('time limit')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(tl))
    E.torn = None
    try:
        pre = name.split('_')[0]
        E.prototype(pre)
        absint.Interp.wild = True
        import specs
        ext = specs.HANDLERS.get(name.split('__')[0]) is specs.h_extend
        _, outs = E.run(name, items=(2 if tier == 'thorough' else 1) if ext else None)
        res['outcomes'] = len(outs)
    except Undecided as ex:
        res['undecided'] = str(ex)[:300]
    except MemoryError:
        res['undecided'] = 'memory limit'
    except Exception:
        res['undecided'] = 'internal: ' + traceback.format_exc()[-500:]
    finally:
        signal.alarm(0)
        absint.Interp.wild = False
    I = E.last
    seen = set()
    for f in I.findings:
        if f.kind in UB and (f.kind, f.msg, f.where) not in seen:
            seen.add((f.kind, f.msg, f.where))
            res['findings'].append({'harness': name + '@wild', 'cat': f.kind, 'why': f.msg, 'where': f.where, 'kind': 'any',
                                    'collision': False, 'loc': f.loc, 'trace': f.trace[-60:]})
    res['fns'] = sorted({E.prog.inst[str(i)]['path'] for i in I.fnseen if E.prog.inst[str(i)]['krate'] == 'cycle_map'})
    res['blocks'] = len(I.blkseen)
    res['states'] = I.stats['states']
    if getattr(I, 'cut', 0) and not res['undecided']:
        res['undecided'] = 'groups of entangled elements grow beyond the limit'
    if I.unclear and not res['undecided']:
        res['undecided'] = 'collected buckets of unrelated elements may coincide'
    res['s'] = round(time.time() - t0, 2)
    return res


def analyse(E, name, tl, tier):
    """judge one harness"""
    t0 = time.time()
    if name.endswith('@wild'):
        res = attempt_wild(E, name[:-5], tl, tier)
        res['name'] = name
        return res
    E.bound = 0
    res = attempt(E, name, tl, tier)
    if res['undecided'] and re.match('time limit|step limit|too many abstract|memory', res['undecided']) and tl > 20:
        # an operation that breaks its map may never settle: what goes wrong within a few rounds is still reported
        seen = {(f['cat'], f['why']) for f in res['findings']}
        for E.bound in (2, 3):
            r2 = attempt(E, name, max(20, tl / 4), tier)
            res['findings'] += [f for f in r2['findings'] if (f['cat'], f['why']) not in seen]
            if res['findings']:
                break
        E.bound = 0
    res['s'] = round(time.time() - t0, 2)
    return res


def items_for(name, tier):
    """how many elements a source given to extend, collect or deserialize yields at most"""
    b = name.split('__')[0]
    d = 1 if tier == 'thorough' else 0
    if b.split('_', 1)[1].startswith('extend'):
        return 2 + d
    return 3 + d


def worker(path, jobs, out, tier, deadline, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    from engine import Engine
    E = Engine(path)
    while True:
        n = jobs.get()
        if n is None:
            break
        left = deadline - time.time()
        if left < 2:
            out.put({'name': n, 'outcomes': 0, 'findings': [], 'undecided': 'overall time budget', 'fns': [],
                     'blocks': 0, 'states': 0, 's': 0})
            continue
        out.put({'name': n, 'start': time.time()})
        out.put(analyse(E, n, min(left, 150 if tier == 'quick' else 2400), tier))


SLOW = ('pm_drain_filter', 'pm_eq', 'pm_ne', 'gm_eq', 'gm_ne', 'cm_drain_filter', 'pm_drain')


def run_all(path, names, tier, budget):
    jobs, out = Queue(), Queue()
    names = sorted(names, key=lambda n: (not n.startswith(SLOW), n))
    for n in names:
        jobs.put(n)
    nw = max(1, min(8, cpu_count(), len(names)))
    for _ in range(nw):
        jobs.put(None)
    deadline = time.time() + budget
    ps = [Process(target=worker, args=(path, jobs, out, tier, deadline, 3500 << 20), daemon=True) for _ in range(nw)]
    for p in ps:
        p.start()
    res, started = {}, set()
    while len(res) < len(names):
        try:
            r = out.get(timeout=5)
            if 'start' in r:
                started.add(r['name'])
            else:
                res[r['name']] = r
        except Exception:
            if not any(p.is_alive() for p in ps) or time.time() > deadline + 60:
                break
    for p in ps:
        if p.is_alive():
            p.terminate()
    for n in names:
        if n not in res:
            res[n] = {'name': n, 'outcomes': 0, 'findings': [], 'undecided': 'the analysis process died', 'fns': [],
                      'blocks': 0, 'states': 0, 's': 0}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    prop = a.property
    t0 = time.time()
    ensure_driver()
    out = dump('%s-%d' % (prop, os.getpid()))
    try:
        code = decide(prop, tier, out, t0)
    finally:
        if not a.keep:
            shutil.rmtree(out, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, out, t0):
    import attrib
    path = os.path.join(out, 'mir.json')
    roots = sorted(x[3:] for x in json.load(open(path))['roots'])
    names = [n + attrib.mode(prop) for n in roots if attrib.relevant(prop, n)]
    budget = (560 if prop != 'C31' else 290) if tier == 'quick' else 5400
    res = run_all(path, names, tier, budget)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['known']
    kidx = {(k['harness'], k['category'], k['what']): k for k in known}
    violations, knowns, undecided = {}, {}, {}
    for n in names:
        r = res[n]
        if r['undecided']:
            undecided[n] = r['undecided']
        for f in r['findings']:
            if prop not in attrib.props(n, f['cat'], f['kind'], f['collision']):
                continue
            key = (n, f['cat'], f['why'])
            if key in kidx:
                knowns.setdefault(key, kidx[key])
            else:
                violations.setdefault(key, f)
    import rules
    if prop == 'C31':
        extra, xcov = compare_builds(names, res, tier, out)
    else:
        extra, xcov = rules.run(prop, out, tier)
    for f in extra:
        key = (f['harness'], f['cat'], f['why'])
        if key in kidx:
            knowns.setdefault(key, kidx[key])
        else:
            violations.setdefault(key, f)
    for key, k in sorted(knowns.items()):
        print('KNOWN-FINDING: property=%s %s: %s [%s]' % (prop, key[0], k['what'], k['id']))
    rp = None
    if violations:
        d = os.path.join(HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + '.txt')
        with open(rp, 'w') as fh:
            for key, f in violations.items():
                fh.write('%s [%s] %s\n' % (key[0], key[1], key[2]))
                fh.write('  entry point: %s\n' % entry(res.get(key[0]), key[0]))
                if f.get('where'):
                    fh.write('  construct: %s at %s\n' % (f['where'], f['loc']))
                fh.write('  outcome: %s%s\n' % (f['kind'], ', on a path where two items share a hash' if f['collision'] else ''))
                for s in f['trace']:
                    fh.write('    path: %s\n' % s)
                fh.write('\n')
        for key, f in list(violations.items())[:20]:
            print('%s [%s] %s%s' % (entry(res.get(key[0]), key[0]), key[1], key[2],
                                    ' (in %s at %s)' % (f['where'], f['loc']) if f.get('where') else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for n, why in sorted(undecided.items()):
        print('UNDECIDED %s: %s' % (n, why.strip().splitlines()[-1][:160]))
    fns = sorted({f for r in res.values() for f in r['fns']})
    nob = sum(max(1, r['outcomes']) for r in res.values()) + xcov.get('obligations', 0)
    bad = len(violations) + len(knowns)
    cov = {
        'explanation': 'Abstract interpretation of the resolved MIR of /repo (three-valued shape domain for the two '
                       'raw tables, their entries, nested sets and iterators). Each entry point is started from the '
                       'most general well-formed map; every abstract outcome is compared with the reference '
                       'semantics of the operation. "undecided" entry points left the domain and prove nothing.',
        'entry_points': len(names),
        'entry_points_decided': len(names) - len(undecided),
        'undecided': undecided,
        'functions_analysed': len(fns),
        'functions': fns,
        'crate_functions_no_harness_reaches': unreached(out),
        'obligations': nob,
        'discharged': nob - bad - len(undecided) - xcov.get('undischarged', 0),
        'abstract_outcomes': sum(r['outcomes'] for r in res.values()),
        'abstract_states_at_loop_heads': sum(r['states'] for r in res.values()),
        'basic_blocks_covered': sum(r['blocks'] for r in res.values()),
        'rule': 'no outcome of an entry point of this property may differ from its specification (categories in '
                'analysis/attrib.py)',
        'samples': [{'entry_point': n, 'outcomes': res[n]['outcomes'], 'functions': len(res[n]['fns'])} for n in names[:8]],
        'known_findings': [list(k) for k in knowns],
        'checker_cmd': 'python3 /verif/check.py %s' % prop,
        'trusted_base': TRUSTED,
    }
    cov.update(xcov)
    cov['obligations'], cov['discharged'] = nob, max(0, nob - bad - len(undecided) - xcov.get('undischarged', 0))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVEL,
          'coverage': cov, 'assumptions': TRUSTED[1:], 'wall_s': round(time.time() - t0, 1),
          'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d entry points, %d functions, %d outcomes, %d undecided, %d known, %d violations, %.0f s' % (
        prop, len(names), len(fns), cov['abstract_outcomes'], len(undecided), len(knowns), len(violations), ev['wall_s']))
    return 1 if violations else 0


BUILDS = [('without debug assertions', ('-Cdebug-assertions=off -Coverflow-checks=on', '')),
          ('without the serde feature', ('', '--no-default-features'))]


def compare_builds(names, base, tier, out):
    """C31: what the analysis finds must not depend on how the crate is built"""
    found, cov, undec, n_out = [], {}, 0, 0
    for what, config in BUILDS:
        o = dump(os.path.basename(out)[5:] + '-alt', config)
        if o is None:
            found.append({'harness': 'crate', 'cat': 'build', 'why': 'does not compile ' + what, 'where': None, 'kind': 'any',
                          'collision': False, 'loc': None, 'trace': []})
            cov[what] = 'does not compile'
            continue
        try:
            path = os.path.join(o, 'mir.json')
            have = {x[3:] for x in json.load(open(path))['roots']}
            todo = [n for n in names if n in have]
            res = run_all(path, todo, tier, 200 if tier == 'quick' else 2400)
        finally:
            shutil.rmtree(o, ignore_errors=True)
        for n in todo:
            a, b = base[n], res[n]
            if a['undecided'] or b['undecided']:
                undec += 1
                continue
            fa, fb = ({(f['cat'], re.sub(r'\d+', '', f['why']), f['kind'], f['collision']): f for f in r['findings']} for r in (a, b))
            n_out += b['outcomes']
            for k in sorted(set(fa) ^ set(fb), key=str):
                f = dict(fb.get(k) or fa[k])
                f['harness'] = n
                f['why'] = ('only ' + what if k in fb else 'in the default build, but not ' + what) + ': ' + f['why']
                found.append(f)
        cov[what] = {'entry_points': len(todo), 'decided': sum(not res[n]['undecided'] for n in todo)}
    return found, {'builds_compared': cov, 'obligations': n_out, 'undischarged': undec}


def norm(p):
    p = re.sub(r"'\w+\b,? ?", '', p)
    p = p if p.startswith('<') else re.sub(r'<(?:[^<>]|<[^<>]*>)*>(?=::|$| )', '', p)
    p = re.sub(r'\b(cycle_map|partial_cycle_map|group_map|optionals|serde)::', '', p)
    return re.sub(r'<[LRSTQF_H, ]*>', '', p).replace(' ', '')


def unreached(out):
    """the crate's functions that no harness reaches (coverage only: never an alarm)"""
    api = json.load(open(os.path.join(out, 'api.json')))
    m = json.load(open(os.path.join(out, 'mir.json')))
    have = {norm(x['path']) for x in m['inst'].values()}
    return sorted(f['path'] for f in api['functions']
                  if norm(f['path']) not in have and not f['path'].endswith('::Item'))


def entry(r, name):
    """the public operation behind a harness"""
    if not r:
        return name
    return '%s (analysed: %s)' % (name, ', '.join(f.split('::', 1)[-1] for f in r['fns'][:3])) if r['fns'] else name


if __name__ == '__main__':
    main()
