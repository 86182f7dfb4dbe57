"""Runs the abstract interpreter on one entry point and prepares the result for the specs."""
import json
from domain import *
import absint
from absint import *
import models


class Engine:
    def __init__(self, path, max_blocks=400000):
        self.prog = Prog(json.load(open(path)))
        self.cache = {}
        self.max_blocks = max_blocks
        for k, v in self.prog.inst.items():
            v['_id'] = int(k)
        self.raws = {}
        self.last = None
        self.proto = {}      # kind -> (map value, shapes, flats)

    # --------------------------------------------------------------- fresh interpreters
    def interp(self, max_loop=1500):
        I = Interp(self.prog, self.max_blocks)
        I.max_loop = max_loop
        I.n = 1000
        return I

    def root(self, name):
        return self.prog.roots['h::' + name]

    def ins(self, name):
        return self.prog.inst[str(self.root(name))]

    def tyname(self, tid):
        return self.prog.ty[tid]['name']

    # --------------------------------------------------------------- reference maps
    def empty_map(self, I, st, pre):
        """value of a fresh map with an opaque hash builder"""
        sb = ('sb', I.fresh('b'))
        outs = I.exec_fn(st, self.root(pre + '_with_hasher'), [sb])
        outs = [o for o in outs if o[0] == 'ret']
        if len(outs) != 1:
            raise Undecided('constructor forks')
        _, v, st = outs[0]
        return v, st

    def build(self, pre, steps):
        """run constructor calls on an empty map; steps: list of (harness suffix, [key arg specs])"""
        I = self.interp()
        st = State()
        st.fns.append((self.root(pre + '_new'), '?'))
        v, st = self.empty_map(I, st, pre)
        st.heap['M'] = v
        keys = {}
        for op, ks in steps:
            args = [('ref', ('h', 'M'), ())]
            for k in ks:
                byref = k.startswith('&')
                k = k.lstrip('&')
                if k not in keys:
                    keys[k] = ('K', k[0], I.fresh(k[0]), I.fresh('t'))
                a = keys[k]
                if byref:
                    h = I.fresh('E')
                    st.heap[h] = a
                    a = ('ref', ('h', h), ())
                args.append(a)
            outs = I.exec_fn(st, self.root(pre + '_' + op), args)
            outs = [o for o in outs if o[0] == 'ret' and not o[2].flags.get('wronghash')
                    and not o[2].flags.get('collision')]
            if len(outs) != 1:
                raise Undecided('constructor step %s has %d outcomes' % (op, len(outs)))
            st = outs[0][2]
            for h in list(st.heap):
                if h != 'M':
                    del st.heap[h]
        st.frames = []
        return I, st

    def prototype(self, pre):
        """(template map value, omega shapes, flat reference components)"""
        if pre in self.proto:
            return self.proto[pre]
        recipes = {
            'cm': [[('insert', ['L1', 'R1'])]],
            'pm': [[('insert', ['L1', 'R1'])], [('insert_left', ['L1'])], [('insert_right', ['R1'])]],
            'gm': [[('insert', ['L1', 'R1'])], [('insert_right', ['R1'])]],
        }[pre]
        shapes = []
        flats = {}
        for r in recipes:
            I, st = self.build(pre, r)
            bad = [f for f in I.findings]
            mv = st.heap['M']
            # flat form of each component
            names = self.cidnames(mv)
            fr = self.flatten_entries(I, st, mv)
            comps = components(fr)
            for es in comps:
                f = flat(es, names, builder(mv))
                flats[f] = tuple(sorted(k[1] for k in allkeys(es)))
            st.ev = ()
            I.fold(st)
            if st.ent:
                raise Undecided('reference component does not fold')
            for sh in st.om:
                m = {c: '%c' + n for c, n in names.items()}
                m[builder(mv)] = '%bB'
                shapes.append(recanon(subst(sh, m)))
        # an empty group is a right element with no left elements: subsumed by the hub shape
        if pre == 'gm':
            hubs = [s for s in shapes if s[3]]
            shapes2 = []
            for s in shapes:
                if not s[3] and any(h[1] == s[1] for h in hubs):
                    # the flat hub alone is legal
                    continue
                shapes2.append(s)
            for h in hubs:
                flats.setdefault(canon_flat(h[1]), ('R',))
            shapes = shapes2
        self.proto[pre] = (mv, shapes, flats)
        return self.proto[pre]

    def wild_shapes(self, pre, mv):
        """every element of a well-formed map on its own: nothing relates it to any other"""
        recipes = {
            'cm': [[('insert', ['L1', 'R1'])]],
            'pm': [[('insert', ['L1', 'R1'])], [('insert_left', ['L1'])], [('insert_right', ['R1'])]],
            'gm': [[('insert', ['L1', 'R1'])], [('insert_right', ['R1'])]],
        }[pre]
        key = (pre, 'wild')
        if key in self.raws:
            return self.raws[key]
        shapes = set()
        absint.Interp.wild = False
        for r in recipes:
            I, st = self.build(pre, r)
            mv = st.heap['M']
            names = self.cidnames(mv)
            es = self.flatten_entries(I, st, mv)
            # the id of an element's own: the last one in it
            for e in es:
                if e[0] in names and type(e[1]) is tuple and e[1][0] == 'A':
                    at = [i for i, x in enumerate(e[1][4]) if holds_id(x)]
                    rest = {y for f in es if f[0] in names and f[0] != e[0] for x in f[1][4] if holds_id(x) for y in [I.idsort(holds_id(x))]}
                    own = [i for i in at if len(at) == 1 or I.idsort(holds_id(e[1][4][i])) not in rest]
                    if len(own) == 1:
                        absint.Interp.wild_own[e[1][2]] = own[0]
            for e in es:
                if e[0] not in names:
                    continue
                s2 = State()
                for f in [e] + [x for x in es if x[0] in setcids(e[1])]:
                    f = (f[0], f[1], f[2], frozenset())
                    cs = {c: ('id', I.fresh(c[1][2])) for c in absint.ctrs(f)}
                    f = csub(f, cs)
                    keep = set(names) | set(setcids(e[1])) | {builder(mv)}
                    f = subst(f, {x: I.fresh(x[1]) for x in syms(f) if x not in keep})
                    s2.ent[I.fresh('e')] = f
                s2.heap['M'] = mv
                I.fold(s2)
                if s2.ent:
                    raise Undecided('element of an arbitrary map does not fold')
                m = {c: '%c' + n for c, n in names.items()}
                m[builder(mv)] = '%bB'
                for sh in s2.om:
                    shapes.add(recanon(subst(sh, m)))
        absint.Interp.wild = True
        self.raws[key] = sorted(shapes, key=rkey)
        return self.raws[key]

    def cidnames(self, mv):
        r = {}
        for x in mv[4]:
            if type(x) is tuple and x[0] == 'tbl':
                r[x[1]] = 'T%d' % len(r)
        return r

    # --------------------------------------------------------------- initial states
    def fresh_map(self, I, st, pre, name, ghost=True, empty=False):
        """an arbitrary valid map: put in st.heap[name]"""
        mv, shapes, flats = self.prototype(pre)
        if absint.Interp.wild:
            shapes, ghost = self.wild_shapes(pre, mv), False
        if empty:
            shapes = []
        m = {}
        for s in sorted(syms(mv)):
            m[s] = I.fresh(s[1] + (s[2] if s[1] == 'k' else ''))
        v = subst(mv, m)
        v = reset_ctrs(v)
        st.heap[name] = v
        mm = {'%c' + n: c for c, n in self.cidnames(v).items()}
        mm['%bB'] = builder(v)
        for sh in shapes:
            s2 = recanon(subst(sh, mm))
            variants = [s2]
            if s2[3]:
                # a group without members, and groups with at least one
                sets = [c for e in s2[1] for c in setcids(e[1])]
                variants = [recanon(('S', s2[1], s2[2], ())),
                            recanon(('S', s2[1], s2[2] + tuple(('ne', c) for c in sets), s2[3]))]
            for s2 in variants:
                st.om = st.om | {self.ghost(s2, name) if ghost else s2}
        return v

    def ghost(self, sh, name):
        """add 'orig' events"""
        def rec(sh, hubr):
            ks = []
            for e in sh[1]:
                ks += allkeys([e])
            kl = [k for k in ks if k[1] == 'L']
            kr = [k for k in ks if k[1] == 'R']
            if hubr is not None:
                ev = ('orig', name, kl[0] if kl else None, hubr)
            else:
                ev = ('orig', name, kl[0] if kl else None, kr[0] if kr else None)
            subs = tuple(rec(x, kr[0]) for x in sh[3]) if sh[3] else ()
            return ('S', sh[1], sh[2] + (ev,), subs)
        return recanon(rec(sh, None))

    # two maps with overlapping contents -----------------------------------------
    def raw_unit(self, I, pre, kind, mv, l, r):
        """entries storing one pair / one unpaired item in the map value mv"""
        steps = {'both': [('insert', ['L1', 'R1'])], 'left': [('insert_left', ['L1'])],
                 'right': [('insert_right', ['R1'])]}[kind]
        key = (pre, kind)
        if key not in self.raws:
            I0, st = self.build(pre, steps)
            v = st.heap['M']
            self.raws[key] = (v, self.flatten_entries(I0, st, v))
        v, es = self.raws[key]
        m = dict(zip(self.cidnames(v), self.cidnames(mv)))
        m[builder(v)] = builder(mv)
        for k in allkeys(es):
            m[k[2]] = l if k[1] == 'L' else r
        es = [(e[0], e[1], e[2], frozenset()) for e in es]
        cs = {}
        for e in es:
            for c in absint.ctrs(e):
                cs.setdefault(c, ('id', I.fresh(c[1][2])))
        es = [csub(e, cs) for e in es]
        for x in syms(es):
            if x not in m:
                m[x] = I.fresh(x[1])
        return [subst(e, m) for e in es]

    def joint_maps(self, I, st, pre):
        """maps M and N whose contents may agree and differ in every local way"""
        M = self.fresh_map(I, st, pre, 'M', empty=True)
        N = self.fresh_map(I, st, pre, 'N', empty=True)
        keep = set(self.cidnames(M)) | set(self.cidnames(N)) | {builder(M), builder(N)}

        def add(tag, units, subs=()):
            nm = {}

            def k(x):
                if x is None:
                    return None
                if x not in nm:
                    nm[x] = I.fresh(x[0])
                return nm[x]
            es = []
            for X, l, r in units:
                kind = 'both' if l and r else 'left' if l else 'right'
                es += self.raw_unit(I, pre, kind, M if X == 'M' else N, k(l), k(r))
            b = syms(es) - keep
            return canon_shape(es, [], [], b)

        def hubs(tag, rights, subs, ev=True):
            """groups: rights = [(map, right)], subs = [[(map, index of right or None)]]"""
            cls_ = {}
            hub_es, need = [], []
            parts = []
            for X, r in rights:
                if r not in cls_:
                    cls_[r] = I.fresh('R')
                es = self.raw_unit(I, pre, 'both', M if X == 'M' else N, I.fresh('L'), cls_[r])
                hub = [e for e in es if has_set(e[1])]
                hub_es += hub
                parts.append((es, hub[0], X))
            own = syms(hub_es) - keep
            ss = []
            for sub in subs:
                l = I.fresh('L')
                ses = []
                for i in sub:
                    es, hub, X = parts[i]
                    rest = [e for e in es if not has_set(e[1])]
                    m = {}
                    for x in syms(rest):
                        if x not in own and x not in keep:
                            m[x] = l if x[1] == 'L' else I.fresh(x[1])
                    ses += [subst(e, m) for e in rest]
                    need.append(setcids(hub[1])[0])
                b = syms(ses) - keep - own
                ss.append(shift(canon_shape(ses, [], [], b), 1))
            evs = [('ne', c) for c in dict.fromkeys(need)]
            return canon_shape(hub_es, evs, ss, own)

        out = []
        if pre in ('cm', 'pm'):
            out += [add('same', [('M', 'L1', 'R1'), ('N', 'L1', 'R1')]),
                    add('only', [('M', 'L1', 'R1')]), add('only', [('N', 'L1', 'R1')]),
                    add('left', [('M', 'L1', 'R1'), ('N', 'L1', 'R2')]),
                    add('right', [('M', 'L1', 'R1'), ('N', 'L2', 'R1')]),
                    add('swap', [('M', 'L1', 'R1'), ('M', 'L2', 'R2'), ('N', 'L1', 'R2'), ('N', 'L2', 'R1')])]
        if pre == 'pm':
            for a, b in (('M', 'N'), ('N', 'M')):
                out += [add('only', [(a, 'L1', None)]), add('only', [(a, None, 'R1')]),
                        add('torn', [(a, 'L1', 'R1'), (b, 'L1', None), (b, None, 'R1')]),
                        add('torn', [(a, 'L1', 'R1'), (b, 'L1', None)]),
                        add('torn', [(a, 'L1', 'R1'), (b, None, 'R1')])]
            out += [add('same', [('M', 'L1', None), ('N', 'L1', None)]),
                    add('same', [('M', None, 'R1'), ('N', None, 'R1')])]
        if pre == 'gm':
            MN = [('M', 'R1'), ('N', 'R1')]
            out += [hubs('same', MN, []), hubs('same', MN, [[0, 1]]),
                    hubs('more', MN, [[0, 1], [0]]), hubs('more', MN, [[0, 1], [1]]),
                    hubs('more', MN, [[0]]), hubs('more', MN, [[1]]),
                    hubs('only', [('M', 'R1')], []), hubs('only', [('N', 'R1')], []),
                    hubs('only', [('M', 'R1')], [[0]]), hubs('only', [('N', 'R1')], [[0]]),
                    hubs('moved', [('M', 'R1'), ('N', 'R2')], [[0, 1]]),
                    hubs('moved', [('M', 'R1'), ('N', 'R1'), ('M', 'R2'), ('N', 'R2')], [[0, 3]]),
                    hubs('moved', [('M', 'R1'), ('N', 'R1'), ('M', 'R2'), ('N', 'R2')], [[0, 3], [2, 1]])]
        st.om = frozenset(recanon(s) for s in out)
        return [st]

    # keys ------------------------------------------------------------------
    def fresh_keys(self, I, st, side, alias=True):
        """[(key value, state)]: a key in a new class, or equal to any existing key of that side"""
        outs = []
        n = lambda: I.fresh('t')
        if alias and not I.wild:
            seen = set()
            for e in list(st.ent.values()) + list(st.heap.values()):
                for k in allkeys([e]):
                    if k[1] == side and k[2] not in seen:
                        seen.add(k[2])
                        outs.append((('K', side, k[2], n()), st.copy()))
            done = set()
            for path in I.positions(st, lambda e: any(k[1] == side for k in allkeys([e]))):
                s2 = st.copy()
                uid = I.materialise(s2, path)
                for k in allkeys([s2.ent[uid]]):
                    if k[1] == side:
                        outs.append((('K', side, k[2], n()), s2))
                        break
        outs.append((('K', side, I.fresh(side), n()), st))
        return outs

    def make_args(self, I, st, tids, mapnames):
        """[(args, state, desc)] for the argument types"""
        states = [([], st)]
        nm = iter(mapnames)
        idx = 0
        for t in tids:
            name = self.tyname(t)
            new = []
            idx += 1
            for args, s in states:
                if 'cycle_map::CycleMap<' in name or 'PartialCycleMap<' in name or 'GroupMap<' in name:
                    new.append((args + [('ref', ('h', 'MN'[sum(1 for a in args if a[0] == 'ref' and a[1][1] in ('M', 'N'))]), ())], s))
                elif name in ('o::KL', 'o::KR', '&o::KL', '&o::KR', '&o::QL', '&o::QR'):
                    side = name[-1]
                    for k, s2 in self.fresh_keys(I, s, side):
                        if name[0] == '&':
                            h = 'arg%d' % idx
                            s2.heap[h] = k
                            new.append((args + [('ref', ('h', h), ())], s2))
                        else:
                            # by value; remember it for the spec
                            s2.heap['arg%d' % idx] = k
                            new.append((args + [k], s2))
                elif name == 'usize':
                    new.append((args + [('top', 'n')], s))
                elif name == 'o::SB':
                    new.append((args + [('sb', I.fresh('b'))], s))
                elif name.startswith('o::It<') or name in ('o::Ser', 'o::De'):
                    new.append((args + [('A', 'adt', t, 0, (('phantom',),))], s))
                else:
                    for v, s2 in self.gen_value(I, s, t):
                        if name[0] == '&':
                            h = 'arg%d' % idx
                            s2.heap[h] = v
                            new.append((args + [('ref', ('h', h), ())], s2))
                        else:
                            new.append((args + [v], s2))
            states = new
        return states

    def gen_value(self, I, st, tid):
        """every value of a small structural type"""
        t = self.prog.ty[tid]
        name = t['name']
        if t['kind'] == 'ref':
            outs = []
            for v, s in self.gen_value(I, st, t['to']):
                outs.append((v, s))
            if self.prog.ty[t['to']]['name'] in ('o::KL', 'o::KR'):
                r = []
                for v, s in outs:
                    h = I.fresh('E')
                    s.heap[h] = v
                    r.append((('ref', ('h', h), ()), s))
                return r
            return outs
        if name.startswith('std::fmt::Formatter') or name.startswith('core::fmt::Formatter'):
            return [(('opq', 'fmt'), st)]
        if name in ('o::KL', 'o::KR'):
            return self.fresh_keys(I, st, name[-1], alias=getattr(self, 'gen_alias', False))
        if t['kind'] == 'tuple':
            outs = [((), st)]
            for e in t['elems']:
                nxt = []
                for vs, s in outs:
                    for v, s2 in self.gen_value(I, s, e):
                        nxt.append((vs + (v,), s2))
                outs = nxt
            return [(('A', 'tup', 0, 0, vs), s) for vs, s in outs]
        if t['kind'] == 'adt':
            res = []
            for vi, v in enumerate(t['variants']):
                outs = [((), st.copy())]
                for f in v['fields']:
                    nxt = []
                    for vs, s in outs:
                        for x, s2 in self.gen_value(I, s, f['ty']):
                            nxt.append((vs + (x,), s2))
                    outs = nxt
                res += [(('A', 'adt', tid, vi, vs), s) for vs, s in outs]
            return res
        raise Undecided('cannot generate a value of type ' + name)

    # --------------------------------------------------------------- running
    torn = None
    bound = 0

    def run(self, name, unwind=True, items=None, gen_alias=False, prepare=None, ghost=True):
        """execute harness `name`; returns (I, outcomes) with outcomes (kind, ret, state)"""
        I = self.last = self.interp()
        I.bound = self.bound
        I.pred_unwind = unwind
        if prepare:
            I.max_shape = 16
        root = self.root(name)
        ins = self.prog.inst[str(root)]
        body = ins['body']
        tids = body['locals'][1:1 + body['argc']]
        st = State()
        st.fns.append((root, '?'))
        pre = name.split('_')[0]
        self.gen_alias = gen_alias
        eng = self

        def source_next(st, ins2):
            return eng.source(I, st, ins2, items)
        I.source_next = source_next
        nmaps = sum(1 for t in tids if any(x in self.tyname(t) for x in ('CycleMap<', 'GroupMap<')) and self.tyname(t)[0] == '&')
        starts = [st]
        if prepare:
            starts = prepare(I, st)
        elif pre in ('cm', 'pm', 'gm') and nmaps:
            for nme in 'MN'[:nmaps]:
                self.fresh_map(I, st, pre, nme, ghost)
        outs = []
        for s0 in starts:
            for args, s in self.make_args(I, s0, tids, ['M', 'N']):
                s.flags['args'] = tuple(args)
                if type(s.heap.get('M')) is tuple:
                    s.flags['sb0'] = builder(s.heap['M'])
                    s.flags['cids0'] = tuple(self.cidnames(s.heap['M']))
                argk = []
                for i in range(len(args)):
                    h = 'arg%d' % (i + 1)
                    if h in s.heap:
                        argk.append((h, s.heap[h]))
                s.flags['pin'] = tuple(k for _, k in argk)
                s.flags['argk'] = tuple(argk)
                s.heap = {k: v for k, v in s.heap.items() if not (k.startswith('arg') and
                          not any(a[0] == 'ref' and a[1] == ('h', k) for a in args if type(a) is tuple))}
                outs += I.exec_fn(s, root, list(args))
        return I, outs

    def source(self, I, st, ins, items):
        """the next element of a user-supplied sequence"""
        isser = ins['path'].endswith('seq_next')
        ok = (lambda v: models.res_ok(v)) if isser else (lambda v: v)
        outs = []
        n = st.flags.get('nitems', 0)
        if n and items is not None and self.torn and self.torn(self, st):
            items = n           # an earlier item already left a broken map (reported on its own)
        s = st.copy()
        outs.append(('ret', ok(models.none()), s))
        if isser:
            s = st.copy()
            s.flags['deerr'] = True
            outs.append(('ret', models.res_err(('opq', 'err')), s))
        if items is None or n < items:
            s = st.copy()
            self.gen_alias = True
            for v, s2 in self.gen_value(I, s, ins['targs'][0]):
                if items is not None:
                    s2.flags['nitems'] = n + 1
                    models.add_event(s2, ('item', n, v))
                    s2.flags['pin'] = s2.flags.get('pin', ()) + tuple(allkeys([v]))
                outs.append(('ret', ok(models.some(v)), s2))
        return outs

    # --------------------------------------------------------------- final states
    def flatten_entries(self, I, st, mv):
        """entries (materialised) belonging to the map value mv incl. nested sets"""
        cids = set(self.cidnames(mv))
        out = []
        work = list(cids)
        seen = set()
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            for e in st.ent.values():
                if e[0] == c:
                    out.append(e)
                    for c2 in setcids(e[1]):
                        work.append(c2)
        return out

    def instantiate_all(self, I, st, twice=False):
        n = 0
        while st.om:
            sh = sorted(st.om, key=rkey)[0]
            st.om = st.om - {sh}
            I.inst_shape(st, sh)
            if twice and any('$' not in s and s[1] not in 'kbc' for s in free_syms(sh)):
                I.inst_shape(st, sh)
            n += 1
            if n > 500:
                raise Undecided('too many summary shapes')

    def units(self, I, st, mv, pre):
        """(units, problems): decode the relation stored in map mv (everything materialised)"""
        proto, _, flats = self.prototype(pre)
        probs = []
        names = self.cidnames(mv)
        if len(names) < 2:
            return [], [('invariant', 'the map value lost its tables')]
        es = self.flatten_entries(I, st, mv)
        cur = {}
        const = False
        for x in mv[4]:
            for c in absint.ctrs(x):
                cur[c[1]] = c[2]
            if type(x) is int and type(x) is not bool:
                const = True
            if type(x) is tuple and x[0] == 'A' and len(x[4]) == 1 and type(x[4][0]) is int:
                const = True
        if es and const:
            probs.append(('counter', 'the id counter is reset while elements remain'))
        elif es and len(proto[4]) == len(mv[4]):
            for x, y in zip(proto[4], mv[4]):
                a, b = absint.ctrs(x), absint.ctrs(y)
                if len(a) != 1:
                    continue
                if len(b) == 1 and b[0][1][2] == a[0][1][2] and b[0][2] >= 0:
                    continue
                if len(b) == 1 or type(y) is tuple and y and y[0] == 'lin' or 'lin' in str(y):
                    probs.append(('counter', 'the id counter is not beyond the ids in use'))
                else:
                    raise Undecided('a map whose id counter is unknown')
        m = {}
        for e in es:
            for c in absint.ctrs(e):
                if c[1] not in cur or c[2] >= cur[c[1]]:
                    probs.append(('counter', 'an id that is in use can be handed out again'))
                m[c] = ('id', '%' + c[1][2] + 'c' + c[1][1:] + '_%d' % c[2])
        es = [csub(e, m) for e in es]
        b = builder(mv)
        es = same_hashes(st, es)
        units = []
        for comp in components(es):
            hubs = [e for e in comp if has_set(e[1])]
            ks = allkeys(comp)
            if len(hubs) == 1:
                hub = hubs[0]
                hs = conn(syms(hub)) - set(names)
                rest = [e for e in comp if e is not hub]
                subs = subcomponents(rest, hs)
                hk = allkeys([hub])
                if flat([hub], names, b) not in flats:
                    probs.append(('invariant', 'malformed element: ' + describe(hub)))
                okl = []
                for sc in subs:
                    f = flat([hub] + sc, names, b)
                    kl = [k for k in allkeys(sc) if k[1] == 'L']
                    if f in flats and len(kl) == 1:
                        okl.append(kl[0])
                    else:
                        probs.append(('invariant', 'inconsistent pairing: ' + '; '.join(describe(e) for e in [hub] + sc)))
                        for k in allkeys(sc):
                            units.append((k, None) if k[1] == 'L' else (None, k))
                for k in hk:
                    if okl:
                        for l in okl:
                            units.append((l, k))
                    else:
                        units.append((None, k))
            else:
                f = flat(comp, names, b)
                if f in flats:
                    kl = [k for k in ks if k[1] == 'L']
                    kr = [k for k in ks if k[1] == 'R']
                    units.append((kl[0] if kl else None, kr[0] if kr else None))
                else:
                    probs.append(('invariant', 'inconsistent entries: ' + '; '.join(describe(e) for e in comp)))
                    for k in ks:
                        units.append((k, None) if k[1] == 'L' else (None, k))
        # one entry per key
        for side in (0, 1):
            seen = {}
            for u in units:
                k = u[side]
                if k is None:
                    continue
                if k[2] in seen and seen[k[2]] != k[3]:
                    probs.append(('invariant', 'two equal %s keys are stored' % 'left right'.split()[side]))
                seen[k[2]] = k[3]
        return units, probs

    def orig(self, st, name='M'):
        """original units recorded in ghost events (everything materialised)"""
        us = [(e[2], e[3]) for e in st.ev if e[0] == 'orig' and e[1] == name]
        # a hub with lefts: drop the hub's own marker
        paired = {u[1] for u in us if u[0] is not None}
        return [u for u in us if not (u[0] is None and u[1] in paired)]

    def owned_ret(self, name):
        """does the harness return keys by value?"""
        b = self.ins(name)['body']
        return self.owned_ty(b['locals'][0], set())

    def owned_ty(self, tid, seen):
        t = self.prog.ty[tid]
        if tid in seen or t['kind'] == 'ref':
            return False
        seen.add(tid)
        if t['name'] in ('o::KL', 'o::KR'):
            return True
        if t['kind'] == 'adt':
            if any(x in t['name'] for x in ('CycleMap<', 'GroupMap<', 'PartialCycleMap<')) and not t['name'].startswith('std::result'):
                return False
            return any('o::K' in t['name'] and not '&' in t['name'] for _ in (0,))
        if t['kind'] == 'tuple':
            return any(self.owned_ty(x, seen) for x in t['elems'])
        return False

    # --------------------------------------------------------------- decoding values
    def dec(self, st, v):
        if type(v) is not tuple:
            return v
        k = v[0]
        if k == 'ref':
            b = v[1]
            if b[0] == 'h' and b[1] in ('M', 'N'):
                return v
            if b[0] == 'l':
                return v
            if b[0] == 'e' and absint.eid(st, b[1]) not in st.ent:
                return ('DANGLING',)
            x = None
            try:
                root = {'e': lambda: st.ent[absint.eid(st, b[1])][1], 'h': lambda: st.heap.get(b[1]), 'c': lambda: b[1]}[b[0]]()
                for f in v[2]:
                    root = root[4][f]
                x = root
            except Exception:
                return ('BADREF',)
            return self.dec(st, x)
        if k == 'A':
            if v[1] == 'adt':
                t = self.prog.ty[v[2]]
                if t['kind'] == 'tuple':
                    return tuple(self.dec(st, x) for x in v[4])
                if t.get('path', '').endswith('option::Option'):
                    if v[3] == 0 and not v[4]:
                        return None
                    return ('Some', self.dec(st, v[4][0])) if v[3] == 1 else ('Ok', self.dec(st, v[4][0]))
                vn = t['variants'][v[3]]['name'] if t['variants'] else '?'
                return (vn,) + tuple(self.dec(st, x) for x in v[4])
            return tuple(self.dec(st, x) for x in v[4])
        if k in ('set', 'vec'):
            return ('set', frozenset(self.dec(st, e[1]) for e in st.ent.values() if e[0] == v[1]),
                    sum(1 for e in st.ent.values() if e[0] == v[1]))
        return v


def holds_id(x):
    while type(x) is tuple and x[0] == 'A' and len(x[4]) == 1:
        x = x[4][0]
    return x if type(x) is tuple and x[0] in ('id', 'ctr') else None


def builder(mv):
    for x in mv[4]:
        if type(x) is tuple and x[0] == 'sb':
            return x[1]
    return None


def reset_ctrs(v):
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'ctr':
            return ('ctr', v[1], 0)
        return tuple(reset_ctrs(x) for x in v)
    return v


def allkeys(es, acc=None):
    if acc is None:
        acc = []
    for v in es:
        if type(v) is tuple:
            if len(v) == 4 and v[0] == 'K':
                acc.append(v)
            else:
                allkeys(v, acc)
    return acc


def components(es):
    cids = {e[0] for e in es if not e[0].startswith('%c') or True}
    nested = set()
    for e in es:
        nested |= set(setcids(e[1]))
    top = {e[0] for e in es} - nested
    items = [('e', i, conn(syms((e[0], e[1], e[2]))) - top) for i, e in enumerate(es)]
    return [[es[it[1]] for it in its] for own, its in absint.union(items, set())]


def subcomponents(es, excl):
    nested = set()
    for e in es:
        nested |= set(setcids(e[1]))
    top = {e[0] for e in es} - nested
    items = [('e', i, conn(syms((e[0], e[1], e[2]))) - top) for i, e in enumerate(es)]
    return [[es[it[1]] for it in its] for own, its in absint.union(items, excl)]


def same_hashes(st, es):
    """hashes known to be equal to the hash of a stored key are written as that key's hash"""
    par = {}

    def find(x):
        while x in par:
            x = par[x]
        return x
    n = 0
    for k, v in st.facts.items():
        if k[0] == 'h' and v is True and k[1][0] == 'H' and k[2][0] == 'H':
            a, b = find(k[1]), find(k[2])
            n += 1
            if a != b:
                par[a] = b
    if not n:
        return es
    own = {}
    live = {k[2] for k in allkeys(es)}
    hs = set()

    def hashes(v):
        if type(v) is tuple:
            if len(v) == 3 and v[0] == 'H':
                hs.add(v)
            for x in v:
                hashes(x)
    hashes(tuple(es))
    for h in sorted(hs, key=rkey):
        if len(h[2]) == 1 and h[2][0] in live:
            own.setdefault(find(h), h)

    def rw(v):
        if type(v) is tuple:
            if len(v) == 3 and v[0] == 'H':
                return v if len(v[2]) == 1 and v[2][0] in live else own.get(find(v), v)
            return tuple(rw(x) for x in v)
        return v
    r = []
    for e in es:
        ks = [k for k in allkeys([e])]
        x = rw(e)
        if len(ks) == 1 and x[2][0] == 'H':
            h = ('H', x[2][1], (ks[0][2],))
            if h != x[2] and find(h) == find(x[2]):
                x = (x[0], x[1], h, x[3])
        r.append(x)
    return r


def flat(es, names, b):
    m = {c: '%c' + n for c, n in names.items()}
    if b:
        m[b] = '%bB'
    es = [subst((e[0], e[1], e[2], frozenset()), m) for e in es]
    es = [idnorm(e) for e in es]
    return canon_flat(es, set(m.values()))


def idnorm(v):
    """counter values become plain distinct ids"""
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'ctr':
            return ('id', '%' + v[1][2] + 'c' + v[1][1:] + '_%s' % v[2])
        return tuple(idnorm(x) for x in v)
    return v


def canon_flat(es, keep=('%cT0', '%cT1', '%bB')):
    es = [(e[0], e[1], e[2], frozenset()) for e in es]
    b = {s for s in syms(es) if s[1] not in 'kb' and s not in keep}
    # drop level tags of bound symbols
    return canon_shape(es, [], [], b)


def describe(e):
    return '%s[%s]' % (e[0].lstrip('%'), short(e[1]))
