"""Abstract interpreter over the dumped MIR (see DESIGN.md).

exec_fn() computes, for one function and one abstract input state, the set of abstract output
states; loops are iterated to a fixpoint over the (finite, canonicalised) abstract states."""
import re
import sys
from domain import *

sys.setrecursionlimit(100000)


LOST = ('top', 'lost')     # a count that cannot be followed any further


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class State:
    __slots__ = ('frames', 'fns', 'heap', 'ent', 'om', 'ev', 'facts', 'flags', 'trace', 'keep', 'pick', 'prog')

    def __init__(self):
        self.frames = []     # list of lists of locals
        self.fns = []        # call stack: [inst id, current location]
        self.heap = {}       # name -> value
        self.ent = {}        # '%e..' -> (cid, value, thash, marks)
        self.om = frozenset()
        self.ev = ()         # events
        self.facts = {}      # assumptions on this path
        self.flags = {}      # misc facts about the path
        self.trace = None
        self.keep = ()       # values kept alive until the end (length snapshots in facts)
        self.pick = None     # the element an iterator produced last
        self.prog = 0        # steps taken that cannot be repeated for ever

    def copy(self):
        s = State.__new__(State)
        s.frames = [f[:] for f in self.frames]
        s.fns = self.fns[:]
        s.heap = self.heap.copy()
        s.ent = self.ent.copy()
        s.om = self.om
        s.ev = self.ev
        s.facts = self.facts.copy()
        s.flags = self.flags.copy()
        s.trace = self.trace
        s.keep = self.keep
        s.pick = self.pick
        s.prog = self.prog
        return s

    def note(self, msg):
        self.trace = (msg, self.trace)

    def trace_list(self):
        out = []
        t = self.trace
        while t:
            out.append(t[0])
            t = t[1]
        return out[::-1]


def A(kind, tid, variant, fields):
    return ('A', kind, tid, variant, tuple(fields))


def tup(*f):
    return ('A', 'tup', 0, 0, tuple(f))


UNIT = ('A', 'tup', 0, 0, ())


class Prog:
    """The dumped program."""

    def __init__(self, d):
        self.roots = d['roots']
        self.inst = d['inst']
        self.ty = d['types']
        self.cfg = {}
        # helpers for constructing std enums
        self.byname = {}
        for i, t in enumerate(self.ty):
            self.byname[t['name']] = i

    def analysis(self, key, body):
        """liveness, loop heads, borrowed locals for a body"""
        r = self.cfg.get(key)
        if r:
            return r
        blocks = body['blocks']
        n = len(blocks)
        succ = []
        for b in blocks:
            t = b['t']
            s = []
            k = t['k']
            if k == 'goto':
                s = [t['to']]
            elif k == 'switch':
                s = [c[1] for c in t['cases']] + [t['else']]
            elif k in ('drop', 'call', 'assert'):
                if 'to' in t:
                    s.append(t['to'])
                if 'unwind' in t:
                    s.append(t['unwind'])
            succ.append(s)
        # back edges by DFS
        heads = set()
        color = [0] * n
        stack = [(0, iter(succ[0]))] if n else []
        if n:
            color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 1:
                    heads.add(v)
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
            else:
                color[u] = 2
                stack.pop()
        borrowed = set()
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]

        def rd_place(p, i):
            if p[0] not in defs[i]:
                use[i].add(p[0])
            for e in p[1:]:
                if e[0] == '[]' and e[1] not in defs[i]:
                    use[i].add(e[1])

        def rd_op(o, i):
            if o[0] in ('c', 'm'):
                rd_place(o[1], i)

        def wr(p, i):
            if len(p) == 1:
                if p[0] not in use[i]:
                    defs[i].add(p[0])
                else:
                    defs[i].add(p[0])
            else:
                rd_place(p, i)

        def rd_rv(r, i):
            k = r[0]
            if k in ('use', 'repeat'):
                rd_op(r[1], i)
            elif k == 'ref':
                rd_place(r[2], i)
                if not any(e[0] == '*' for e in r[2][1:]):
                    borrowed.add(r[2][0])
            elif k == 'cast' or k == 'un':
                rd_op(r[2], i)
            elif k == 'bin':
                rd_op(r[2], i)
                rd_op(r[3], i)
            elif k == 'discr':
                rd_place(r[1], i)
            elif k == 'agg':
                for o in r[2]:
                    rd_op(o, i)
        for i, b in enumerate(blocks):
            for s in b['s']:
                if s[0] == '=':
                    rd_rv(s[2], i)
                    wr(s[1], i)
                elif s[0] == 'setd':
                    rd_place(s[1], i)
            t = b['t']
            k = t['k']
            if k == 'switch':
                rd_op(t['on'], i)
            elif k == 'drop':
                rd_place(t['place'], i)
            elif k == 'call':
                rd_op(t['f'], i)
                for o in t['args']:
                    rd_op(o, i)
                wr(t['dest'], i)
            elif k == 'assert':
                rd_op(t['cond'], i)
            elif k == 'return':
                if 0 not in defs[i]:
                    use[i].add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succ[i]:
                    out |= live[s]
                new = use[i] | (out - defs[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        r = (heads, live, borrowed, succ)
        self.cfg[key] = r
        return r


# models that take something away from something finite (unless they answer None or false)
PROGRESS = re.compile(r'next|nth|remove|erase|pop|take|drain|clear|truncate|advance|extract|replace|swap|fold|each|read')


class Finding:
    def __init__(self, kind, msg, where, loc, trace, collision):
        self.kind = kind
        self.msg = msg
        self.where = where
        self.loc = loc
        self.trace = trace
        self.collision = collision

    def key(self):
        return (self.kind, self.where, re.sub(r'%\w[\w$.]*', '_', self.msg))


class Interp:
    def __init__(self, prog, max_blocks=400000):
        self.p = prog
        self.n = 0
        self.findings = []
        self.stats = {'blocks': 0, 'states': 0, 'forks': 0, 'loopheads': 0, 'lookups': 0, 'calls': 0,
                      'models': 0}
        self.fnseen = set()
        self.blkseen = set()
        self.callsites = set()
        self.max_blocks = max_blocks
        self.models = None
        import models
        self.models = models.TABLE
        self.mprefix = models.PREFIX
        self.panics = models.PANICS
        self.hooks = {}
        self.max_loop = 3000
        self.bound = 0           # at most so many loop rounds (0: all)
        self.max_shape = 9
        self.max_ent = 12
        self.cut = 0
        self.calls = []
        self.maxes = [0, 0]
        self.pred_unwind = True
        self.source_next = None
        models.setup(prog)

    # ---------------------------------------------------------------- symbols
    def fresh(self, sort):
        self.n += 1
        return '%' + sort + str(self.n)

    # ---------------------------------------------------------------- findings
    def where(self, st):
        """innermost function of the analysed crate on the stack, and the location in it"""
        for iid, loc in reversed(st.fns):
            ins = self.p.inst[str(iid)]
            if ins['krate'] == 'cycle_map':
                return ins['path'], loc
        for iid, loc in reversed(st.fns):
            ins = self.p.inst[str(iid)]
            return ins['path'], loc
        return '?', '?'

    def finding(self, st, kind, msg, where=None):
        w, loc = self.where(st)
        if kind == 'panic' and any(self.p.inst[str(i)]['path'].endswith('::precondition_check') for i, _ in st.fns[-3:]):
            kind, msg = 'unreachable', 'breaks the precondition of an unchecked operation'
        if kind == 'dangling' and self.wild and st.flags.get('tied'):
            # buckets collected in a container: which of them may name the same element depends on relations
            # between elements that arbitrary tables do not keep track of
            self.unclear = True
            return
        if kind == 'panic' and st.flags.get('vague'):
            # the path depends on a count that was lost track of (elements taken one by one in a loop)
            self.unclear = True
            return
        if where:
            w = where
        self.findings.append(Finding(kind, msg, w, loc, st.trace_list(), bool(st.flags.get('collision'))))

    # ---------------------------------------------------------------- places
    def base_get(self, st, base):
        if base[0] == 'l':
            return st.frames[base[1]][base[2]]
        if base[0] == 'e':
            e = st.ent.get(eid(st, base[1]))
            if e is None:
                return ('DANGLING',)
            return e[1]
        if base[0] == 'h':
            return st.heap.get(base[1])
        if base[0] == 'c':
            return base[1]
        raise Undecided('base %r' % (base,))

    def base_set(self, st, base, v):
        if base[0] == 'l':
            st.frames[base[1]][base[2]] = v
        elif base[0] == 'e':
            u = eid(st, base[1])
            e = st.ent.get(u)
            if e is None:
                return
            st.ent[u] = (e[0], v, e[2], e[3])
        elif base[0] == 'h':
            st.heap[base[1]] = v
        else:
            raise Undecided('write to constant')

    def read(self, st, base, path):
        v = self.base_get(st, base)
        for f in path:
            if v is None:
                return None
            if v[0] == 'A':
                if f >= len(v[4]):
                    raise Undecided('field %r of %r' % (f, v))
                v = v[4][f]
            elif v[0] == 'DANGLING':
                self.finding(st, 'dangling', 'reads an element after it was removed from its table')
                raise Infeasible()
            elif v[0] == 'phantom':
                return UNIT
            else:
                raise Undecided('projection %r of %s' % (f, v[0]))
        if type(v) is tuple and v[0] == 'DANGLING':
            self.finding(st, 'dangling', 'reads an element after it was removed from its table')
            raise Infeasible()
        return v

    def write(self, st, base, path, v):
        if not path:
            self.base_set(st, base, v)
            return
        root = self.base_get(st, base)

        def rec(x, i):
            if i == len(path):
                return v
            if x is None or x[0] != 'A':
                if x is not None and x[0] == 'DANGLING':
                    self.finding(st, 'dangling', 'writes an element after it was removed from its table')
                    raise Infeasible()
                # partial initialisation of an aggregate
                if x is None:
                    fs = [None] * (path[i] + 1)
                    fs[path[i]] = rec(None, i + 1)
                    return ('A', 'tup', 0, 0, tuple(fs))
                raise Undecided('write through %r' % (x[0],))
            fs = list(x[4])
            while len(fs) <= path[i]:
                fs.append(None)
            fs[path[i]] = rec(fs[path[i]], i + 1)
            return ('A', x[1], x[2], x[3], tuple(fs))
        self.base_set(st, base, rec(root, 0))

    def loc_of(self, st, place):
        base = ('l', len(st.frames) - 1, place[0])
        path = ()
        for e in place[1:]:
            k = e[0]
            if k == '.':
                path = path + (e[1],)
            elif k == '*':
                r = self.read(st, base, path)
                if type(r) is not tuple:
                    raise Undecided('deref of %r' % (r,))
                if r[0] == 'ref':
                    base, path = r[1], r[2]
                elif r[0] == 'A' and r[1] == 'box':
                    path = path + (0,)
                elif r[0] == 'str':
                    base, path = ('c', r), ()
                else:
                    raise Undecided('deref of %s' % (r[0],))
            elif k == '@':
                pass
            else:
                raise Undecided('projection %r' % (e,))
        return base, path

    def rd(self, st, place):
        if len(place) == 1:
            return st.frames[-1][place[0]]
        b, p = self.loc_of(st, place)
        return self.read(st, b, p)

    def wr(self, st, place, v):
        if len(place) == 1:
            st.frames[-1][place[0]] = v
            return
        b, p = self.loc_of(st, place)
        self.write(st, b, p, v)

    def deref(self, st, r):
        if type(r) is not tuple or r[0] != 'ref':
            raise Undecided('not a reference: %r' % (r,))
        return self.read(st, r[1], r[2])

    # ---------------------------------------------------------------- operands
    def const(self, st, c):
        k = c['k']
        if k == 'bits':
            t = self.p.ty[c['ty']]
            if t['kind'] == 'bool':
                return bool(c['v'])
            if t['kind'] == 'adt' and t.get('variants'):
                vs = t['variants']
                if len(vs) > 1:
                    for i, x in enumerate(vs):
                        if x.get('discr', i) == c['v']:
                            return A('adt', c['ty'], i, [self.zst(f['ty']) for f in x['fields']])
                    raise Undecided('constant of enum type ' + t['name'])
                fs = []
                for f in vs[0]['fields']:
                    ft = self.p.ty[f['ty']]
                    fs.append(c['v'] if ft['kind'] in ('int', 'other') else self.const(st, {'k': 'bits', 'ty': f['ty'], 'v': c['v']})
                              if ft['kind'] in ('int', 'bool', 'adt') else self.zst(f['ty']))
                return A('adt', c['ty'], 0, fs)
            return c['v']
        if k == 'fn':
            return ('fn', c.get('inst', c['path']), c['path'])
        if k == 'zst':
            return self.zst(c['ty'])
        if k == 'agg':
            return A('adt', c['ty'], c['variant'], [self.const(st, f) for f in c['fields']])
        if k == 'str':
            return ('str', c.get('v', ''))
        if k == 'promoted':
            outs = self.exec_body(st, ('P', c['id']), c['body'], [], None)
            if len(outs) != 1:
                raise Undecided('promoted constant')
            v = outs[0][1]
            return v
        if k == 'opaque':
            t = self.p.ty[c['ty']]
            if t['kind'] in ('ref', 'ptr'):
                return ('ref', ('c', ('opq', 'const')), ())
            return ('opq', 'const')
        raise Undecided('const ' + k)

    def freeze(self, st, v, d):
        """references to constants of a promoted body outlive its frame"""
        if type(v) is not tuple:
            return v
        if v[0] == 'ref':
            if v[1][0] == 'l' and v[1][1] == d:
                return ('ref', ('c', self.freeze(st, self.read(st, v[1], v[2]), d)), ())
            return v
        if v[0] == 'A':
            return ('A', v[1], v[2], v[3], tuple(self.freeze(st, x, d) for x in v[4]))
        return v

    def zst(self, tid):
        t = self.p.ty[tid]
        if t['kind'] == 'fndef':
            return ('fn', t.get('inst', t['path']), t['path'])
        if t['kind'] == 'closure':
            return A('clo', tid, 0, [])
        if t['kind'] == 'tuple':
            return UNIT
        if t['kind'] == 'adt' and t['variants']:
            return A('adt', tid, 0, [self.zst(f['ty']) if 'ty' in f else UNIT for f in t['variants'][0]['fields']])
        return ('phantom',)

    def op(self, st, o):
        k = o[0]
        if k == 'c':
            return self.rd(st, o[1])
        if k == 'm':
            v = self.rd(st, o[1])
            pl = o[1]
            if all(e[0] != '*' for e in pl[1:]):
                self.wr(st, pl, None)
            return v
        if k == 'k':
            return self.const(st, o[1])
        if k == 'rt':
            return False
        raise Undecided('operand')

    # ---------------------------------------------------------------- three-valued equality
    def eq3(self, st, a, b):
        """returns True / False / ('M', factkey): equality of two scalar/aggregate abstract values"""
        if a is None or b is None:
            raise Undecided('comparison of uninitialised value')
        ta, tb = type(a), type(b)
        if ta is not tuple and tb is not tuple:
            return a == b
        if ta is tuple and tb is tuple:
            if a == b and a[0] not in ('top',):
                return True
            if self.wild and ('top', 'hash') in (a, b):
                return ('M', ())
            if a[0] == 'A' and b[0] == 'A':
                if a[3] != b[3]:
                    return False
                maybe = None
                if len(a[4]) != len(b[4]):
                    raise Undecided('aggregate comparison')
                res = []
                for x, y in zip(a[4], b[4]):
                    r = self.eq3(st, x, y)
                    if r is False:
                        return False
                    if r is not True:
                        maybe = ('M', (maybe[1] if maybe else ()) + r[1])
                return maybe or True
            if a[0] == 'K' and b[0] == 'K':
                return a[2] == b[2]
            if self.wild and a[0] in ('id', 'ctr') and b[0] in ('id', 'ctr'):
                return self.wild_ids(st, a, b)
            if a[0] == 'H' and b[0] == 'H':
                f = st.facts.get(self.fk('h', a, b))
                if f is not None:
                    return f
                return ('M', (self.fk('h', a, b),))
            ida, idb = a[0] in ('id', 'ctr'), b[0] in ('id', 'ctr')
            if ida and idb:
                sa, sb = self.idsort(a), self.idsort(b)
                if sa == sb:
                    if a[0] == 'ctr' and b[0] == 'ctr' and a[1] != b[1]:
                        f = st.facts.get(self.fk('i', a, b))
                        return f if f is not None else ('M', (self.fk('i', a, b),))
                    return False
                f = st.facts.get(self.fk('i', a, b))
                return f if f is not None else ('M', (self.fk('i', a, b),))
            if a[0] == 'ref' and b[0] == 'ref':
                return self.eq3(st, self.deref(st, a), self.deref(st, b))
            if a[0] == 'lin' or b[0] == 'lin':
                return self.lineq(st, a, b)
        elif (ta is tuple and a[0] == 'lin') or (tb is tuple and b[0] == 'lin'):
            return self.lineq(st, a, b)
        elif ta is tuple and a[0] == 'ctr' and tb is int and a[2] > b or tb is tuple and b[0] == 'ctr' and ta is int and b[2] > a:
            return False        # counters do not wrap
        k = self.fk('x', a, b)
        f = st.facts.get(k)
        if f is not None:
            return f
        if a == LOST or b == LOST:
            st.flags['vague'] = True
        return ('M', (k,))

    unclear = False
    wild = False    # arbitrary tables, arbitrary answers of Hash and Eq (property C29)

    def wild_ids(self, st, a, b):
        """ids of an arbitrary map may coincide in every way, but equality of numbers is transitive"""
        eqs = [k for k, v in st.facts.items() if k[0] == 'i' and v is True]

        def cls(x):
            c = {x}
            while True:
                n = c | {k[2] for k in eqs if k[1] in c} | {k[1] for k in eqs if k[2] in c}
                if n == c:
                    return c
                c = n
        ca, cb = cls(a), cls(b)
        if b in ca:
            return True
        for k, v in st.facts.items():
            if k[0] == 'i' and v is False and (k[1] in ca and k[2] in cb or k[1] in cb and k[2] in ca):
                return False
        if a[0] == b[0] == 'ctr' and a[1] == b[1]:
            return False
        # a counter hands every element of a table an id of its own
        ta, tb = set(), set()
        for u, e in st.ent.items():
            o = self.own_id(e[1])
            if o is not None:
                if o in ca:
                    ta.add(e[0])
                if o in cb:
                    tb.add(e[0])
        if ta & tb:
            return False
        return ('M', (self.fk('i', a, b),))

    wild_own = {}

    def own_id(self, v):
        if type(v) is tuple and v[0] == 'A' and v[2] in self.wild_own:
            x = v[4][self.wild_own[v[2]]]
            while type(x) is tuple and x[0] == 'A' and len(x[4]) == 1:
                x = x[4][0]
            if type(x) is tuple and x[0] in ('id', 'ctr'):
                return x
        return None

    def unify(self, st, a, b):
        """two ids turned out to be the same"""
        m = {b: a}
        st.heap = {k: subst(v, m) for k, v in st.heap.items()}
        st.frames = [[subst(x, m) for x in f] for f in st.frames]
        st.ent = {k: subst(v, m) for k, v in st.ent.items()}
        st.ev = subst(st.ev, m)
        st.om = frozenset(recanon(subst(x, m)) for x in st.om)
        facts = {}
        for k, v in st.facts.items():
            k2 = subst(k, m)
            if len(k2) == 3 and k2[0] in ('h', 'i', 'x'):
                k2 = self.fk(*k2)
                if k2[1] == k2[2]:
                    if v is False:
                        raise Infeasible()
                    continue
            facts[k2] = v
        st.facts = facts

    def idsort(self, v):
        if v[0] == 'id':
            return v[1][1]
        return v[1][2]   # '%k<sort><n>'

    def fk(self, kind, a, b):
        ra, rb = rkey(a), rkey(b)
        return (kind, a, b) if ra <= rb else (kind, b, a)

    # linear forms: ('lin', const, ((sid, coef), ...))
    def lin(self, v):
        if type(v) is int:
            return v, {}
        if type(v) is tuple and v[0] == 'lin':
            return v[1], dict(v[2])
        return None

    def mklin(self, c, d):
        d = {k: x for k, x in d.items() if x}
        if not d:
            return c
        return ('lin', c, tuple(sorted(d.items())))

    def coef(self, marks, d):
        return sum(x for k, x in d.items() if k in marks)

    def all_entries(self, st):
        """(entry, is_summary) for every entry incl. summary ones"""
        for e in st.ent.values():
            yield e, False

        def rec(sh):
            for e in sh[1]:
                yield e
            for s in sh[3]:
                yield from rec(s)
        for s in st.om:
            for e in rec(s):
                yield e, True

    def nets(self, st, d):
        """(what the materialised entries contribute to a count, what each instance of a summary shape contributes):
        a group contributes all of its entries at once"""
        out = []

        def rec(sh):
            out.append(sum(self.coef(e[3], d) for e in sh[1]))
            for x in sh[3]:
                rec(x)
        for sh in st.om:
            rec(sh)
        return sum(self.coef(e[3], d) for e in st.ent.values()), [x for x in out if x]

    def without_net(self, st, d):
        """no instance of a shape with a nonzero contribution exists; False if that cannot be"""
        def strip(sh):
            if sum(self.coef(e[3], d) for e in sh[1]):
                return None
            r = ('S', sh[1], sh[2], tuple(x for x in map(strip, sh[3]) if x is not None))
            return r if ne_ok(r) else None
        st.om = frozenset(recanon(x) for x in map(strip, st.om) if x is not None)
        return ne_state_ok(st)

    def net_positions(self, st, d):
        """paths to the shapes with a nonzero contribution"""
        out = []

        def rec(sh, chain):
            chain = chain + (sh,)
            if sum(self.coef(e[3], d) for e in sh[1]):
                out.append((chain, 0))
            for x in sh[3]:
                rec(x, chain)
        for sh in sorted(st.om, key=rkey):
            rec(sh, ())
        return out

    def lineq(self, st, a, b):
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            k = self.fk('x', a, b)
            f = st.facts.get(k)
            if f is None and LOST in (a, b):
                st.flags['vague'] = True
            return f if f is not None else ('M', (k,))
        c = la[0] - lb[0]
        d = dict(la[1])
        for k, x in lb[1].items():
            d[k] = d.get(k, 0) - x
        k, _ = self.same_form(st, self.lin_key(c, d))
        f = st.facts.get(k)
        if f is not None:
            return f
        # value = c + sum over entries of coef;   materialised entries count exactly once
        conc, nets = self.nets(st, dict(k[2]))
        low = k[1] + conc
        if low >= 0 and all(x > 0 for x in nets) or low <= 0 and all(x < 0 for x in nets):
            if low:
                return False
            if not nets:
                return True
        return ('M', (k,))

    def assume_lin_zero(self, st, k, d):
        """value is zero: if all contributions have one sign, the groups that contribute are absent"""
        conc, nets = self.nets(st, d)
        if k[1] + conc == 0 and nets and len({x > 0 for x in nets}) == 1:
            if not self.without_net(st, d):
                raise Infeasible()

    def assume(self, st, keys, val):
        """assume all fact keys true (val) ; for False only usable with a single key"""
        for k in keys:
            if self.wild and val and k[0] == 'i' and k[1][0] == k[2][0] == 'id' and len(keys) == 1:
                st.note('assume %s == %s' % (self.pv(k[1]), self.pv(k[2])))
                self.unify(st, k[1][1], k[2][1])
                continue
            st.facts[k] = val
            if k[0] == 'h':
                if val:
                    st.flags['collision'] = True
                    st.note('assume equal hashes: %s ~ %s' % (self.pv(k[1]), self.pv(k[2])))
            elif k[0] == 'lin':
                if val:
                    st.keep = st.keep + (k,)
                    self.assume_lin_zero(st, k, dict(k[2]))
                    st.note('assume lengths: %s == 0' % (self.pv(k),))
                else:
                    st.keep = st.keep + (k,)
                    st.note('assume lengths: %s != 0' % (self.pv(k),))
            else:
                st.note('assume %s %s %s' % (self.pv(k[1]), '==' if val else '!=', self.pv(k[2])))

    def nonzero_cases(self, st, k):
        """materialise a witness for a nonzero nonnegative linear form (so that emptiness tests are
        exact); for mixed signs just the fact"""
        d = dict(k[2])
        conc, nets = self.nets(st, d)
        if k[1] + conc or len({x > 0 for x in nets}) != 1:
            return [st]
        outs = []
        for path in self.net_positions(st, d):
            s2 = st.copy()
            self.materialise(s2, path)
            outs.append(s2)
        return outs

    def lin_key(self, c, d):
        """the canonical key of 'c + d is zero'"""
        t = tuple(sorted((k, x) for k, x in d.items() if x))
        if t and t[0][1] < 0:
            c, t = -c, tuple((k, -x) for k, x in t)
        return ('lin', c, t)

    def same_form(self, st, k):
        """the key of a fact about the same count, if there is one: taken at another time it has other marks"""
        fs = [f if f[0] == 'lin' else f[2] for f in st.facts if f[0] == 'lin' or f[0] == 'cmp' and f[1] == 'sign']
        if not fs or k in fs:
            return k, False
        es = [e[3] for e, _ in self.all_entries(st)]
        d = dict(k[2])
        v = [self.coef(m, d) for m in es]
        if not any(v):
            return k, False
        for f in fs:
            d2 = dict(f[2])
            w = [self.coef(m, d2) for m in es]
            if f[1] == k[1] and v == w:
                return f, False
            if f[1] == -k[1] and v == [-x for x in w]:
                return f, True
        return k, False

    def order_cases(self, st, c, d, flip):
        """is c + d negative (result: not flip) or not (flip), where it may be anything: remembered as a fact, so that
        later comparisons of the same two lengths agree"""
        k = self.lin_key(c, d)
        neg = k != ('lin', c, tuple(sorted((x, y) for x, y in d.items() if y)))
        k, opp = self.same_form(st, k)
        neg ^= opp
        if st.facts.get(k) is True:
            return flip
        ok = ('cmp', 'sign', k, 0)
        f = st.facts.get(ok)
        if f is not None:
            return flip if f == (not neg) else not flip
        outs = []
        for case in (True, None, False):
            if case is None:
                if k in st.facts:
                    continue
                s2 = st.copy()
                self.assume(s2, (k,), True)
                outs.append((flip, s2))
                continue
            s2 = st.copy()
            if k not in s2.facts:
                self.assume(s2, (k,), False)
            s2.facts[ok] = case
            s2.keep = s2.keep + (ok,)
            outs.append((flip if case == (not neg) else not flip, s2))
        return outs

    def cmp_lin(self, st, base, la, lb):
        """a < b etc. for counts: exact case distinction when all uncertain terms have one sign"""
        if base in ('Gt', 'Le'):
            la, lb = lb, la
        flip = base in ('Le', 'Ge')
        d = dict(la[1])
        for k, x in lb[1].items():
            d[k] = d.get(k, 0) - x
        d = {k: x for k, x in d.items() if x}
        c = la[0] - lb[0]
        conc, nets = self.nets(st, d)
        signs = {x > 0 for x in nets}
        if len(signs) > 1:
            return self.order_cases(st, c, d, flip)
        if signs == {False}:
            # a < b  <=>  not (b - a - 1 < 0)
            d = {k: -x for k, x in d.items()}
            c, conc = -c - 1, -conc
            flip = not flip
        if c + conc >= 0:
            return flip
        if not signs:
            return not flip
        if c + conc < -4:
            return None
        out = []
        work = [st]
        while work:
            s = work.pop()
            conc, nets = self.nets(s, d)
            if c + conc >= 0:
                out.append((flip, s))
                continue
            if not nets:
                out.append((not flip, s))
                continue
            for path in self.net_positions(s, d):
                s2 = s.copy()
                self.materialise(s2, path)
                work.append(s2)
            s2 = s.copy()
            if self.without_net(s2, d):
                out.append((not flip, s2))
            if len(out) + len(work) > 40:
                return None
        if len(out) == 1 and out[0][1] is st:
            return out[0][0]
        return out

    def pv(self, v):
        return short(v)

    def branch_eq(self, st, a, b):
        """list of (bool, state)"""
        r = self.eq3(st, a, b)
        if r is True or r is False:
            return [(r, st)]
        self.stats['forks'] += 1
        keys = r[1]
        s1 = st.copy()
        self.assume(s1, keys, True)
        outs = [(True, s1)]
        if len(keys) == 1:
            k = keys[0]
            s2 = st
            self.assume(s2, keys, False)
            if k[0] == 'lin':
                for s3 in self.nonzero_cases(s2, k):
                    outs.append((False, s3))
            else:
                outs.append((False, s2))
        else:
            outs.append((False, st))
        return outs

    # ---------------------------------------------------------------- summaries
    def positions(self, st, pred):
        """paths (tuple of (shape, index of sub...)) to summary entries satisfying pred; yields
        (chain, entry index) where chain is a tuple of shapes from the root shape to the owner"""
        out = []

        def rec(sh, chain):
            chain = chain + (sh,)
            for i, e in enumerate(sh[1]):
                if pred(e):
                    out.append((chain, i))
            for s in sh[3]:
                rec(s, chain)
        for s in sorted(st.om, key=rkey):
            rec(s, ())
        return out

    def inst_shape(self, st, sh):
        b = bound_of(sh, 0)
        m = {}
        for s in sorted(b):
            m[s] = self.fresh(s[1])
        es = []
        for e in sh[1]:
            u = self.fresh('e')
            st.ent[u] = subst(e, m)
            es.append(u)
        if sh[2]:
            st.ev = st.ev + tuple(subst(v, m) for v in sh[2])
        subs = []
        for s in sh[3]:
            subs.append(shift(subst(s, m), -1))      # same entry order as in the owner
        if subs:
            st.om = st.om | frozenset(recanon(s) for s in subs)
        return m, es, subs

    def materialise(self, st, path):
        chain, idx = path
        sh = chain[0]
        _, es, subs = self.inst_shape(st, sh)
        for k in range(1, len(chain)):
            i = chain[k - 1][3].index(chain[k])
            sh = subs[i]
            _, es, subs = self.inst_shape(st, sh)
        return es[idx]

    # ---------------------------------------------------------------- folding
    def roots(self, st):
        r = set()
        for f in st.frames:
            for v in f:
                if v is not None and type(v) is tuple:
                    syms(v, r)
        for v in st.heap.values():
            syms(v, r)
        syms(st.keep, r)
        syms(st.flags.get('pin', ()), r)
        return r

    def rebase(self, st):
        """ids handed out in the past become plain distinct ids"""
        cur = {}
        for v in st.heap.values():
            for c in ctrs(v):
                cur[c[1]] = max(cur.get(c[1], 0), c[2])
        for f in st.frames:
            for v in f:
                for c in ctrs(v):
                    if c[1] not in cur:
                        cur[c[1]] = None
        # a counter kept only in a local (a map under construction) counts as current as well
        for b in list(cur):
            if cur[b] is None:
                ns = [c[2] for f in st.frames for v in f for c in mapctrs(v) if c[1] == b]
                if not ns:
                    del cur[b]
                else:
                    cur[b] = max(ns)
        todo = {}
        allc = set()
        for v in list(st.heap.values()) + [x for f in st.frames for x in f] + [e for e in st.ent.values()] + list(st.ev):
            for c in ctrs(v):
                allc.add(c)
        for c in allc:
            if c[1] in cur and c[2] > cur[c[1]]:
                return
        for c in allc:
            if c[1] in cur and cur[c[1]] > 0:
                if c[2] < cur[c[1]]:
                    todo[c] = ('id', self.fresh(c[1][2]))
                else:
                    todo[c] = ('ctr', c[1], 0)
        if not todo:
            return
        sub = lambda v: csub(v, todo)
        st.heap = {k: sub(v) for k, v in st.heap.items()}
        st.frames = [[sub(x) for x in f] for f in st.frames]
        st.ent = {k: sub(v) for k, v in st.ent.items()}
        st.ev = sub(st.ev)

    def fold(self, st, final=False):
        self.rebase(st)
        r = self.roots(st)
        self.tie(st)
        if self.wild:
            self.decouple(st, r)
        # strip dead marks
        dead = set()
        used = None
        for e, om in self.all_entries(st):
            for m in e[3]:
                if m not in r:
                    if m[1] == 'G':
                        if used is None:
                            used = set()
                            for x, _ in self.all_entries(st):
                                syms(x[1], used)
                        if m in used:
                            continue
                    dead.add(m)
        if dead:
            self.strip(st, dead)
        if any(v[0] == 'ne' for v in st.ev):
            known = set()
            for e in st.ent.values():
                known.update(setcids(e[1]))
            st.ev = tuple(v for v in st.ev if v[0] != 'ne' or v[1] in known or v[1] in r)
        self.fold_groups(st, r)
        # facts about vanished symbols
        if st.facts:
            alive = syms(list(st.ent.values())) | r
            for k in list(st.facts):
                if k[0] in ('h', 'i', 'x') and not (conn(syms(k)) <= alive):
                    del st.facts[k]
                elif k[0] == 'hub' and k[1] not in alive and not any(k[1] in free_syms(s) for s in st.om):
                    del st.facts[k]

    def strip(self, st, dead):
        for u, e in list(st.ent.items()):
            if e[3] & dead:
                st.ent[u] = (e[0], e[1], e[2], e[3] - dead)

        def rec(sh):
            return ('S', tuple((e[0], e[1], e[2], e[3] - dead) for e in sh[1]), sh[2],
                    tuple(rec(s) for s in sh[3]))
        st.om = frozenset(recanon(rec(s)) for s in st.om)

    def shared(self, items, hubsyms, r):
        """names of a group owner that is (not yet or no longer) stored itself: symbols held in variables
        that occur in three or more groups which have nothing else in common"""
        if len(items) < 3:
            return set()
        n = {}
        for it in items:
            for s in it[2]:
                if s in r and s not in hubsyms and s[1] not in 'ctkbIn':
                    n[s] = n.get(s, 0) + 1
        cand = {s for s, k in n.items() if k >= 3}
        if not cand:
            return cand
        n = {}
        for own, its in union(items, hubsyms | cand):
            for s in {s for it in its for s in it[2]} & cand:
                n[s] = n.get(s, 0) + 1
        return {s for s, k in n.items() if k >= 3}

    def fold_groups(self, st, r):
        glob = set()
        for v in st.heap.values():
            glob.update(tblcids(v))
            glob.update(setcids(v))
        for f in st.frames:
            for v in f:
                glob.update(tblcids(v))
                glob.update(setcids(v))
        hubsyms = set()
        hubs = set()
        for u, e in st.ent.items():
            if has_set(e[1]):
                hubs.add(u)
                hubsyms |= conn(syms(e[1])) - glob
                hubsyms |= {m for m in e[3] if m[1] == 'G'}
        for s in st.om:
            hubsyms |= conn(free_syms(s)) - glob
        # the parts of a group owner that was taken out of its table and is held in a variable
        hubsyms |= {k[1] for k in st.facts if k[0] == 'hub'} - glob
        # leaf components
        items = []
        for u, e in st.ent.items():
            if u not in hubs:
                items.append(('e', u, conn(syms(e)) - glob))
        for i, v in enumerate(st.ev):
            items.append(('v', i, conn(syms(v)) - glob))
        hubsyms |= self.shared(items, hubsyms, r)
        comps = union(items, hubsyms)
        om = set(st.om)
        gone_e, gone_v = set(), set()
        left = []
        hublevel_events = []
        for own, its in comps:
            if not own:
                for it in its:
                    if it[2] and (it[0] == 'v' or it[1] not in r):
                        # says something about the group as a whole
                        hublevel_events.append(it)
                    elif it[0] == 'e':
                        left.append((own, its))
                continue
            uids = [it[1] for it in its if it[0] == 'e']
            if own & r or any(u in r for u in uids):
                left.append((own, its))
                continue
            sh = canon_shape([st.ent[u] for u in uids], [st.ev[it[1]] for it in its if it[0] == 'v'], [], own)
            om.add(sh)
            gone_e.update(uids)
            gone_v.update(it[1] for it in its if it[0] == 'v')
        # hub level
        if hubs or any(conn(free_syms(s)) - glob for s in om):
            items = []
            for u in hubs:
                items.append(('e', u, conn(syms(st.ent[u])) - glob))
            for it in hublevel_events:
                items.append(it)
            for own, its in left:
                fs = set()
                for it in its:
                    fs |= it[2]
                items.append(('x', None, fs & hubsyms))
            for s in list(om):
                fs = conn(free_syms(s)) - glob
                if fs:
                    items.append(('s', s, fs))
            for own, its in union(items, set()):
                if not own:
                    continue
                uids = [it[1] for it in its if it[0] == 'e']
                if not uids and not any(it[0] == 's' for it in its):
                    continue
                if own & r or any(u in r for u in uids) or any(it[0] == 'x' for it in its):
                    continue
                subs = [shift(it[1], 1) for it in its if it[0] == 's']
                sh = canon_shape([st.ent[u] for u in uids], [st.ev[it[1]] for it in its if it[0] == 'v'],
                                 subs, own)
                for it in its:
                    if it[0] == 's':
                        om.discard(it[1])
                om.add(sh)
                gone_e.update(uids)
                gone_v.update(it[1] for it in its if it[0] == 'v')
        if gone_e or gone_v or om != st.om:
            st.om = frozenset(om)
            for u in gone_e:
                del st.ent[u]
            st.ev = tuple(v for i, v in enumerate(st.ev) if i not in gone_v)

    # ---------------------------------------------------------------- canonical form
    def canon(self, st, extra=None):
        order = {}
        for f in st.frames:
            symlist(f, order)
        symlist(extra, order) if extra is not None else None
        for k in sorted(st.heap):
            symlist(st.heap[k], order)
        symlist(st.keep, order)
        # events and entries: repeatedly number symbols of the items, least masked form first
        pending = list(st.ent.items())
        evs = list(st.ev)

        def mask(v):
            return rkey(fmap(v, lambda s: s[:2] + str(order[s]) if s in order else s[:2] + '?'))
        for i, s in enumerate(order):
            order[s] = i
        items = [('e', u, e) for u, e in pending] + [('v', '', v) for v in evs]
        if items:
            items.sort(key=lambda t: mask(t))
            # number in rounds
            rest = items
            while rest:
                best = min(rest, key=lambda t: mask(t))
                rest = [x for x in rest if x is not best]
                o = {}
                symlist(best, o)
                for s in o:
                    if s not in order:
                        order[s] = len(order)
        for s in sorted(st.om, key=mask):
            o = {}
            symlist(s, o)
            for x in o:
                if x not in order and '$' not in x:
                    order[x] = len(order)
        cnt = {}
        m = {}
        for s in order:
            if '$' in s:
                continue
            m[s] = '%' + s[1] + (s[2] if s[1] == 'k' else '') + '@' + str(order[s])
        fr = tuple(tuple(subst(v, m) for v in f) for f in st.frames)
        hp = tuple((k, subst(st.heap[k], m)) for k in sorted(st.heap))
        en = tuple(sorted((rkey(subst((u, e), m)) for u, e in st.ent.items())))
        ev = tuple(sorted(rkey(subst(v, m)) for v in st.ev))
        om = {recanon(subst(s, m)) for s in st.om}
        fa = tuple(sorted(rkey((subst(k, m), v)) for k, v in st.facts.items()))
        fl = tuple(sorted((k, rkey(v)) for k, v in st.flags.items()))
        core = (fr, hp, en, ev, fa, fl, subst(st.keep, m),
                subst(extra, m) if type(extra) in (tuple,) else extra)
        return core, om, m

    def join(self, visited, st, extra=None):
        """widening at a loop head / function exit: states that differ only in their summaries are
        joined (a summary stands for any number of groups, so a larger set of summaries subsumes a
        smaller one).  Returns False when st is already covered, otherwise st is enlarged."""
        st.om = widen(st.om)
        core, om, m = self.canon(st, extra)
        self.core = core
        old = visited.get(core)
        if old is None:
            visited[core] = om
            return True
        if om <= old:
            return False
        allom = widen(om | old)
        visited[core] = allom
        if allom == old:
            return False
        inv = {v: k for k, v in m.items()}
        new = set(st.om)
        for sh in allom - om:
            for x in free_syms(sh):
                if x not in inv:
                    inv[x] = self.fresh(x[1] + (x[2] if x[1] == 'k' else ''))
            new.add(recanon(subst(sh, inv)))
        st.om = frozenset(new)
        return True

    # ---------------------------------------------------------------- running
    def exec_fn(self, st, iid, args):
        ins = self.p.inst[str(iid)]
        self.fnseen.add(iid)
        self.stats['calls'] += 1
        if len(st.fns) > 60:
            stuck = [i for i, n in self.calls if n == st.prog and self.p.inst[str(i)]['krate'] == 'cycle_map']
            if stuck and not self.wild and max(stuck.count(i) for i in stuck) > 10:
                self.finding(st, 'nontermination', 'calls itself again and again without getting anywhere')
            raise Undecided('recursion too deep')
        self.calls.append((iid, st.prog))
        try:
            return self.exec_body(st, iid, ins['body'], args, iid)
        finally:
            self.calls.pop()

    def exec_body(self, st, key, body, args, iid):
        heads, live, borrowed, succ = self.p.analysis(key, body)
        nloc = len(body['locals'])
        fr = [None] * nloc
        argc = body['argc']
        if len(args) != argc:
            raise Undecided('argument count %d != %d in %s' % (len(args), argc, iid))
        for i, a in enumerate(args):
            fr[i + 1] = a
        depth = len(st.frames)
        st.frames.append(fr)
        st.fns.append((iid if iid is not None else st.fns[-1][0], '?'))
        work = [(st, 0, 0, None)]
        edges, seen_at = {}, {}
        visited = {}
        outs = []
        blocks = body['blocks']
        while work:
            # when rounds are bounded, explore the outcomes of few rounds first
            st, b, rounds, last = work.pop(0 if self.bound else -1)
            try:
                while True:
                    self.stats['blocks'] += 1
                    if self.stats['blocks'] > self.max_blocks:
                        raise Undecided('step limit reached')
                    self.blkseen.add((iid, b))
                    if b in heads:
                        self.stats['loopheads'] += 1
                        keepl = live[b] | borrowed
                        f = st.frames[-1]
                        for i in range(nloc):
                            if f[i] is not None and i not in keepl:
                                f[i] = None
                        st.pick = None
                        self.fold(st)
                        self.maxes = [max([self.maxes[0]] + [shape_size(x) for x in st.om]), max(self.maxes[1], len(st.ent))]
                        if any(shape_size(x) > self.max_shape for x in st.om) or len(st.ent) > self.max_ent:
                            # k-limiting: groups of entangled elements beyond any legal size are not followed
                            self.cut += 1
                            break
                        rounds += 1
                        if self.bound and rounds > self.bound:
                            break
                        vs = visited.setdefault(b, {})
                        new = self.join(vs, st)
                        node = (b, self.core)
                        if node not in seen_at:
                            seen_at[node] = (self.where(st), st.trace, bool(st.flags.get('collision')))
                        if last is not None and last[1] == st.prog:
                            edges.setdefault(last[0], set()).add(node)
                        last = (node, st.prog)
                        if not new:
                            break
                        self.stats['states'] += 1
                        if len(vs) > self.max_loop:
                            raise Undecided('too many abstract states at a loop head')
                    nxt = self.step(st, blocks[b], live, borrowed, outs, depth)
                    if not nxt:
                        break
                    for s2, b2 in nxt[1:]:
                        work.append((s2, b2, rounds, last))
                    st, b = nxt[0]
            except Infeasible:
                pass
        if edges and not self.wild:
            self.cycles(edges, seen_at)
        if len(outs) > 1:
            outs = self.merge(outs)
        return outs

    def cycles(self, edges, seen_at):
        """rounds of a loop that come back to where they started without having consumed anything"""
        done = set()
        for root in edges:
            if root in done:
                continue
            stack, path = [(root, iter(edges[root]))], {root}
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m in path:
                        (w, loc), tr, coll = seen_at[m]
                        out = []
                        while tr:
                            out.append(tr[0])
                            tr = tr[1]
                        self.findings.append(Finding('nontermination', 'a loop can go round for ever', w, loc, out[::-1], coll))
                        return
                    if m not in done and m in edges:
                        stack.append((m, iter(edges[m])))
                        path.add(m)
                        break
                else:
                    stack.pop()
                    path.discard(n)
                    done.add(n)

    def tie(self, st):
        """buckets and references kept inside containers name their element by a mark that survives folding"""
        for w, x in list(st.ent.items()):
            us = links(x[1])
            if not us:
                continue
            m = {}
            for u in us:
                if u[1] == 'G' or u not in st.ent:
                    continue
                e = st.ent[u]
                g = [y for y in e[3] if y[1] == 'G']
                if not g:
                    g = [self.fresh('G')]
                    st.ent[u] = (e[0], e[1], e[2], e[3] | {g[0]})
                m[u] = g[0]
            if m:
                if self.wild:
                    st.flags['tied'] = True
                x = st.ent[w]
                st.ent[w] = (x[0], subst(x[1], m), x[2], x[3])

    def decouple(self, st, r):
        """forget which elements of an arbitrary map share ids: only what variables refer to is known"""
        for u, e in list(st.ent.items()):
            if u in r or any(y[1] == 'G' for y in e[3]) or links(e[1]):
                continue
            cids = set(setcids(e[1])) | {e[0]}
            m = {x: self.fresh(x[1]) for x in conn(syms((e[1], e[2]))) if x not in r and x not in cids and x[1] != 'c'}
            if m:
                st.ent[u] = (e[0], subst(e[1], m), subst(e[2], m), e[3])

    def merge(self, outs):
        seen = {}
        pos = {}
        r = []
        for k, v, s in outs:
            core, om, m = self.canon(s, v)
            core = (k, core)
            if core in seen:
                i = pos[core]
                k0, v0, s0 = r[i]
                s0.prog = min(s0.prog, s.prog)
                if om <= seen[core]:
                    continue
                # enlarge the summary set of the representative
                _, om0, m0 = self.canon(s0, v0)
                inv = {b: a for a, b in m0.items()}
                new = set(s0.om)
                for sh in om - om0:
                    for x in free_syms(sh):
                        if x not in inv:
                            inv[x] = self.fresh(x[1] + (x[2] if x[1] == 'k' else ''))
                    new.add(recanon(subst(sh, inv)))
                s0.om = frozenset(new)
                seen[core] = seen[core] | om
                continue
            seen[core] = om
            pos[core] = len(r)
            r.append((k, v, s))
        return r

    def step(self, st, blk, live, borrowed, outs, depth):
        fr = st.frames[-1]
        pend = [st]
        stmts = blk['s']
        states = [st]
        for s in stmts:
            k = s[0]
            if k == '=':
                nstates = []
                for st in states:
                    st.fns[-1] = (st.fns[-1][0], s[3])
                    r = self.rvalue(st, s[2])
                    if type(r) is list:
                        for v, s2 in r:
                            self.wr(s2, s[1], v)
                            nstates.append(s2)
                    else:
                        self.wr(st, s[1], r)
                        nstates.append(st)
                states = nstates
            elif k == 'dead':
                for st in states:
                    st.frames[-1][s[1]] = None
            elif k == 'live':
                pass
            elif k == 'setd':
                for st in states:
                    v = self.rd(st, s[1])
                    if v is None:
                        v = A('adt', 0, 0, [])
                    self.wr(st, s[1], ('A', v[1], v[2], s[2], v[4]))
            else:
                raise Undecided('statement %r' % (s,))
        res = []
        for st in states:
            try:
                res.extend(self.term(st, blk['t'], live, borrowed, outs, depth))
            except Infeasible:
                pass
        return res

    def term(self, st, t, live, borrowed, outs, depth):
        k = t['k']
        st.fns[-1] = (st.fns[-1][0], t['at'])
        if k == 'goto':
            return [(st, t['to'])]
        if k == 'switch':
            v = self.op(st, t['on'])
            if v is None:
                raise Undecided('switch on uninitialised value')
            if type(v) in (int, bool):
                iv = int(v)
                for c, b in t['cases']:
                    if c == iv:
                        return [(st, b)]
                return [(st, t['else'])]
            # symbolic integer: fork
            res = []
            cur = [st]
            for c, b in t['cases']:
                nxt = []
                for s in cur:
                    for r, s2 in self.branch_eq(s, v, c):
                        if r:
                            res.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                res.append((s, t['else']))
            return res
        if k == 'return':
            v = self.freeze(st, st.frames[-1][0], len(st.frames) - 1)
            st.frames.pop()
            st.fns.pop()
            outs.append(('ret', v, st))
            return []
        if k == 'unreachable':
            self.finding(st, 'unreachable', 'compiler-unreachable code is reached')
            return []
        if k == 'resume':
            st.frames.pop()
            st.fns.pop()
            outs.append(('unw', None, st))
            return []
        if k == 'drop':
            b, p = self.loc_of(st, t['place'])
            v = self.read(st, b, p)
            res = []
            for kind, _, s2 in self.drop(st, v, ('ref', b, p), t['ty']):
                if kind == 'ret':
                    if all(e[0] != '*' for e in t['place'][1:]):
                        self.write(s2, b, p, None)
                    res.append((s2, t['to']))
                elif 'unwind' in t:
                    res.append((s2, t['unwind']))
                else:
                    s2.frames.pop()
                    s2.fns.pop()
                    outs.append(('unw', None, s2))
            return res
        if k == 'assert':
            v = self.op(st, t['cond'])
            if type(v) is bool:
                if v == t['expected']:
                    return [(st, t['to'])]
                if t['msg'].startswith(('MisalignedPointer', 'NullPointer', 'NullReference')):
                    self.finding(st, 'unreachable', 'dereferences a null pointer')
                    return []
                self.finding(st, 'panic', 'assertion fails: ' + t['msg'])
                return []
            raise Undecided('symbolic assert')
        if k == 'call':
            f = self.op(st, t['f'])
            args = [self.op(st, a) for a in t['args']]
            # clear what is dead after the call, so that summaries can be folded inside it
            keepl = set(borrowed)
            if 'to' in t:
                keepl |= live[t['to']]
            if 'unwind' in t:
                keepl |= live[t['unwind']]
            dest = t['dest']
            if len(dest) > 1:
                keepl.add(dest[0])
            fr = st.frames[-1]
            for i in range(len(fr)):
                if fr[i] is not None and i not in keepl:
                    fr[i] = None
            res = []
            for kind, v, s2 in self.call(st, f, args, t):
                if kind == 'ret':
                    if 'to' not in t:
                        continue
                    if len(s2.frames) != depth + 1:
                        raise Undecided('frame mismatch')
                    self.wr(s2, dest, v)
                    res.append((s2, t['to']))
                elif 'unwind' in t:
                    res.append((s2, t['unwind']))
                else:
                    s2.frames.pop()
                    s2.fns.pop()
                    outs.append(('unw', None, s2))
            return res
        raise Undecided('terminator %s' % t.get('txt', k))

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, t=None):
        if type(f) is not tuple:
            raise Undecided('call of %r' % (f,))
        if f[0] == 'A' and f[1] == 'clo':
            return self.call_closure(st, f, args)
        if f[0] != 'fn':
            raise Undecided('call of %r' % (f[0],))
        iid = f[1]
        dty = t.get('dty') if t else None
        if type(iid) is not int:
            return self.call_path(st, None, iid, args, dty, f)
        ins = self.p.inst[str(iid)]
        self.callsites.add(st.fns[-1])
        return self.call_path(st, ins, ins['path'], args, dty, f)

    def call_path(self, st, ins, path, args, dty, f=None):
        h = self.hooks.get(path)
        if h:
            r = h(self, st, ins, args)
            if r is not None:
                return r
        m = self.models.get(path)
        if m is None:
            for pre, mm in self.mprefix:
                if path.startswith(pre):
                    m = mm
                    break
        if m is not None:
            self.stats['models'] += 1
            r = m(self, st, ins, args)
            if r is not NotImplemented:
                if PROGRESS.search(path.rsplit('::', 1)[-1]):
                    for kind, v, s2 in r:
                        if kind != 'ret' or not (v is False or type(v) is tuple and v[:2] == ('A', 'adt') and v[3] == 0 and not v[4]):
                            s2.prog += 1
                return r
        if ins is not None:
            for pp in self.panics:
                if path.startswith(pp):
                    msg = ''
                    for a in args:
                        if type(a) is tuple and a[0] == 'str':
                            msg = a[1]
                    self.finding(st, 'panic', 'panics via %s %s' % (path, msg[:80]))
                    return []
        if ins is not None and 'body' not in ins and 'ctor' in ins:
            return [('ret', self.mkmap(st, ('A', 'adt', ins['ctor'][0], ins['ctor'][1], tuple(args))), st)]
        if ins is None or 'body' not in ins:
            raise Undecided('no model for %s' % path)
        # rust-call ABI: trait-level call of a closure body passes (env, (args...))
        if ins.get('closure') and f is not None and f[2].startswith(('std::ops::Fn', 'core::ops::Fn', 'std::ops::AsyncFn')):
            if len(args) == 2 and type(args[1]) is tuple and args[1][0] == 'A' and args[1][1] == 'tup':
                args = [args[0]] + list(args[1][4])
            elif len(args) == 2 and ins['body']['argc'] == 1:
                args = [args[0]]
        return self.exec_fn(st, ins_id(self.p, ins), args)

    def call_closure(self, st, clo, args, by='ref'):
        """call a closure *value* (used by models); args untupled"""
        t = self.p.ty[clo[2]]
        body = t['body']
        ins = self.p.inst[str(body)]
        # environment is passed by value for FnOnce bodies, by reference otherwise
        envt = self.p.ty[ins['body']['locals'][1]]
        if envt['kind'] == 'ref':
            h = self.fresh('E')
            st.heap[h] = clo
            env = ('ref', ('h', h), ())
            outs = self.exec_fn(st, body, [env] + args)
            for _, _, s in outs:
                s.heap.pop(h, None)
            return outs
        return self.exec_fn(st, body, [clo] + args)

    def call_value(self, st, fv, args):
        """call a callable value (closure, reference to closure, fn item)"""
        while type(fv) is tuple and fv[0] == 'ref':
            tgt = self.deref(st, fv)
            if type(tgt) is tuple and tgt[0] == 'A' and tgt[1] == 'clo':
                body = self.p.ty[tgt[2]]['body']
                ins = self.p.inst[str(body)]
                envt = self.p.ty[ins['body']['locals'][1]]
                if envt['kind'] == 'ref':
                    return self.exec_fn(st, body, [fv] + args)
                return self.exec_fn(st, body, [tgt] + args)
            fv = tgt
        if fv[0] == 'A' and fv[1] == 'clo':
            return self.call_closure(st, fv, args)
        if fv[0] == 'fn':
            return self.call(st, fv, args, None)
        raise Undecided('callable %r' % (fv[0],))

    # ---------------------------------------------------------------- drop
    def drop(self, st, v, ref, tid=None):
        """list of outcomes"""
        if v is None or type(v) is not tuple:
            return [('ret', UNIT, st)]
        k = v[0]
        if k == 'A':
            outs = [('ret', UNIT, st)]
            if v[1] == 'adt':
                t = self.p.ty[v[2]]
                if 'drop' in t:
                    if ref is None:
                        h = self.fresh('E')
                        st.heap[h] = v
                        r2 = ('ref', ('h', h), ())
                    else:
                        r2 = ref
                    outs = self.exec_fn(st, t['drop'], [r2])
            for i in range(len(v[4])):
                new = []
                for kind, _, s in outs:
                    if kind != 'ret':
                        # unwinding out of a destructor still drops the remaining fields
                        pass
                    fv = v[4][i]
                    if ref is not None:
                        try:
                            fv = self.read(s, ref[1], ref[2] + (i,))
                        except Undecided:
                            fv = v[4][i]
                    for k2, _, s2 in self.drop(s, fv, (ref[0], ref[1], ref[2] + (i,)) if ref else None):
                        new.append((kind if kind != 'ret' else k2, UNIT, s2))
                outs = new
            return outs
        if k in ('tbl', 'vec', 'set', 'vit', 'sdr', 'drain'):
            self.clear_container(st, v[1])
            return [('ret', UNIT, st)]
        return [('ret', UNIT, st)]

    def clear_container(self, st, cid):
        own = []
        ne_drop(st, cid)
        for e, om in list(self.all_entries(st)):
            if e[0] == cid and any(m[1] == 'n' for m in e[3]):
                import models
                models.uncount(st, e[3], om)
        for u, e in list(st.ent.items()):
            if e[0] == cid:
                own.append(e)
                del st.ent[u]

        def rec(sh):
            es = tuple(e for e in sh[1] if e[0] != cid)
            gone = [e for e in sh[1] if e[0] == cid]
            subs = tuple(rec(s) for s in sh[3])
            es2 = es
            evs = sh[2]
            for g in gone:
                for c in setcids(g[1]):
                    es2 = tuple(e for e in es2 if e[0] != c)
                    subs = tuple(prune(s, c) for s in subs)
                    evs = tuple(v for v in evs if v != ('ne', c))
            return ('S', es2, evs, subs)

        def prune(sh, c):
            return ('S', tuple(e for e in sh[1] if e[0] != c), sh[2], tuple(prune(s, c) for s in sh[3]))
        new = set()
        for s in st.om:
            s2 = rec(s)
            if s2[1] or s2[2] or s2[3]:
                new.add(recanon(s2))
        st.om = frozenset(new)
        for e in own:
            for c in setcids(e[1]):
                self.clear_container(st, c)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.op(st, r[1])
        if k == 'ref':
            b, p = self.loc_of(st, r[2])
            if b[0] == 'c' and not p and type(b[1]) is tuple and b[1][0] == 'str':
                return b[1]
            return ('ref', b, p)
        if k == 'agg':
            o = r[1]
            fs = [self.op(st, x) for x in r[2]]
            ak = o['k']
            if ak == 'tuple':
                return ('A', 'tup', 0, 0, tuple(fs))
            if ak == 'adt':
                v = ('A', 'adt', o['ty'], o['variant'], tuple(fs))
                return self.mkmap(st, v)
            if ak == 'closure':
                return ('A', 'clo', o['ty'], 0, tuple(fs))
            if ak == 'array':
                return ('A', 'arr', 0, 0, tuple(fs))
            raise Undecided('aggregate ' + ak)
        if k == 'discr':
            v = self.rd(st, r[1])
            if v is None and len(r[1]) == 1:
                # a value of a type with a single possible variant (Option<!>) is never written
                t = self.p.ty[self.p.inst[str(st.fns[-1][0])]['body']['locals'][r[1][0]]]
                vs = [i for i, x in enumerate(t.get('variants') or ()) if not any(
                    self.p.ty[f['ty']].get('name') in ('!', 'std::convert::Infallible') for f in x['fields'])]
                if len(vs) == 1 and not t['variants'][vs[0]]['fields']:
                    return t['variants'][vs[0]].get('discr', vs[0])
            return self.discr(v)
        if k == 'bin':
            a = self.op(st, r[2])
            b = self.op(st, r[3])
            if r[1].startswith('Add') and b == 1 and type(b) is int and st.pick is not None:
                v = self.count_up(st, a)
                if v is not None:
                    return ('A', 'adt', 0, 0, (v, False)) if 'WithOverflow' in r[1] else v
            return self.binop(st, r[1], a, b)
        if k == 'un':
            a = self.op(st, r[2])
            if r[1] == 'Not' and type(a) is bool:
                return not a
            if type(a) is int and r[1] == 'Neg':
                return -a
            return ('top', 'un')
        if k == 'cast':
            v = self.op(st, r[2])
            if type(v) is tuple and v[0] in ('ref', 'bkt') and self.p.ty[r[3]].get('name') == 'usize':
                return ('addr', v)
            if r[1].startswith('Transmute') and type(v) is tuple and v[0] == 'A':
                tt = self.p.ty[r[3]]
                if tt['kind'] == 'adt' and v[1] == 'adt':
                    return v
            if r[1].startswith('Transmute') and type(v) is int:
                # an integer read as an Option<NonZero<_>>
                tt = self.p.ty[r[3]]
                if tt['kind'] == 'adt' and len(tt.get('variants') or ()) == 2 and \
                        (tt.get('path') or '').endswith('Option'):
                    if v == 0:
                        return A('adt', r[3], 0, [])
                    return A('adt', r[3], 1, [v])
            return v
        if k == 'repeat':
            raise Undecided('array repeat')
        raise Undecided('rvalue %r' % (r[:2],))

    def discr(self, v):
        if type(v) is not tuple:
            raise Undecided('discriminant of %r' % (v,))
        if v[0] == 'A':
            if v[1] == 'adt':
                t = self.p.ty[v[2]]
                if t['kind'] == 'adt' and t['variants']:
                    return t['variants'][v[3]].get('discr', v[3])
            return v[3]
        raise Undecided('discriminant of %s' % v[0])

    def mkmap(self, st, v):
        """A freshly built map: its counter starts a new id space"""
        t = self.p.ty[v[2]]
        if t.get('krate') != 'cycle_map':
            return v
        tb = [x for x in v[4] if type(x) is tuple and x[0] == 'tbl']
        if len(tb) < 2:
            return v
        cids = {x[1] for x in tb}
        if any(e[0] in cids for e, _ in self.all_entries(st)):
            return v
        return self.newctrs(v)

    def newctrs(self, v):
        sorts = iter('ijpqxyzw')
        ns = st_sorts = None
        fs = []
        k = self.ctrsorts
        for x in v[4]:
            if type(x) is int and type(x) is not bool:
                fs.append(('ctr', self.fresh('k' + k[0]), x))
                k = k[1:]
            elif type(x) is tuple and x[0] == 'A' and x[1] == 'adt' and len(x[4]) == 1 and type(x[4][0]) is int:
                fs.append(('A', 'adt', x[2], x[3], (('ctr', self.fresh('k' + k[0]), x[4][0]),)))
                k = k[1:]
            else:
                fs.append(x)
        return ('A', v[1], v[2], v[3], tuple(fs))

    ctrsorts = 'ijpqxyzw'

    def binop(self, st, opn, a, b):
        if opn.startswith(('Add', 'Sub')) and not (type(a) is int and type(b) is int and a == b):
            st.prog += 1
        base = opn.replace('WithOverflow', '').replace('Unchecked', '')
        # the checks the compiler adds to raw pointers: addresses of references are aligned and not null
        if type(a) is tuple and a[0] == 'addr' and type(b) is int:
            if base == 'BitAnd':
                return 0
            if base in ('Eq', 'Ne') and b == 0:
                return base == 'Ne'
        wo = 'WithOverflow' in opn
        if base in ('Eq', 'Ne'):
            r = self.eq3(st, a, b)
            if r is True or r is False:
                return r if base == 'Eq' else not r
            return [((x if base == 'Eq' else not x), s) for x, s in self.branch_eq(st, a, b)]
        if base in ('Lt', 'Le', 'Gt', 'Ge'):
            if type(a) is int and type(b) is int:
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[base]
            # emptiness tests on lengths
            la, lb = self.lin(a), self.lin(b)
            if la is not None and lb is not None:
                if base in ('Gt', 'Le') and b == 0 and la[0] == 0 and all(x > 0 for x in la[1].values()):
                    return [((not x) if base == 'Gt' else x, s) for x, s in self.branch_eq(st, a, 0)]
                if base in ('Lt', 'Ge') and a == 0 and lb[0] == 0 and all(x > 0 for x in lb[1].values()):
                    return [((not x) if base == 'Lt' else x, s) for x, s in self.branch_eq(st, b, 0)]
                if base in ('Lt', 'Ge') and b == 1 and la[0] == 0 and all(x > 0 for x in la[1].values()):
                    return [(x if base == 'Lt' else (not x), s) for x, s in self.branch_eq(st, a, 0)]
                if a == b:
                    return base in ('Le', 'Ge')
                r = self.cmp_lin(st, base, la, lb)
                if r is not None:
                    return r
            out = []
            if a == LOST or b == LOST:
                st.flags['vague'] = True
            for val in (True, False):
                s2 = st.copy()
                key = ('cmp', base, a, b)
                f = s2.facts.get(key)
                if f is not None and f != val:
                    continue
                s2.facts[key] = val
                s2.keep = s2.keep + (key,) if la is not None or lb is not None else s2.keep
                out.append((val, s2))
            return out
        if base in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Rem', 'Div'):
            if type(a) is bool and type(b) is bool:
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
            v = self.arith(st, base, a, b)
            if wo:
                if type(v) is int and v < 0:
                    return tup(v, True)
                la, lb = self.lin(a), self.lin(b)
                if base == 'Sub' and la and lb and type(v) is not int:
                    # a length minus something: does it underflow?
                    r = self.cmp_lin(st, 'Lt', la, lb)
                    if r is not None and r is not False:
                        return [(tup(v, x), s) for x, s in r] if type(r) is list else tup(v, r)
                return tup(v, False)
            return v
        if base == 'Cmp':
            import models
            if models.ORD is None:
                raise Undecided('three-way comparison')
            outs = []
            for lt, s1 in self.as_cases(self.binop(st, 'Lt', a, b), st):
                if lt:
                    outs.append((models.ordering(0), s1))
                    continue
                for eq, s2 in self.branch_eq(s1, a, b):
                    outs.append((models.ordering(1 if eq else 2), s2))
            return outs
        if base == 'Offset':
            raise Undecided('pointer arithmetic')
        raise Undecided('binary op ' + opn)

    def as_cases(self, r, st):
        return r if type(r) is list else [(r, st)]

    def count_up(self, st, a):
        """a + 1, where the one is the element an iterator just produced: counting loops then count
        a (marked) set of elements.  The marks are a copy, so that other values stay as they are."""
        u = st.pick
        if u not in st.ent or type(a) is bool:
            return None
        if type(a) is int:
            c, d = a, {}
        elif type(a) is tuple and a[0] == 'lin':
            c, d = a[1], dict(a[2])
        else:
            return None
        e = st.ent[u]
        new = self.fresh('n')
        old = [m for m, x in sorted(d.items()) if x == 1 and m not in e[3]]
        if old:
            old = old[0]
            del d[old]
            import models
            models.map_entries(st, lambda e: (e[0], e[1], e[2], e[3] | {new}) if old in e[3] else e)
            e = st.ent[u]
        st.ent[u] = (e[0], e[1], e[2], e[3] | {new})
        d[new] = 1
        return self.mklin(c, d)

    def arith(self, st, base, a, b):
        if type(a) is int and type(b) is int:
            if base == 'Add':
                return a + b
            if base == 'Sub':
                return a - b
            if base == 'Mul':
                return a * b
            if base == 'Shl':
                return a << b
            if base == 'Shr':
                return a >> b
            if base == 'BitAnd':
                return a & b
            if base == 'BitOr':
                return a | b
            if base == 'BitXor':
                return a ^ b
            if base == 'Rem' and b:
                return a % b
            if base == 'Div' and b:
                return a // b
        if base == 'Add' and type(a) is tuple and a[0] == 'ctr' and type(b) is int:
            return ('ctr', a[1], a[2] + b)
        if base == 'Add' and type(b) is tuple and b[0] == 'ctr' and type(a) is int:
            return ('ctr', b[1], b[2] + a)
        if base == 'Sub' and type(a) is tuple and a[0] == 'ctr' and type(b) is int:
            return ('ctr', a[1], a[2] - b)
        if base in ('Add', 'Sub'):
            la, lb = self.lin(a), self.lin(b)
            if la is not None and lb is not None:
                sg = 1 if base == 'Add' else -1
                d = dict(la[1])
                for k, x in lb[1].items():
                    d[k] = d.get(k, 0) + sg * x
                return self.mklin(la[0] + sg * lb[0], d)
        tags = []
        for x in (a, b):
            if type(x) is tuple and x[0] == 'top':
                tags.append(x[1])
        if 'lost' in tags:
            return LOST
        if 'hint' in tags:
            return ('top', 'hint')
        if 'uhint_hi' in tags:
            return ('top', 'uhint_hi')
        if a == ('top', 'n') and b != 0 and base in ('Div', 'Shr', 'Rem', 'BitAnd', 'Sub'):
            # less than what was asked for (b is at least one: anything else would be pointless)
            return ('top', 'reduced') if not (b == 1 and base == 'Div') else a
        if a == ('top', 'reduced') and base in ('Div', 'Shr', 'Rem', 'BitAnd', 'Sub'):
            return a
        return ('top', 'arith')


# -------------------------------------------------------------------- helpers
def shape_size(sh):
    return len(sh[1]) + sum(shape_size(s) for s in sh[3])


# ('ne', cid): the set cid is not empty (even when none of its elements is spelled out)
def has_cid(sh, c):
    return any(e[0] == c for e in sh[1]) or any(has_cid(s, c) for s in sh[3])


def ne_ok(sh):
    return all(v[0] != 'ne' or has_cid(sh, v[1]) for v in sh[2])


def ne_state_ok(st):
    for v in st.ev:
        if v[0] == 'ne' and not any(e[0] == v[1] for e in st.ent.values()) \
                and not any(has_cid(s, v[1]) for s in st.om):
            return False
    return True


def ne_drop(st, cid):
    if ('ne', cid) in st.ev:
        st.ev = tuple(e for e in st.ev if e != ('ne', cid))


def widen(om):
    """groups that differ only in which kinds of members they may have are joined"""
    by = {}
    for s in om:
        by.setdefault((s[1], s[2]), []).append(s)
    if len(by) == len(om):
        return om
    out = set()
    for (es, vs), l in by.items():
        if len(l) == 1:
            out.add(l[0])
        else:
            subs = set()
            for s in l:
                subs.update(s[3])
            out.add(recanon(('S', es, vs, tuple(sorted(subs, key=rkey)))))
    return frozenset(out)


def ins_id(p, ins):
    i = ins.get('_id')
    if i is None:
        for k, v in p.inst.items():
            v['_id'] = int(k)
        i = ins['_id']
    return i


def eid(st, u):
    """the entry a bucket or reference names"""
    if u[1] == 'G':
        for w, e in st.ent.items():
            if u in e[3]:
                return w
    return u


def links(v, acc=None):
    """the entries that buckets and references inside a value point at"""
    if acc is None:
        acc = []
    if type(v) is tuple and v:
        if v[0] == 'bkt' and len(v) == 2:
            acc.append(v[1])
        elif len(v) == 2 and v[0] == 'e' and type(v[1]) is str:
            acc.append(v[1])
        else:
            for x in v:
                links(x, acc)
    return acc


def conn(ss):
    return {s for s in ss if s[1] not in 'kbIneE' and '$' not in s}


def ctrs(v, acc=None):
    if acc is None:
        acc = []
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'ctr':
            acc.append(v)
        else:
            for x in v:
                ctrs(x, acc)
    return acc


def mapctrs(v, acc=None):
    """counters stored in a map value (an aggregate that also holds tables)"""
    if acc is None:
        acc = []
    if type(v) is tuple:
        if v and v[0] == 'A' and sum(1 for x in v[4] if type(x) is tuple and x and x[0] == 'tbl') >= 2:
            for x in v[4]:
                ctrs(x, acc)
        else:
            for x in v:
                mapctrs(x, acc)
    return acc


def csub(v, m):
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'ctr':
            return m.get(v, v)
        out = None
        for i, x in enumerate(v):
            y = csub(x, m)
            if y is not x:
                if out is None:
                    out = list(v)
                out[i] = y
        return v if out is None else tuple(out)
    return v


def tblcids(v, acc=None):
    if acc is None:
        acc = []
    if type(v) is tuple:
        if len(v) >= 2 and v[0] in ('tbl', 'vec', 'vit', 'drain') and type(v[1]) is str:
            acc.append(v[1])
            if v[0] == 'drain':
                acc.append(v[2])
        else:
            for x in v:
                tblcids(x, acc)
    return acc


def setcids(v, acc=None):
    if acc is None:
        acc = []
    if type(v) is tuple:
        if len(v) == 2 and v[0] in ('set', 'vec') and type(v[1]) is str:
            acc.append(v[1])
        else:
            for x in v:
                setcids(x, acc)
    return acc


def has_set(v):
    return bool(setcids(v))


def union(items, excl):
    """connected components; items: (kind, id, symset). returns list of (own symbols, items)"""
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    comps = []
    lone = []
    for it in items:
        ss = [s for s in it[2] if s not in excl]
        for s in ss:
            parent.setdefault(s, s)
        for s in ss[1:]:
            a, b = find(ss[0]), find(s)
            if a != b:
                parent[a] = b
    groups = {}
    for it in items:
        ss = [s for s in it[2] if s not in excl]
        if not ss:
            lone.append((set(), [it]))
            continue
        g = groups.setdefault(find(ss[0]), (set(), []))
        g[0].update(ss)
        g[1].append(it)
    return list(groups.values()) + lone


def short(v):
    t = type(v)
    if t is tuple:
        if not v:
            return '()'
        if v[0] == 'K':
            return '%s:%s' % (v[1], v[2][1:])
        if v[0] == 'H':
            return 'hash(%s)' % ','.join(short(x) for x in v[2])
        if v[0] in ('id',):
            return v[1][1:]
        if v[0] == 'ctr':
            return 'counter+%d' % v[2]
        if v[0] == 'A':
            return '%s(%s)' % ('' if not v[3] else 'v%d' % v[3], ', '.join(short(x) for x in v[4]))
        return '(' + ','.join(short(x) for x in v) + ')'
    if t is str:
        return v[1:] if v.startswith('%') else v
    return repr(v)
