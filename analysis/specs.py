"""What each public operation must do, stated on the abstract outcomes of the interpreter.

A relation is a list of units (left key | None, right key | None); keys are ('K', side, class, token):
`class` is the Eq-equivalence class, `token` the identity of one stored object.
`judge` returns [(category, reason)], where category is one of
  relation   the final pairing is not the specified one
  ret        the returned value is not the specified one
  invariant  the representation is inconsistent
  counter    an id in use can be handed out again
  unchanged  a call that must change nothing changed something
  pure       a query changed the map
  builder    the hash builder was replaced
  memory     the tables were replaced / not all of them were resized
  yield, clone, hint, fused, pred, drain, retained, inverted, panicstate, dup, event
"""
import re
from collections import Counter
from domain import *
from absint import Undecided
import absint


def other(side):
    return 1 - side


def cls(k):
    return None if k is None else k[2]


def find(O, side, k):
    """units whose key on `side` equals k"""
    return [u for u in O if u[side] is not None and u[side][2] == k[2]]


def one(O, side, k):
    us = find(O, side, k)
    return us[0] if us else None


def minus(O, *us):
    return [u for u in O if u not in us]


def op(u):
    """a unit as an OptionalPair"""
    if u is None:
        return ('Neither',)
    if u[0] is not None and u[1] is not None:
        return ('SomeBoth', u[0], u[1])
    if u[0] is not None:
        return ('SomeLeft', u[0])
    return ('SomeRight', u[1])


def mk(side, a, b):
    return (a, b) if side == 0 else (b, a)


# =================================================================== reference semantics
# each returns a list of alternatives (expected units, [accepted return values] | predicate)

def cm_insert(O, l, r):
    u, v = one(O, 0, l), one(O, 1, r)
    F = minus(O, u, v) + [(l, r)]
    if u and v and u == v:
        return F, [('SomeLeft', u), ('SomeRight', u)]
    if u and v:
        return F, [('SomeBoth', u, v)]
    if u:
        return F, [('SomeLeft', u)]
    if v:
        return F, [('SomeRight', v)]
    return F, [('Neither',)]


def cm_remove(O, l, r):
    u = one(O, 0, l)
    if u and u[1] is not None and u[1][2] == r[2]:
        return minus(O, u), [('Some', u)]
    return O, [None]


def cm_remove_via(side):
    def f(O, k):
        u = one(O, side, k)
        if u:
            return minus(O, u), [('Some', u)]
        return O, [None]
    return f


def swap(side, partial):
    def f(O, old, new):
        u = one(O, side, old)
        if not u:
            return O, [('Neither',)]
        nu = mk(side, new, u[other(side)])
        if old[2] == new[2]:
            return minus(O, u) + [nu], [('SomeLeft', u[side])]
        v = one(O, side, new)
        if v:
            return minus(O, u, v) + [nu], [('SomeBoth', u[side], op(v) if partial else v)]
        return minus(O, u) + [nu], [('SomeLeft', u[side])]
    return f


def swap_checked(side, partial):
    def f(O, old, expected, new):
        u = one(O, side, old)
        p = u and u[other(side)]
        if not p or p[2] != expected[2]:
            return O, [('Neither',)]
        return swap(side, partial)(O, old, new)
    return f


def swap_or_insert(side, partial):
    def f(O, old, new, ins):
        if one(O, side, old):
            return swap(side, partial)(O, old, new)
        ku, kv = mk(side, new, ins)
        us = [u for u in (one(O, 0, ku), one(O, 1, kv)) if u]
        toks = {k for u in us for k in u if k}

        def ok(r):
            ks = keys_in(r)
            if len(ks) != len(set(ks)):
                return False
            if not us:
                return r == ('Neither',)
            return r != ('Neither',) and set(ks) <= toks and len(ks) > 0
        return minus(O, *us) + [(ku, kv)], ok
    return f


def pm_insert(O, l, r):
    u, v = one(O, 0, l), one(O, 1, r)
    F = minus(O, u, v) + [(l, r)]
    if u and v and u == v:
        return F, [(op(u), op(None)), (op(None), op(u))]
    return F, [(op(u), op(v))]


def pm_insert_one(side):
    def f(O, k):
        u = one(O, side, k)
        return minus(O, u) + [mk(side, k, None)], [op(u)]
    return f


def pm_remove_one(side):
    def f(O, k):
        u = one(O, side, k)
        if not u:
            return O, [None]
        F = minus(O, u)
        if u[other(side)] is not None:
            F = F + [mk(side, None, u[other(side)])]
        return F, [('Some', u[side])]
    return f


def pm_remove_via(side):
    def f(O, k):
        u = one(O, side, k)
        return minus(O, u), [op(u)]
    return f


def pm_pair(O, l, r):
    u, v = one(O, 0, l), one(O, 1, r)
    if u and v and u[1] is None and v[0] is None:
        return minus(O, u, v) + [(u[0], v[1])], [True]
    if u and u == v:
        # already paired together; the documentation leaves the answer open
        return O, [True, False]
    return O, [False]


def pm_pair_forced(O, l, r):
    u, v = one(O, 0, l), one(O, 1, r)
    if not u or not v or u == v:
        return O, [('Neither',)]
    F = minus(O, u, v) + [(u[0], v[1])]
    a, b = v[0], u[1]
    if b:
        F = F + [(None, b)]
    if a:
        F = F + [(a, None)]
    return F, [op((a, b)) if a or b else ('Neither',)]


def pm_pair_forced_remove(O, l, r):
    u, v = one(O, 0, l), one(O, 1, r)
    if not u or not v or u == v:
        return O, [('Neither',)]
    a, b = v[0], u[1]
    return minus(O, u, v) + [(u[0], v[1])], [op((a, b)) if a or b else ('Neither',)]


def pm_unpair(O, l, r):
    u = one(O, 0, l)
    if u and u[1] is not None and u[1][2] == r[2]:
        return minus(O, u) + [(u[0], None), (None, u[1])], [True]
    return O, [False]


def pm_remove(O, l, r):
    u = one(O, 0, l)
    if u and u[1] is not None and u[1][2] == r[2]:
        return minus(O, u), [('Some', u)]
    return O, [None]


# ---- groups: units (l, r) for each left, (None, r) for an empty group
def groups(O):
    g = {}
    for l, r in O:
        g.setdefault(r, [])
        if l is not None:
            g[r].append(l)
    return g


def ungroup(g):
    F = []
    for r, ls in g.items():
        F += [(l, r) for l in ls] if ls else [(None, r)]
    return F


def g_right(g, k):
    for r in g:
        if r is not None and r[2] == k[2]:
            return r
    return None


def g_left(g, k):
    for r, ls in g.items():
        for l in ls:
            if l[2] == k[2]:
                return l, r
    return None, None


def g_drop_left(g, k):
    l, r = g_left(g, k)
    if l:
        g[r] = [x for x in g[r] if x != l]
    return l


def sset(xs):
    return ('set', frozenset(xs), len(xs))


def gm_insert(O, l, r):
    g = groups(O)
    ol, orr = g_left(g, l)
    rr = g_right(g, r)
    keep = ol or l
    if ol:
        g[orr] = [x for x in g[orr] if x != ol]
    if rr is None:
        rr = r
        g[rr] = []
    g[rr] = g[rr] + [keep]
    return ungroup(g), [()]


def gm_insert_remove(O, l, r):
    g = groups(O)
    ol = g_drop_left(g, l)
    rr = g_right(g, r)
    ret2 = None
    if rr:
        ls = g.pop(rr)
        ret2 = ('Some', (sset(ls), rr))
    g[r] = [l]
    return ungroup(g), [(('Some', ol) if ol else None, ret2)]


def gm_insert_left(O, l, r):
    g = groups(O)
    rr = g_right(g, r)
    if not rr:
        return O, [None]
    ol = g_drop_left(g, l)
    g[rr] = g[rr] + [l]
    return ungroup(g), [('Some', ol) if ol else None]


def gm_insert_right(O, r):
    g = groups(O)
    rr = g_right(g, r)
    ret = None
    if rr:
        ret = ('Some', (sset(g.pop(rr)), rr))
    g[r] = []
    return ungroup(g), [ret]


def gm_swap_right(O, old, new):
    g = groups(O)
    oo = g_right(g, old)
    if not oo:
        F, _ = gm_insert_right(O, new)
        return F, [()]
    if old[2] == new[2]:
        # either object may stay
        g2 = dict(g)
        g2[new] = g2.pop(oo)
        return [O, ungroup(g2)], [()]
    nn = g_right(g, new)
    if nn:
        g.pop(nn)
    g[new] = g[oo]
    g[oo] = []
    return ungroup(g), [()]


def gm_swap_right_remove(O, old, new):
    g = groups(O)
    oo = g_right(g, old)
    if not oo:
        F, _ = gm_insert_right(O, new)
        return F, [None]
    nn = g_right(g, new)
    if nn and nn != oo:
        g.pop(nn)
    ls = g.pop(oo)
    g[new] = ls
    return ungroup(g), [('Some', oo)]


def gm_pair(O, l, r):
    g = groups(O)
    ol, _ = g_left(g, l)
    rr = g_right(g, r)
    if not ol or not rr:
        return O, [False]
    g_drop_left(g, l)
    g[rr] = g[rr] + [ol]
    return ungroup(g), [True]


def gm_remove(O, l, r):
    g = groups(O)
    ol, orr = g_left(g, l)
    if ol and orr[2] == r[2]:
        ls = g.pop(orr)
        return ungroup(g), [('Some', (sset(ls), orr))]
    return O, [None]


def gm_remove_left(O, l):
    g = groups(O)
    ol = g_drop_left(g, l)
    return ungroup(g), [('Some', ol) if ol else None]


def gm_remove_right(O, r):
    g = groups(O)
    rr = g_right(g, r)
    if not rr:
        return O, [None]
    ls = g.pop(rr)
    return ungroup(g), [('Some', (sset(ls), rr))]


# ---- queries
def q(f):
    return lambda O, *a: (O, [f(O, *a)])


def q_paired(O, l, r):
    return any(u[0] and u[1] and u[0][2] == l[2] and u[1][2] == r[2] for u in O)


def q_contains(side):
    return lambda O, k: bool(find(O, side, k))


def q_get(side):
    """the partner of the key on `side`"""
    def f(O, k):
        u = one(O, side, k)
        p = u and u[other(side)]
        return ('Some', p) if p else None
    return f


def q_is_paired(side):
    def f(O, k):
        return any(u[other(side)] is not None for u in find(O, side, k))
    return f


OPS = {
    'cm_insert': cm_insert, 'cm_remove': cm_remove,
    'cm_remove_via_left': cm_remove_via(0), 'cm_remove_via_right': cm_remove_via(1),
    'cm_swap_left': swap(0, False), 'cm_swap_right': swap(1, False),
    'cm_swap_left_checked': swap_checked(0, False), 'cm_swap_right_checked': swap_checked(1, False),
    'cm_swap_left_or_insert': swap_or_insert(0, False), 'cm_swap_right_or_insert': swap_or_insert(1, False),
    'pm_insert': pm_insert, 'pm_insert_left': pm_insert_one(0), 'pm_insert_right': pm_insert_one(1),
    'pm_remove': pm_remove, 'pm_remove_left': pm_remove_one(0), 'pm_remove_right': pm_remove_one(1),
    'pm_remove_via_left': pm_remove_via(0), 'pm_remove_via_right': pm_remove_via(1),
    'pm_pair': pm_pair, 'pm_pair_forced': pm_pair_forced, 'pm_pair_forced_remove': pm_pair_forced_remove,
    'pm_unpair': pm_unpair,
    'pm_swap_left': swap(0, True), 'pm_swap_right': swap(1, True),
    'pm_swap_left_checked': swap_checked(0, True), 'pm_swap_right_checked': swap_checked(1, True),
    'pm_swap_left_or_insert': swap_or_insert(0, True), 'pm_swap_right_or_insert': swap_or_insert(1, True),
    'gm_insert': gm_insert, 'gm_insert_remove': gm_insert_remove, 'gm_insert_left': gm_insert_left,
    'gm_insert_right': gm_insert_right, 'gm_swap_right': gm_swap_right,
    'gm_swap_right_remove': gm_swap_right_remove, 'gm_pair': gm_pair, 'gm_remove': gm_remove,
    'gm_remove_left': gm_remove_left, 'gm_remove_right': gm_remove_right,
}
# operations that promise to change nothing when they report failure: value meaning 'refused'
CONDITIONAL = {n for n in OPS if n not in ('cm_insert', 'pm_insert', 'gm_insert', 'gm_insert_remove',
                                           'gm_insert_right', 'pm_insert_left', 'pm_insert_right',
                                           'gm_swap_right', 'gm_swap_right_remove',
                                           'cm_swap_left_or_insert', 'cm_swap_right_or_insert',
                                           'pm_swap_left_or_insert', 'pm_swap_right_or_insert')}
QUERIES = {}
for _p in ('cm', 'pm', 'gm'):
    QUERIES[_p + '_are_paired'] = q(q_paired)
    QUERIES[_p + '_contains_left'] = q(q_contains(0))
    QUERIES[_p + '_contains_right'] = q(q_contains(1))
    QUERIES[_p + '_get_right'] = q(q_get(0))
    QUERIES[_p + '_get_right_q'] = q(q_get(0))
    QUERIES[_p + '_get_left'] = q(q_get(1))
    QUERIES[_p + '_get_left_q'] = q(q_get(1))
    QUERIES[_p + '_is_left_paired'] = q(q_is_paired(0))
    QUERIES[_p + '_is_right_paired'] = q(q_is_paired(1))
QUERIES['gm_get_left_iter'] = q(q_contains(1))
QUERIES['gm_get_left_iter_q'] = q(q_contains(1))

LENS = {'cm_len': None, 'pm_len_left': 0, 'pm_len_right': 1, 'gm_len_left': 0, 'gm_len_right': 1}
RESIZE = {}
for _o in ('shrink_to', 'reserve', 'try_reserve', 'shrink_to_fit'):
    RESIZE['cm_' + _o] = (_o, (0, 1))
    RESIZE['pm_' + _o + '_left'] = (_o, (0,))
    RESIZE['pm_' + _o + '_right'] = (_o, (1,))
RESIZE['pm_shrink_to_fit'] = ('shrink_to_fit', (0, 1))
CAPS = {'cm_capacity': None, 'pm_capacity_left': 0, 'pm_capacity_right': 1, 'gm_capacity_left': 0,
        'gm_capacity_right': 1}
CTORS = ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'default')
EXTENDS = {'cm_extend': cm_insert, 'cm_from_iter': cm_insert, 'cm_deserialize': cm_insert,
           'pm_extend': pm_insert, 'pm_from_iter': pm_insert, 'pm_extend_op': None, 'pm_from_iter_op': None,
           'gm_extend': gm_insert, 'gm_from_iter': gm_insert, 'gm_extend_opt': None, 'gm_from_iter_opt': None}


def keys_in(v, acc=None):
    if acc is None:
        acc = []
    if type(v) is tuple:
        if len(v) == 4 and v[0] == 'K':
            acc.append(v)
        elif len(v) == 3 and v[0] == 'set':
            for x in v[1]:
                keys_in(x, acc)
        else:
            for x in v:
                keys_in(x, acc)
    return acc


def same(A, B):
    return Counter(A) == Counter(B)


def rel(us):
    """units, class level only"""
    return Counter((cls(a), cls(b)) for a, b in us)


def show(E, us):
    """human readable relation with short names"""
    nm = {}

    def n(k):
        if k is None:
            return '-'
        key = (k[1], k[2])
        if key not in nm:
            nm[key] = '%s%d' % (k[1].lower(), 1 + sum(1 for x in nm if x[0] == k[1]))
        return nm[key]
    return '{' + ', '.join(sorted('%s~%s' % (n(a), n(b)) for a, b in us)) + '}'


class Ctx:
    pass


def context(E, I, name, kind, ret, st, twice=False):
    c = Ctx()
    c.name = name
    c.pre = name.split('_')[0]
    c.base, _, c.var = name.partition('__')
    c.E, c.I, c.kind, c.st = E, I, kind, st
    c.mv = st.heap.get('M')
    c.rawret = ret
    if c.mv is None and kind == 'ret':
        c.mv = ret            # constructors
    E.instantiate_all(I, st, twice)
    c.problems = []
    c.F = None
    if c.pre in ('cm', 'pm', 'gm') and type(c.mv) is tuple and c.mv and c.mv[0] == 'A' and \
            sum(1 for x in c.mv[4] if type(x) is tuple and x and x[0] == 'tbl') >= 2:
        c.F, c.problems = E.units(I, st, c.mv, c.pre)
    c.O = E.orig(st, 'M')
    c.ret = E.dec(st, ret) if kind == 'ret' else None
    c.args = [E.dec(st, a) for a in st.flags.get('args', ())]
    ks = {h: k for h, k in st.flags.get('argk', ())}
    c.keys = [ks.get('arg%d' % (i + 1)) for i in range(len(c.args))]
    c.keys = [k for k in c.keys if k is not None]
    c.ys = {'y': [], 'a': [], 'b': []}
    c.preds = []
    c.predunw = []
    c.cl = {}
    c.cnt = {'lo': [], 'hi': []}
    c.events = set()
    c.items = []
    for e in st.ev:
        if e[0] == 'y':
            c.ys[e[1]].append(E.dec(st, e[2]))
        elif e[0] == 'pred':
            c.preds.append((tuple(E.dec(st, x) for x in e[1]), e[2]))
        elif e[0] == 'predunw':
            c.predunw.append(tuple(E.dec(st, x) for x in e[1]))
        elif e[0] == 'cl':
            c.cl[e[2]] = e[1]
        elif e[0] == 'cnt':
            c.cnt[e[1]].append((e[2], e[3]))
        elif e[0] == 'item':
            c.items.append((e[1], E.dec(st, e[2])))
        elif e[0] != 'orig':
            c.events.add(e[0])
    c.items = [v for _, v in sorted(c.items, key=lambda x: x[0])]
    return c


# =================================================================== judging
def judge(E, I, name, kind, ret, st):
    """[(category, reason)] for one outcome of harness `name`"""
    c = context(E, I, name, kind, ret, st)
    P = []
    for p in dict.fromkeys(c.problems):
        P.append(p)
    b = c.base
    if c.F is not None:
        mv0 = c.mv
        if c.pre in ('cm', 'pm', 'gm') and 'M' in st.heap and st.flags.get('sb0') and \
                builder_of(mv0) != st.flags['sb0'] and b != c.pre + '_clone_from':
            P.append(('builder', 'the hash builder of the map was replaced'))
        if 'M' in st.heap and st.flags.get('cids0') and b != c.pre + '_clone_from' and c.var != 'leak' and tuple(E.cidnames(mv0)) != st.flags['cids0']:
            P.append(('memory', 'the map\'s tables were replaced'))
    f = HANDLERS.get(b)
    if f is None and is_equality(b):
        raise Undecided('equality is judged by judge_eq')
    if f is None:
        raise Undecided('no specification for ' + name)
    P += f(c) or []
    P += dups(c)
    if ('skip', 'reinsert') in P:
        # what follows the insertion of a pair that is already paired
        return [('reinsert', 'inserting a pair that is already paired tears it apart')] if len(P) > 1 else []
    return [(a, stable(r)) for a, r in dict.fromkeys(P)]


_num = re.compile(r'\b([a-zA-Z])(\d{3,})\b')


def stable(r):
    """number the symbols in a message in the order they occur"""
    seen = {}

    def f(m):
        k = m.group(0)
        if k not in seen:
            seen[k] = m.group(1) + str(1 + sum(1 for x in seen if x[0] == m.group(1)))
        return seen[k]
    return _num.sub(f, r)


def builder_of(mv):
    for x in mv[4]:
        if type(x) is tuple and x[0] == 'sb':
            return x[1]
    return None


def dups(c):
    """one object may exist at one place only (moves never duplicate)"""
    if c.kind != 'ret' or c.F is None:
        return []
    owned = [k for u in c.F for k in u if k]
    if c.pre == 'gm':
        owned = list(dict.fromkeys(owned))
    held = keys_in(c.ret) if c.E.owned_ret(c.name) else []
    if 'drain' in c.base:
        held = held + [k for t in c.ys.values() for y in t for k in keys_in(y)]
    cnt = Counter(k[3] for k in owned + list(dict.fromkeys(held) if False else held))
    bad = [t for t, n in cnt.items() if n > 1]
    if bad:
        return [('dup', 'one object ends up in two places')]
    return []


def unchanged(c):
    if c.F is None:
        return []
    if not same(c.F, c.O):
        return [('pure', 'the map is changed: %s becomes %s' % (show(c.E, c.O), show(c.E, c.F)))]
    return []


def h_op(f):
    def h(c):
        if c.kind != 'ret':
            return [('unwind', 'the call can unwind although no user code panicked')]
        exp, rets = f(c.O, *c.keys)
        exps = exp if exp and type(exp[0]) is list else [exp]
        if not exps:
            exps = [[]]
        P = []
        got = c.ret
        if c.base == 'pm_pair_forced':
            got = c.ys['y'][0] if len(c.ys['y']) == 1 else ('?',)
        if c.base == 'gm_insert' and regroup_known(c.O, *c.keys):
            P.append(('skip', 'reinsert'))
        okret = rets(got) if callable(rets) else got in rets
        okrel = any(same(c.F, e) for e in exps)
        if not okrel:
            noop = any(same(c.O, e) for e in exps)
            lvl = any(rel(c.F) == rel(e) for e in exps)
            if noop:
                P.append(('unchanged', 'changes the map although nothing can be done: ' +
                          ('other objects are stored' if lvl else describe_diff(c, exps[0]))))
            else:
                P.append(('relation', 'the map ends up wrong: ' +
                          ('the wrong object of two equal ones is kept' if lvl else describe_diff(c, exps[0]))))
        if not okret:
            P.append(('ret', 'returns %s, specified is %s' % (sig(c, got), ' or '.join(sig(c, x) for x in rets)
                                                             if not callable(rets) else 'what was displaced')))
        return P
    return h


def sig(c, v):
    """short description of a return value relative to the call"""
    names = {}
    for i, k in enumerate(c.keys):
        names.setdefault(k, 'arg%d' % (i + 1))
    for u in c.O:
        for k in u:
            if k is not None and k not in names:
                rel_ = [i for i, a in enumerate(c.keys) if a[1] == k[1] and a[2] == k[2]]
                if rel_:
                    names[k] = 'stored(arg%d)' % (rel_[0] + 1)
                else:
                    for a in c.keys:
                        for w in find(c.O, 'LR'.index(a[1]), a):
                            if k in w:
                                names[k] = 'partner(arg%d)' % (c.keys.index(a) + 1)

    def s(v):
        if type(v) is tuple:
            if len(v) == 4 and v[0] == 'K':
                return names.get(v, 'unrelated')
            if len(v) == 3 and v[0] == 'set':
                return '{%s}' % ','.join(sorted({s(x) for x in v[1]}))
            if v and type(v[0]) is str:
                return v[0] + ('(%s)' % ','.join(s(x) for x in v[1:]) if v[1:] else '')
            return '(%s)' % ','.join(s(x) for x in v)
        return str(v)
    return s(v)


def describe_diff(c, exp):
    a, b = Counter(c.F), Counter(exp)
    miss = list((b - a).elements())
    extra = list((a - b).elements())
    d = []
    if miss:
        d.append('missing ' + ', '.join(sorted('%s~%s' % (sig(c, u[0]) if u[0] else '-', sig(c, u[1]) if u[1] else '-') for u in miss)))
    if extra:
        d.append('unexpected ' + ', '.join(sorted('%s~%s' % (sig(c, u[0]) if u[0] else '-', sig(c, u[1]) if u[1] else '-') for u in extra)))
    return '; '.join(d)


def h_query(f):
    def h(c):
        P = unchanged(c)
        if c.kind != 'ret':
            return P + [('unwind', 'the call can unwind although no user code panicked')]
        _, rets = f(c.O, *(c.keys[:1] if c.var == 'debug' else c.keys))
        if c.base.startswith('gm_get_left_iter'):
            k = c.keys[0]
            exp = [u[0] for u in find(c.O, 1, k) if u[0] is not None]
            return P + iter_variants(c, exp, rets)
        if c.ret not in rets:
            P.append(('ret', 'returns %s, specified is %s' % (sig(c, c.ret), sig(c, rets[0]))))
        return P
    return h


def per_elem(us, side):
    """one representative per stored element of the given side"""
    return list(dict.fromkeys(u[side] for u in us if u[side] is not None))


def h_len(side):
    def h(c):
        P = unchanged(c)
        if c.kind != 'ret':
            return P
        v = c.I.lin(c.rawret)
        if v is None:
            if type(c.rawret) is tuple and c.rawret[0] in ('top', 'cap'):
                return P + [('ret', 'returns a value unrelated to the number of elements')]
            raise Undecided('length is not linear')
        k, d = v
        want = 1
        if k != 0:
            P.append(('ret', 'is off by a constant %d' % k))
        sides = (0, 1) if side is None else (side,)
        # weight of the whole result per unit / per element
        es = c.E.flatten_entries(c.I, c.st, c.mv)
        for comp in comp_units(c, es):
            got = sum(c.I.coef(e[3], d) for e in comp['entries'])
            n = len(comp['L']) if side in (0,) else len(comp['R']) if side == 1 else len(comp['units'])
            if got != n:
                P.append(('ret', 'counts %d for %s' % (got, 'one element' if n == 1 else '%d elements' % n)))
        return P
    return h


def comp_units(c, es):
    """group entries by connected component together with the units they stand for"""
    from engine import components, allkeys
    out = []
    for comp in components(es):
        ks = set(allkeys(comp))
        us = [u for u in c.F if (u[0] in ks) or (u[1] in ks)]
        out.append({'entries': comp, 'units': us, 'L': per_elem(us, 0), 'R': per_elem(us, 1)})
    return out


def h_is_empty(c):
    P = unchanged(c)
    if c.kind != 'ret':
        return P
    if c.ret is True and c.O:
        P.append(('ret', 'claims to be empty with elements inside: %s' % show(c.E, c.O)))
    if c.ret is False and not c.st.flags.get('nonempty') and not c.O:
        P.append(('ret', 'an empty map claims to hold elements'))
    return P


def h_resize(what, sides):
    def h(c):
        P = unchanged(c)
        if c.kind != 'ret':
            return P
        cids = list(c.E.cidnames(c.mv))
        fl = c.st.flags
        refused = type(c.ret) is tuple and c.ret and c.ret[0] in ('Err', 'Some')
        for s in sides:
            ks = [k for k in fl if k.startswith('cap:') and k.endswith(':' + cids[s])]
            side = ('left', 'right')[s]
            if refused:
                continue
            if not any(matches_resize(c, cids[s], what, k, fl[k]) for k in ks) and not (
                    what in ('reserve', 'try_reserve') and pointless(c, cids[s])):
                P.append(('memory', 'the %s table is not resized as requested' % side))
        for s in (0, 1):
            if s not in sides and any(k.startswith('cap:') and k.endswith(':' + cids[s]) for k in fl):
                P.append(('memory', 'the %s table is resized by a call for the other side' % ('left', 'right')[s]))
        if what == 'try_reserve':
            if 'try_failed' in fl and not refused:
                P.append(('ret', 'reports success although a reservation failed'))
            if 'try_failed' not in fl and refused:
                P.append(('ret', 'reports failure although every reservation succeeded'))
        return P
    return h


def own_length(c, cid, val):
    """is val at most the number of elements of container cid (so that the table is not kept larger)?"""
    l = c.I.lin(val)
    if l is None or l[0] > 0:
        return False
    for comp in comp_units(c, c.E.flatten_entries(c.I, c.st, c.mv)):
        if sum(c.I.coef(e[3], l[1]) for e in comp['entries']) > sum(1 for e in comp['entries'] if e[0] == cid):
            return False
    return True


N = ('top', 'n')


def pointless(c, cid):
    """is the requested amount known to be zero, or to fit what is allocated already?"""
    for k, v in c.st.facts.items():
        if k[0] != 'cmp':
            if N in k and 0 in k and v:
                return True
            continue
        op, a, b = k[1:4]
        if op not in FLIP or N not in (a, b) or a == b:
            continue
        if not v:
            op = NEG[op]
        if b == N:
            op, a, b = FLIP[op], b, a
        if op in ('Lt', 'Le') and (b == 0 or op == 'Lt' and b == 1 or type(b) is tuple and (
                b in (('top', 'arith'), ('top', 'lost')) or b[0] == 'cap' and b[1] == cid)):
            return True
    return False


FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}


def amount_ok(c, val):
    """is val the requested amount, or something that is never less?"""
    if type(val) is tuple and val[0] == 'top' and val[1] != 'reduced':
        return True
    return any(k[0] == 'cmp' and k[1] == 'max' and N in k[2:4] and val == (k[2] if v else k[3])
               for k, v in c.st.facts.items())


def matches_resize(c, cid, what, key, val):
    w = key.split(':')[1]
    if what in ('shrink_to', 'shrink_to_fit'):
        if not w.startswith('shrink'):
            return False
        if what == 'shrink_to_fit':
            # shrinking to the current length or to zero
            return val == 0 or w == 'shrink_to_fit' or own_length(c, cid, val)
        return amount_ok(c, val)
    if what == 'reserve':
        return w == 'reserve' and amount_ok(c, val)
    return w == 'try_reserve' and amount_ok(c, val)


def h_cap(side):
    def h(c):
        P = unchanged(c)
        if c.kind != 'ret':
            return P
        cids = list(c.E.cidnames(c.mv))
        ok = [('cap', x) for x in (cids if side is None else [cids[side]])]
        r = c.rawret
        if type(r) is tuple and r[0] == 'cap' and r not in ok:
            P.append(('ret', 'reports the capacity of the other table'))
        elif type(r) is int:
            P.append(('ret', 'reports a constant capacity'))
        elif side is None and r in ok:
            # one number for both tables: removals can cost them different parts of their capacity
            other = ('cap', cids[1 - cids.index(r[1])])
            if not known_le(c.st, r, other):
                P.append(('ret', 'reports the capacity of one table, the other may hold fewer items'))
        return P
    return h


def known_le(st, a, b):
    for k, v in st.facts.items():
        if k[0] != 'cmp':
            continue
        op, x, y = k[1:4]
        if op in ('min', 'max') and {x, y} == {a, b}:
            # the first argument was taken iff v
            if (op == 'min') == ((x == a) == v):
                return True
            continue
        if op not in FLIP:
            continue
        if not v:
            op = NEG[op]
        if (op in ('Lt', 'Le') and (x, y) == (a, b)) or (op in ('Gt', 'Ge') and (x, y) == (b, a)):
            return True
    return False


def h_hasher(c):
    P = unchanged(c)
    if c.kind == 'ret' and c.ret != ('sb', builder_of(c.mv)):
        v = c.rawret
        if not (type(v) is tuple and v[0] == 'ref' and c.I.deref(c.st, v) == ('sb', builder_of(c.mv))):
            P.append(('ret', 'does not return the builder the map hashes with'))
    return P


def h_ctor(c):
    P = []
    if c.kind != 'ret':
        return [('unwind', 'the constructor can unwind')]
    if c.F:
        P.append(('relation', 'a fresh map is not empty'))
    sbs = [a for a in c.st.flags.get('args', ()) if type(a) is tuple and a[0] == 'sb']
    if sbs and builder_of(c.mv) != sbs[0][1]:
        P.append(('builder', 'the map does not use the builder it was given'))
    if c.base[3:].startswith('with_capacity'):
        fl = c.st.flags
        for s, cid in enumerate(c.E.cidnames(c.mv)):
            ks = [k for k in fl if k.split(':')[0::2] == ['cap', cid] and k.split(':')[1] in ('with_capacity', 'reserve')]
            if not any(amount_ok(c, fl[k]) for k in ks) and not pointless(c, cid):
                P.append(('memory', 'the %s table is not given the requested capacity' % ('left', 'right')[s]))
    return P


def h_clear(c):
    P = []
    if c.kind == 'ret' and c.F:
        P.append(('relation', 'elements remain after clear: %s' % show(c.E, c.F)))
    return P


def h_clone(c):
    P = []
    if c.kind != 'ret':
        return [('unwind', 'the call can unwind although no user code panicked')]
    U1, p1 = c.E.units(c.I, c.st, c.mv, c.pre)
    U2, p2 = c.E.units(c.I, c.st, c.rawret, c.pre)
    if not same(U1, c.O):
        P.append(('pure', 'cloning changes the original'))
    P += p2
    if rel(U2) != rel(c.O):
        P.append(('relation', 'the clone of %s is %s' % (show(c.E, c.O), show(c.E, U2))))
    t1 = {k[3] for u in U1 for k in u if k}
    for u in U2:
        for k in u:
            if k is not None and k[3] in t1:
                P.append(('dup', 'the clone shares an object with the original'))
    if set(c.E.cidnames(c.rawret)) & set(c.E.cidnames(c.mv)):
        P.append(('dup', 'the clone shares a table with the original'))
    if builder_of(c.rawret) != builder_of(c.mv):
        P.append(('builder', 'the clone hashes with another builder'))
    return P


def h_clone_from(c):
    """M becomes a clone of N"""
    P = []
    if c.kind != 'ret':
        return [('unwind', 'the call can unwind although no user code panicked')]
    nv = c.st.heap['N']
    O2 = c.E.orig(c.st, 'N')
    U2, p2 = c.E.units(c.I, c.st, nv, c.pre)
    P += p2
    if not same(U2, O2):
        P.append(('pure', 'cloning changes the original'))
    if c.F is not None and rel(c.F) != rel(O2):
        P.append(('relation', 'the clone of %s is %s' % (show(c.E, O2), show(c.E, c.F))))
    t2 = {k[3] for u in U2 for k in u if k}
    if any(k is not None and k[3] in t2 for u in c.F or () for k in u):
        P.append(('dup', 'the clone shares an object with the original'))
    if set(c.E.cidnames(nv)) & set(c.E.cidnames(c.mv)):
        P.append(('dup', 'the clone shares a table with the original'))
    if builder_of(nv) != builder_of(c.mv):
        P.append(('builder', 'the clone hashes with another builder'))
    return P


# ---- iterators ------------------------------------------------------------------------------
def i_pairs(c):
    return [u for u in c.O if u[0] is not None and u[1] is not None]


def exp_iter(c):
    """the multiset an iterator of this kind has to yield"""
    b = c.base
    pre = c.pre
    kind = b[3:]
    if kind in ('iter', 'drain', 'drain_filter'):
        if pre == 'cm':
            return [u for u in c.O]
        if pre == 'pm':
            return [op(u) for u in c.O]
        return [(('Some', u[0]) if u[0] else None, u[1]) for u in c.O]
    if kind == 'iter_left':
        return per_elem(c.O, 0)
    if kind == 'iter_right':
        return per_elem(c.O, 1)
    if kind == 'iter_paired':
        return i_pairs(c)
    if kind == 'iter_unpaired':
        if pre == 'pm':
            return [op(u) for u in c.O if u[0] is None or u[1] is None]
        return [u[1] for u in c.O if u[0] is None]
    raise Undecided('iterator ' + b)


def what_unit(c, v):
    """class of a yielded value, for stable messages"""
    if type(v) is tuple and v and v[0] in ('SomeLeft', 'SomeRight', 'SomeBoth', 'Neither'):
        return v[0]
    ks = keys_in(v)
    return 'a ' + '~'.join('left' if k[1] == 'L' else 'right' for k in ks) + ' item' if ks else 'an item'


def cmp_yield(c, exp, got, what, sub=False):
    P = []
    a, b = Counter(exp), Counter(got)
    for v in sorted(set((b - a)), key=rkey):
        if v in a:
            P.append(('yield', '%s: %s is yielded twice' % (what, what_unit(c, v))))
        elif ('DANGLING',) in flatten(v):
            P.append(('yield', '%s: a removed element is yielded' % what))
        else:
            P.append(('yield', '%s: %s that is not in the map is yielded' % (what, what_unit(c, v))))
    if not sub:
        for v in sorted(set((a - b)), key=rkey):
            P.append(('yield', '%s: %s is not yielded' % (what, what_unit(c, v))))
    return P


def flatten(v, acc=None):
    acc = [] if acc is None else acc
    acc.append(v)
    if type(v) is tuple:
        for x in v:
            flatten(x, acc)
    return acc


def iter_variants(c, exp, rets=None):
    P = []
    y, a, b = c.ys['y'], c.ys['a'], c.ys['b']
    v = c.var
    if c.kind != 'ret':
        return [('unwind', 'iterating can unwind although no user code panicked')]
    if v in ('', 'fold', 'nth'):
        if rets is not None and c.ret not in rets:
            P.append(('ret', 'returns %s, specified is %s' % (sig(c, c.ret), sig(c, rets[0]))))
        P += cmp_yield(c, exp, y, 'iteration')
    elif v == 'fused':
        P += cmp_yield(c, exp, y, 'iteration')
        if a:
            P.append(('fused', 'yields again after returning None'))
    elif v == 'clone':
        P += cmp_yield(c, exp, y + a, 'iteration')
        for z in sorted(set((Counter(a) - Counter(b))), key=rkey):
            P.append(('clone', 'a clone taken mid-way misses %s' % what_unit(c, z)))
        for z in sorted(set((Counter(b) - Counter(a))), key=rkey):
            P.append(('clone', 'a clone taken mid-way yields %s the original does not' % what_unit(c, z)))
    elif v == 'debug':
        P += shown_units(c, b, [], a)
    elif v == 'partial':
        P += cmp_yield(c, exp, y, 'partial iteration', sub=True)
    elif v in ('hint', 'len', 'count'):
        P += cmp_yield(c, exp, y + a, 'iteration')
        P += hint(c, a, exact=v != 'hint')
    return P


def hint(c, a, exact):
    """compare the claimed bounds with what is yielded afterwards, element by element"""
    P = []
    if 'hinted' not in c.events:
        return P
    groups_ = {}
    order = comp_of_keys(c)

    def comp(k):
        return order.get(k, ('none', k))
    for tag in ('lo', 'hi'):
        for k, n in c.cnt[tag]:
            if k is None:
                g = ('const',)
            elif type(k) is tuple and len(k) == 4 and k[0] == 'K':
                g = comp(k)
            elif type(k) is tuple and len(k) == 2 and k[0] == 'cls':
                g = next((order[x] for x in sorted(order, key=rkey) if x[2] == k[1]), ('none', k))
            else:
                raise Undecided('size claim counts an element without a key')
            groups_.setdefault(g, {'lo': 0, 'hi': 0, 'n': 0})[tag] += n
    for v in a:
        ks = keys_in(v)
        if not ks:
            continue
        groups_.setdefault(comp(ks[0]), {'lo': 0, 'hi': 0, 'n': 0})['n'] += 1
    hashi = 'hashi' in c.events
    for g, d in sorted(groups_.items(), key=lambda x: rkey(x[0])):
        if g == ('const',):
            if d['lo'] > 0:
                P.append(('hint', 'the lower bound is too large by a constant'))
            if exact and (d['lo'] != 0 or d['hi'] != 0):
                P.append(('hint', 'the length is off by a constant'))
            if d['hi'] < 0:
                P.append(('hint', 'the upper bound is too small by a constant'))
            continue
        if exact:
            if d['lo'] != d['n']:
                P.append(('hint', 'the claimed length differs from what is still yielded'))
        else:
            if d['lo'] > d['n']:
                P.append(('hint', 'the lower bound of size_hint exceeds what is still yielded'))
            if hashi and d['hi'] < d['n']:
                P.append(('hint', 'the upper bound of size_hint is below what is still yielded'))
    return P


def comp_of_keys(c):
    """key -> component id (an original group/pair)"""
    m = {}
    par = {}

    def fnd(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for u in c.O:
        ks = [k for k in u if k is not None]
        for k in ks:
            par[fnd(ks[0])] = fnd(k)
    for u in c.O:
        for k in u:
            if k is not None:
                m[k] = fnd(k)
    return m


def shown_units(c, exp, y, a):
    """what is printed is what is (still) there"""
    P = []
    want, got = Counter(exp) - Counter(y), Counter(a)
    for z in sorted(got - want, key=rkey):
        P.append(('debug', '%s is printed %s' % (what_unit(c, z), 'twice' if z in want else 'that is not there')))
    if 'fmterr' not in c.events:
        for z in sorted(want - got, key=rkey):
            P.append(('debug', '%s is not printed' % what_unit(c, z)))
        if c.ret is not None and type(c.ret) is tuple and c.ret[:1] == ('Err',):
            P.append(('debug', 'an error is reported although everything was printed'))
    return P


def h_debug(c):
    if c.kind != 'ret':
        return [('unwind', 'formatting can unwind although no user code panicked')]
    b, c.base = c.base, c.pre + '_iter'
    exp = exp_iter(c)
    c.base = b
    return unchanged(c) + shown_units(c, exp, [], c.ys['a'])


def h_iter(c):
    P = unchanged(c)
    return P + iter_variants(c, exp_iter(c))


def h_leak(c):
    """a drain or drain_filter that is leaked somewhere on the way"""
    P = []
    if c.kind != 'ret':
        return P
    got = [(x[1], x[2]) if x[0] == 'SomeBoth' else (x[1], None) if x[0] == 'SomeLeft' else (None, x[1])
           if x[0] == 'SomeRight' else x for x in c.ys['y']] if c.pre == 'pm' else list(c.ys['y'])
    O = set(c.O)
    for u in got:
        if u not in O:
            P.append(('leak', '%s is yielded that was not in the map' % kindof(u)))
        elif got.count(u) > 1:
            P.append(('leak', '%s is yielded twice' % kindof(u)))
    for u in c.F:
        if u not in O:
            P.append(('leak', '%s is left in the map that was not there' % kindof(u)))
        elif u in got:
            P.append(('leak', '%s that was handed out is still in the map' % kindof(u)))
    return P


def h_drain(c):
    if c.var == 'leak':
        return h_leak(c)
    exp = exp_iter(c)
    P = iter_variants(c, exp)
    if c.kind == 'ret' and c.F:
        P.append(('drain', 'elements remain in the map after the drain is gone: %s' % show(c.E, c.F)))
    return P


# ---- predicates -------------------------------------------------------------------------------
def pred_units(c):
    """{unit: [answers]} and units where the predicate panicked"""
    m = {}
    bad = []

    def unit_of(args):
        x = args
        if len(args) == 1:
            v = args[0]
            if type(v) is tuple and v and v[0] in ('SomeLeft', 'SomeRight', 'SomeBoth', 'Neither'):
                if v[0] == 'SomeBoth':
                    return (v[1], v[2])
                if v[0] == 'SomeLeft':
                    return (v[1], None)
                if v[0] == 'SomeRight':
                    return (None, v[1])
                return (None, None)
            return (None, v)
        return (args[0], args[1])
    for a, ans in c.preds:
        m.setdefault(unit_of(a), []).append(ans)
    for a in c.predunw:
        bad.append(unit_of(a))
    return m, bad


def scope_units(c):
    b = c.base
    if b.endswith('_paired') and not b.endswith('_unpaired'):
        return [u for u in c.O if u[0] is not None and u[1] is not None]
    if b.endswith('_unpaired'):
        return [u for u in c.O if u[0] is None or u[1] is None]
    return list(c.O)


def h_pred(c, drop_on):
    """visit each unit once; drop exactly those whose answer is drop_on"""
    P = []
    m, bad = pred_units(c)
    scope = set(scope_units(c))
    have = set(c.F)
    rights = {u[1] for u in c.F}
    for u, ans in m.items():
        if u not in set(c.O):
            P.append(('pred', 'the predicate is given %s that is not in the map' % kindof(u)))
        elif u not in scope:
            P.append(('pred', 'the predicate is given %s' % kindof(u)))
        elif len(ans) > 1:
            P.append(('pred', 'the predicate is called twice for %s' % kindof(u)))
    for u in bad:
        if u not in set(c.O):
            P.append(('pred', 'the predicate is given %s that is not in the map' % kindof(u)))

    def there(u):
        if c.pre == 'gm' and u[0] is None:
            return u[1] in rights
        return u in have
    exp = []
    wrong_gone, wrong_kept, right_gone, right_kept = [], [], [], []
    for u in c.O:
        ans = m.get(u)
        if u in bad:
            if not there(u):
                P.append(('panicstate', '%s whose predicate panicked is lost' % kindof(u)))
            continue
        if ans is None:
            if u in scope and c.kind == 'ret':
                P.append(('pred', 'the predicate is never called for %s' % kindof(u)))
            if not there(u):
                P.append(('retained', '%s whose predicate was not called is removed' % kindof(u)))
            continue
        if ans[-1] == drop_on:
            exp.append(u)
            (wrong_kept if there(u) else right_gone).append(u)
        else:
            (right_kept if there(u) else wrong_gone).append(u)
    # what is new
    orights = {u[1] for u in c.O}
    for u in c.F:
        if u in c.O:
            continue
        if c.pre == 'gm' and u[0] is None and u[1] in orights:
            continue
        P.append(('retained', 'a pairing appears that was not there: %s' % kindof(u)))
    if c.pre == 'gm':
        for u in c.O:
            if u[0] is not None and u[1] not in rights:
                P.append(('retained', 'the right item of a group is removed'))
    if (wrong_gone or wrong_kept) and not right_gone and not right_kept:
        if wrong_gone or c.kind == 'ret':
            P.append(('inverted', 'elements are dropped when the predicate returns %s' % (not drop_on)))
    else:
        for u in wrong_gone:
            P.append(('retained', '%s whose predicate returned %s is removed' % (kindof(u), not drop_on)))
        for u in wrong_kept:
            # unwinding may leave doomed elements in place
            if c.kind == 'ret':
                P.append(('retained', '%s whose predicate returned %s remains' % (kindof(u), drop_on)))
    return P, exp, m


def kindof(u):
    if u[0] is not None and u[1] is not None:
        return 'a paired unit'
    if u[0] is not None:
        return 'an unpaired left item'
    if u[1] is not None:
        return 'an unpaired right item'
    return 'an empty unit'


def h_retain(c):
    P, _, _ = h_pred(c, False)
    return P


def h_drain_filter(c):
    if c.var == 'leak':
        return h_leak(c)
    P, exp, m = h_pred(c, True)
    if c.kind == 'ret':
        want = [u for u in exp]
        if c.pre == 'pm':
            want = [op(u) for u in want]
        if c.var == 'partial':
            P += cmp_yield(c, want, c.ys['y'], 'drain_filter', sub=True)
        else:
            got = c.ys['y'] + c.ys['a']
            if c.var == 'fused':
                got = c.ys['y']
                if c.ys['a']:
                    P.append(('fused', 'yields again after returning None'))
            P += cmp_yield(c, want, got, 'drain_filter')
            if c.var == 'hint':
                P += hint(c, c.ys['a'], False)
    return P


# ---- extend / from_iter / serde ------------------------------------------------------------------
def item_step(name, item):
    """(reference op, args) applying one item"""
    if item and item[0] == 'SomeLeft':
        return pm_insert_one(0), (item[1],)
    if item and item[0] == 'SomeRight':
        return pm_insert_one(1), (item[1],)
    if item and item[0] == 'SomeBoth':
        return pm_insert, (item[1], item[2])
    if item and item[0] == 'Neither':
        return None, ()
    if name.endswith('_opt'):
        if item[0] is None:
            return 'opt_right', (item[1],)
        return gm_insert, (item[0][1], item[1])
    return EXTENDS[name], tuple(item)


def torn_after(base):
    """has the sequence so far inserted a pair into a GroupMap that was paired already (known finding KF1)?"""
    if not base.startswith('gm_'):
        return None

    def f(E, st):
        O = E.orig(st, 'M')
        for _, it in sorted(((e[1], E.dec(st, e[2])) for e in st.ev if e[0] == 'item'), key=lambda x: x[0]):
            f, a = item_step(base, it)
            if f == 'opt_right':
                O, _ = gm_insert_right(O, a[0])
            else:
                if regroup_known(O, *a):
                    return True
                O, _ = f(O, *a)
            O = list(O)
            if O and type(O[0]) is list:
                O = O[0]
        return False
    return f


def h_extend(c):
    P = []
    if c.kind != 'ret':
        return [('unwind', 'the call can unwind although no user code panicked')]
    if c.base == 'cm_deserialize':
        failed = type(c.ret) is tuple and c.ret and c.ret[0] in ('Err',) or (
            type(c.ret) is tuple and c.ret and c.ret[-1] == ('opq', 'err'))
        if c.st.flags.get('deerr'):
            if not failed:
                P.append(('ret', 'an error of the input is swallowed'))
            return P
        if failed:
            return P + [('ret', 'reports an error for valid input')]
        mv = c.rawret[4][0]
        c.mv = mv
        c.F, pr = c.E.units(c.I, c.st, mv, c.pre)
        P += pr
    cur = [list(c.O)]
    for it in c.items:
        f, a = item_step(c.base, it)
        nxt = []
        for O in cur:
            if f is None:
                nxt.append(O)
            elif f == 'opt_right':
                g = groups(O)
                rr = g_right(g, a[0])
                # a lone right item: inserted as by insert_right
                F, _ = gm_insert_right(O, a[0])
                nxt.append(F)
            else:
                if f is gm_insert and regroup_known(O, *a):
                    c.known_reinsert = True
                    return [('skip', 'reinsert')]
                F, _ = f(O, *a)
                nxt.append(F)
        cur = nxt
    if not any(same(c.F, e) for e in cur):
        lvl = any(rel(c.F) == rel(e) for e in cur)
        P.append(('relation', 'differs from inserting the items one after the other: ' +
                  ('the wrong object of two equal ones is kept' if lvl else describe_diff(c, cur[0]))))
    return P


def regroup_known(O, l, r):
    return q_paired(O, l, r)


def h_serialize(c):
    P = unchanged(c)
    if c.kind != 'ret':
        return P + [('unwind', 'the call can unwind although no user code panicked')]
    failed = 'Err' == (c.ret[0] if type(c.ret) is tuple and c.ret else None) or (
        type(c.ret) is tuple and c.ret and c.ret[-1] == ('opq', 'err'))
    if 'sererr' in c.events:
        if not failed:
            P.append(('ret', 'an error of the output is swallowed'))
        return P
    if failed:
        P.append(('ret', 'reports an error although the output accepted everything'))
    if 'serbegin' not in c.events or 'serend' not in c.events:
        P.append(('event', 'the sequence is not begun and ended'))
    P += cmp_yield(c, [u for u in c.O], c.ys['a'], 'serialization')
    P += hint(c, c.ys['a'], 'hashi' in c.events)
    return P


# ---- OptionalPair -----------------------------------------------------------------------------
def parts(v):
    """(left, right) content of an OptionalPair"""
    return {'Neither': lambda: (None, None), 'SomeLeft': lambda: (v[1], None),
            'SomeRight': lambda: (None, v[1]), 'SomeBoth': lambda: (v[1], v[2])}[v[0]]()


def unpart(l, r):
    return op((l, r)) if l is not None or r is not None else ('Neither',)


def opt(x):
    return None if x is None else ('Some', x)


def unopt(x):
    return None if x is None else x[1]


def h_optional(c):
    if c.kind != 'ret':
        return [('unwind', 'the call can unwind')]
    b = c.base[3:]
    a = c.args[0]
    r = c.ret
    exp = None
    if b == 'debug':
        return shown_units(c, [k for k in parts(a) if k is not None], [], c.ys['a'])
    if b == 'is_none':
        exp = a[0] == 'Neither'
    elif b == 'is_some':
        exp = a[0] != 'Neither'
    elif b == 'get_left':
        exp = opt(parts(a)[0])
    elif b == 'get_right':
        exp = opt(parts(a)[1])
    elif b == 'from_tuple':
        exp = unpart(unopt(a[0]), unopt(a[1]))
    elif b == 'from_opt':
        exp = ('Neither',) if a is None else unpart(unopt(a[1][0]), unopt(a[1][1]))
    elif b == 'to_tuple':
        l, x = parts(a)
        exp = (opt(l), opt(x))
    elif b == 'to_opt':
        l, x = parts(a)
        exp = None if a[0] == 'Neither' else ('Some', (opt(l), opt(x)))
    elif b in ('map', 'map_left', 'map_right', 'convert', 'cloned', 'clone'):
        l, x = parts(a)
        if b in ('map', 'map_left'):
            l = None if l is None else (l, ())
        if b in ('map', 'map_right'):
            x = None if x is None else (x, ())
        if b == 'convert':
            # both sides become Options
            exp = ('any',)
            ks = keys_in(r)
            want = [k for k in (l, x) if k is not None]
            if Counter(ks) != Counter(want):
                return [('ret', 'converting %s loses or duplicates content' % a[0])]
            return []
        if b in ('cloned', 'clone'):
            rl, rx = parts(r) if type(r) is tuple and r and r[0] in ('Neither', 'SomeLeft', 'SomeRight', 'SomeBoth') else (0, 0)
            if cls(rl) != cls(l) or cls(rx) != cls(x):
                return [('ret', 'cloning %s yields a different value' % a[0])]
            return []
        exp = unpart(l, x)
    elif b == 'eq':
        p, q_ = c.args[0], c.args[1]
        exp = p[0] == q_[0] and [cls(k) for k in keys_in(p)] == [cls(k) for k in keys_in(q_)]
    else:
        raise Undecided('optional ' + b)
    if r != exp:
        return [('ret', 'for %s the result is %s, specified is %s' % (sig(c, a) if type(a) is tuple else a, sig(c, r), sig(c, exp)))]
    return []


# ---- equality of maps ---------------------------------------------------------------------------
def is_equality(b):
    return b[:2] in ('cm', 'pm', 'gm') and b[2:] in ('_eq', '_ne', '_eq_self')


def judge_eq(E, I, name, kind, ret, st):
    """is the answer right for every pair of maps this outcome stands for?"""
    from engine import components, allkeys
    pre = name[:2]
    if kind != 'ret':
        return [('unwind', 'the call can unwind although no user code panicked')]
    if type(ret) is not bool:
        raise Undecided('the answer is not a constant')
    ans = ret if not name.endswith('_ne') else not ret
    if name.endswith('_eq_self'):
        return [] if ans else [('ret', 'a map is not equal to itself')]
    mv, nv = st.heap['M'], st.heap['N']

    keep = set(E.cidnames(mv)) | set(E.cidnames(nv))

    def atoms(U):
        r = Counter()
        for l, k in U:
            if k:
                r[('r', cls(k))] = 1
            r[('p', cls(l), cls(k)) if l and k else ('l', cls(l)) if l else ('r', cls(k))] += 1 if l else 0
        return +r

    def decode(s):
        UM, p1 = E.units(I, s, mv, pre)
        UN, p2 = E.units(I, s, nv, pre)
        if p1 or p2:
            raise Undecided('comparison leaves an undecodable map: ' + str((p1 + p2)[0])[:150])
        return UM, UN, E.flatten_entries(I, s, mv) + E.flatten_entries(I, s, nv)

    def comp_info(s):
        UM, UN, ents = decode(s)
        par = {}

        def fnd(x):
            while par.setdefault(x, x) != x:
                x = par[x]
            return x
        for u in UM + UN:
            ks = [cls(k) for k in u if k]
            for k in ks:
                par[fnd(k)] = fnd(ks[0])
        groups_ = {}
        for i, U in enumerate((UM, UN)):
            for u in U:
                g = fnd(next(cls(k) for k in u if k))
                groups_.setdefault(g, ([], []))[i].append(u)
        out = []
        for g, (a, b) in groups_.items():
            cs = {cls(k) for u in a + b for k in u if k}
            es = [e for e in ents if {k[2] for k in allkeys([e])} & cs]
            out.append((atoms(a) == atoms(b), a, b, es))
        return out

    def net(es, d):
        return sum(I.coef(e[3], d) for e in es)
    facts = [(k, v) for k, v in st.facts.items() if k[0] == 'lin']
    # components: materialised ones occur exactly once, summaries any number of times; members of materialised
    # groups that are still summarised are optional additions to their group
    s0 = st.copy()
    s0.om = frozenset()
    fixed = comp_info(s0) if st.ent else []
    hub_syms = set()
    for e in st.ent.values():
        hub_syms |= syms(e)
    hub_syms -= keep
    need = [e[1] for e in st.ev if e[0] == 'ne' and not any(x[0] == e[1] for x in st.ent.values())]
    loose = []
    for sh in sorted(st.om, key=rkey):
        s1 = st.copy()
        s1.om = frozenset([sh])
        s1.ev = ()
        if free_syms(sh) & hub_syms:
            E.instantiate_all(I, s1)
            UM0, UN0, es0 = decode(s0)
            UM, UN, es1 = decode(s1)
            dM, dN = atoms(UM) - atoms(UM0), atoms(UN) - atoms(UN0)
            new = [e for e in es1 if e not in es0]
            loose.append((dM == dN, [u for u in UM if u not in UM0], [u for u in UN if u not in UN0], new,
                          frozenset(c for c in need if any(e[0] == c for e in new))))
        else:
            s1.ent = {}
            E.instantiate_all(I, s1)
            loose += [x + (frozenset(),) for x in comp_info(s1)]
    forms = [(k[1], dict(k[2]), v) for k, v in facts]

    def vec(es):
        return tuple(net(es, d) for _, d, _ in forms)
    base = [c for c, _, _ in forms]
    for ok, a, b, es in fixed:
        base = [x + y for x, y in zip(base, vec(es))]

    def feasible(total):
        return all((t == 0) == v for t, (_, _, v) in zip(total, forms))
    lv = [(ok, a, b, vec(es), pv) for ok, a, b, es, pv in loose]
    need = frozenset(need)

    def search(pool, total, have, depth):
        if feasible(total) and need <= have:
            return True
        if depth == 0:
            return False
        return any(search(pool, [t + x for t, x in zip(total, v)], have | pv, depth - 1)
                   for v, pv in pool if any(v) or pv - have)
    P = []
    none = frozenset()
    depth = 3 + len(need)
    if ans:
        bad = [(a, b) for ok, a, b, es in fixed if not ok]
        pool = sorted({(v, pv) for _, _, _, v, pv in lv}, key=lambda x: (x[0], sorted(x[1])))
        if bad:
            if search(pool, base, none, depth):
                P += [('ret', 'reports maps as equal although ' + mismatch(E, a, b)) for a, b in bad]
        for ok, a, b, v, pv in lv:
            if not ok and search(pool, [t + x for t, x in zip(base, v)], pv, depth):
                P.append(('ret', 'reports maps as equal although ' + mismatch(E, a, b)))
    else:
        if all(ok for ok, _, _, _ in fixed):
            pool = sorted({(v, pv) for ok, _, _, v, pv in lv if ok}, key=lambda x: (x[0], sorted(x[1])))
            if search(pool, base, none, depth - 1):
                P.append(('ret', 'reports equal maps as different'))
    return list(dict.fromkeys(P))


def mismatch(E, a, b):
    return 'one holds %s where the other holds %s' % (show(E, a), show2(E, a, b))


def show2(E, a, b):
    # share the names of the first relation
    both = show(E, a + b)
    nm = {}

    def n(k):
        if k is None:
            return '-'
        key = (k[1], k[2])
        if key not in nm:
            nm[key] = '%s%d' % (k[1].lower(), 1 + sum(1 for x in nm if x[0] == k[1]))
        return nm[key]
    for u in a:
        n(u[0]), n(u[1])
    return '{' + ', '.join(sorted('%s~%s' % (n(u[0]), n(u[1])) for u in b)) + '}'


HANDLERS = {}
for _n, _f in OPS.items():
    HANDLERS[_n] = h_op(_f)
for _n, _f in QUERIES.items():
    HANDLERS[_n] = h_query(_f)
for _n, _s in LENS.items():
    HANDLERS[_n] = h_len(_s)
for _n, (_w, _s) in RESIZE.items():
    HANDLERS[_n] = h_resize(_w, _s)
for _n, _s in CAPS.items():
    HANDLERS[_n] = h_cap(_s)
for _p in ('cm', 'pm', 'gm'):
    for _c in CTORS:
        HANDLERS['%s_%s' % (_p, _c)] = h_ctor
    HANDLERS[_p + '_hasher'] = h_hasher
    HANDLERS[_p + '_is_empty'] = h_is_empty
    HANDLERS[_p + '_clear'] = h_clear
    HANDLERS[_p + '_clone'] = h_clone
    HANDLERS[_p + '_clone_from'] = h_clone_from
    for _i in ('iter', 'iter_left', 'iter_right', 'iter_paired', 'iter_unpaired'):
        HANDLERS['%s_%s' % (_p, _i)] = h_iter
    HANDLERS[_p + '_drain'] = h_drain
    HANDLERS[_p + '_drain_filter'] = h_drain_filter
    for _i in ('retain', 'retain_paired', 'retain_unpaired'):
        HANDLERS['%s_%s' % (_p, _i)] = h_retain
for _p in ('cm', 'pm', 'gm'):
    HANDLERS[_p + '_debug'] = h_debug
for _n in EXTENDS:
    HANDLERS[_n] = h_extend
HANDLERS['cm_serialize'] = h_serialize
for _b in ('is_none', 'is_some', 'get_left', 'get_right', 'from_tuple', 'from_opt', 'to_tuple', 'to_opt', 'map',
           'map_left', 'map_right', 'convert', 'cloned', 'clone', 'eq', 'debug'):
    HANDLERS['op_' + _b] = h_optional
