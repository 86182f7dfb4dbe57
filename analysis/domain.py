"""Abstract domain of the shape analysis.

Values are immutable tuples; *symbols* are strings starting with '%', the second character is the
symbol's sort:
   L R   equivalence class (under Eq) of a left / right key          t   identity token of one object
   i j p q ...  item id handed out by a map's counter                 c   container (table, set, vec)
   k   counter base   b  hash builder   I  iterator   n  length snapshot   e  heap entry
   h   hub (none)   G  name of an element that a stored bucket or reference points at
A heap *entry* is one element of a container:  (container, value, insertion-hash, marks).
A *shape* is the canonical form of one connected group of entries/events; the state keeps a set of
shapes, each standing for any number (>= 0) of concrete groups of that form (summary, "omega").
"""
import re

VALS = ('K', 'H', 'id', 'ctr')


def subst(v, m):
    t = type(v)
    if t is str:
        if v and v[0] == '%':
            return m.get(v, v)
        return v
    if t is tuple:
        out = None
        for i, x in enumerate(v):
            y = subst(x, m)
            if y is not x:
                if out is None:
                    out = list(v)
                out[i] = y
        return v if out is None else tuple(out)
    if t is frozenset:
        return frozenset(subst(x, m) for x in v)
    return v


def syms(v, acc=None):
    if acc is None:
        acc = set()
    t = type(v)
    if t is str:
        if v and v[0] == '%':
            acc.add(v)
    elif t is tuple or t is frozenset or t is list:
        for x in v:
            syms(x, acc)
    elif t is dict:
        for k, x in v.items():
            syms(k, acc)
            syms(x, acc)
    return acc


def symlist(v, acc):
    """symbols in order of first occurrence"""
    t = type(v)
    if t is str:
        if v and v[0] == '%' and v not in acc:
            acc[v] = None
    elif t is tuple or t is list:
        for x in v:
            symlist(x, acc)
    elif t is frozenset:
        for x in sorted(v, key=repr):
            symlist(x, acc)
    return acc


def fmap(v, f):
    t = type(v)
    if t is str:
        return f(v) if v and v[0] == '%' else v
    if t is tuple:
        return tuple(fmap(x, f) for x in v)
    if t is frozenset:
        return frozenset(fmap(x, f) for x in v)
    return v


_lv = re.compile(r'\$(-?\d+)\.')


def shift(v, d):
    def f(s):
        mm = _lv.search(s)
        if not mm:
            return s
        return s[:mm.start()] + '$%d.' % (int(mm.group(1)) + d) + s[mm.end():]
    return fmap(v, f)


def bound_of(v, level=0):
    tag = '$%d.' % level
    return {s for s in syms(v) if tag in s}


GLOBAL_SORTS = set('kbIn')


def rkey(v):
    """repr with frozensets in a deterministic order"""
    t = type(v)
    if t is tuple:
        return '(' + ','.join(rkey(x) for x in v) + ')'
    if t is frozenset:
        return '{' + ','.join(sorted(rkey(x) for x in v)) + '}'
    return repr(v)


def canon_shape(entries, events, subs, bound):
    """entries: (cid, value, thash, marks)*, events, subs: shapes already one level deeper.
    bound: symbols that become bound at level 0."""
    def mask(v):
        return rkey(fmap(v, lambda s: s[:2] + '$' if (s in bound) else s))
    es = sorted(entries, key=mask)
    vs = sorted(events, key=mask)
    order = {}
    symlist(tuple(es), order)
    symlist(tuple(vs), order)
    for s in subs:
        symlist(s, order)
    m = {}
    n = {}
    for s in order:
        if s in bound:
            k = s[1]
            m[s] = '%%%s$0.%d' % (k, n.get(k, 0))
            n[k] = n.get(k, 0) + 1
    es = tuple(subst(e, m) for e in es)
    vs = tuple(subst(e, m) for e in vs)
    ss = []
    for s in subs:
        ss.append(recanon(subst(s, m), 1))
    ss = tuple(sorted(set(ss), key=rkey))
    return ('S', es, vs, ss)


def recanon(shape, level=0):
    """re-sort a shape after free symbols were renamed"""
    _, es, vs, ss = shape
    if level:
        shape = shift(shape, -level)
        _, es, vs, ss = shape
    b = bound_of((es, vs, ss), 0)
    # use a temporary name so that old numbering does not influence the order
    r = canon_shape(es, vs, ss, b)
    return shift(r, level) if level else r


def free_syms(shape):
    return {s for s in syms(shape) if '$' not in s}
