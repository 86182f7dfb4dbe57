"""Abstract semantics of the functions whose bodies are not interpreted: hashbrown's raw tables and
hash sets, std's Vec, and the opaque user operations of the probe crate (hashing, equality,
predicates, iterators, data formats)."""
from domain import *
import absint
from absint import A, tup, UNIT, Undecided, Infeasible, State, setcids, has_set, conn

TABLE = {}
PREFIX = []
PANICS = ['core::panicking::', 'std::rt::panic_fmt', 'std::rt::begin_panic', 'std::option::unwrap_failed',
          'std::option::expect_failed', 'std::result::unwrap_failed', 'core::option::unwrap_failed',
          'core::option::expect_failed', 'core::result::unwrap_failed', 'std::rt::panic', 'std::panicking::']

OPT = 0


def none():
    return ('A', 'adt', OPT, 0, ())


def some(v):
    return ('A', 'adt', OPT, 1, (v,))


def ordering(i):
    return ('A', 'adt', ORD, i, ())


ORD = None


def setup(prog):
    global OPT, ORD
    ORD = None
    for i, t in enumerate(prog.ty):
        if t['kind'] == 'adt' and t['path'] in ('std::cmp::Ordering', 'core::cmp::Ordering') and t['variants']:
            ORD = i
    for i, t in enumerate(prog.ty):
        if t['kind'] == 'adt' and t['path'] in ('std::option::Option', 'core::option::Option') and t['variants']:
            OPT = i
            return


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def ret(v, st):
    return [('ret', v, st)]


def cid_of(I, st, r, kinds=('tbl',)):
    v = I.deref(st, r) if r[0] == 'ref' else r
    if type(v) is not tuple or v[0] not in kinds:
        raise Undecided('expected container %s, got %r' % (kinds, v if v is None else v[0]))
    return v[1]


def add_event(st, ev):
    if absint.Interp.wild:
        return
    n = 0
    for e in st.ev:
        if e == ev:
            n += 1
    if n >= 2 or (n == 1 and not conn(syms(ev))):
        return
    st.ev = st.ev + (ev,)


# ------------------------------------------------------------------------------- marks
def map_entries(st, f):
    """apply f to every entry (materialised and in summaries); f returns the new entry"""
    for u, e in list(st.ent.items()):
        e2 = f(e)
        if e2 is not e:
            st.ent[u] = e2

    def rec(sh):
        return ('S', tuple(f(e) for e in sh[1]), sh[2], tuple(rec(s) for s in sh[3]))
    new = set()
    for s in st.om:
        s2 = rec(s)
        new.add(s if s2 == s else recanon(s2))
    st.om = frozenset(new)


def shape_cids(v):
    return v


def mark_cid(st, cid, m):
    map_entries(st, lambda e: (e[0], e[1], e[2], e[3] | {m}) if e[0] == cid else e)


def mark_copy(st, old, m):
    map_entries(st, lambda e: (e[0], e[1], e[2], e[3] | {m}) if old in e[3] else e)


def live_mark(I, st, cid, sort='I'):
    m = I.fresh(sort)
    # nested set ids may be bound inside shapes only when their owner is summarised; a container we
    # are handed is always reachable from a materialised value, so cid is a free symbol here
    mark_cid(st, cid, m)
    return m


def has_materialised(st, cid, mark=None):
    return [u for u, e in st.ent.items() if e[0] == cid and (mark is None or mark in e[3])]


def pick(I, st, pred):
    """every way of choosing one entry satisfying pred: [(uid, state)]"""
    outs = []
    for path in I.positions(st, pred):
        s2 = st.copy()
        uid = I.materialise(s2, path)
        outs.append((uid, s2))
    for u, e in list(st.ent.items()):
        if pred(e):
            outs.append((u, st.copy()))
    return outs


def empty_of(I, st, pred, summary_only=False):
    """the state restricted to 'no entry satisfies pred' or None"""
    for e in st.ent.values():
        if not summary_only and pred(e):
            return None

    def rec(sh):
        for e in sh[1]:
            if pred(e):
                return None
        subs = tuple(x for x in (rec(s) for s in sh[3]) if x is not None)
        r = ('S', sh[1], sh[2], subs)
        return r if absint.ne_ok(r) else None
    new = set()
    for s in st.om:
        s2 = rec(s)
        if s2 is not None:
            new.add(s2 if s2 == s else recanon(s2))
    st.om = frozenset(new)
    return st if absint.ne_state_ok(st) else None


def poison_check(st, uid):
    e = st.ent[uid]
    p = {m for m in e[3] if m[1] == 'I'}
    if p:
        st.flags['poison'] = frozenset(st.flags.get('poison', frozenset()) | p)


LOST = ('top', 'lost')


def uncount(st, marks, unknown=False):
    """an element leaves its container: length snapshots taken earlier still include it"""
    ms = [m for m in marks if m[1] == 'n']
    if not ms:
        return
    lost = set()

    def f(v):
        if type(v) is not tuple:
            return v
        if len(v) == 3 and v[0] == 'lin' and type(v[2]) is tuple:
            d = dict(v[2])
            x = sum(d.get(m, 0) for m in ms)
            if not x:
                return v
            if unknown or abs(v[1] + x) > 3:
                lost.add(v)
                return LOST
            return ('lin', v[1] + x, v[2])
        out = None
        for i, x in enumerate(v):
            y = f(x)
            if y is not x:
                if out is None:
                    out = list(v)
                out[i] = y
        return v if out is None else tuple(out)
    st.frames = [[f(v) for v in fr] for fr in st.frames]
    st.heap = {k: f(v) for k, v in st.heap.items()}
    st.ent = {u: (e[0], f(e[1]), e[2], e[3]) for u, e in st.ent.items()}
    if any(k[0] in ('lin', 'cmp') for k in st.facts):
        facts = {}
        drop = set()
        for k, val in st.facts.items():
            if k[0] in ('lin', 'cmp'):
                k2 = f(k)
                if k2 != k:
                    drop.add(k)
                    if k2[0] == 'top' or LOST in k2:
                        continue
                    if k2[0] == 'lin' and not val and k2[1] > 0 and all(x > 0 for _, x in k2[2]):
                        continue
                    st.keep = st.keep + (k2,)
                k = k2
            facts[k] = val
        st.facts = facts
        st.keep = tuple(k for k in st.keep if k not in drop)


def take_entry(I, st, uid):
    poison_check(st, uid)
    uncount(st, st.ent[uid][3])
    v = st.ent[uid][1]
    if has_set(v):
        for x in conn(syms(v)):
            st.facts[('hub', x)] = True
    absint.ne_drop(st, st.ent[uid][0])
    del st.ent[uid]
    return v


def iter_next(I, st, ref, what, by):
    v = I.deref(st, ref)
    if type(v) is not tuple or v[0] not in ('rit', 'sit'):
        raise Undecided('advances something that is not a raw iterator: %r' % (v[0],))
    iid = v[1]
    if iid in st.flags.get('poison', ()):
        I.finding(st, 'iterator-invalidated', 'advances a raw iterator after the element it points at was removed')
        raise Infeasible()
    pred = lambda e: iid in e[3]
    outs = []
    for uid, s2 in pick(I, st, pred):
        e = s2.ent[uid]
        s2.ent[uid] = (e[0], e[1], e[2], e[3] - {iid})
        s2.pick = uid
        outs.append(('ret', some(by(s2, uid)), s2))
    s0 = empty_of(I, st.copy(), pred)
    if s0 is not None:
        outs.append(('ret', none(), s0))
    return outs


def drain_next(I, st, ref, cid):
    pred = lambda e: e[0] == cid
    outs = []
    for uid, s2 in pick(I, st, pred):
        v = s2.ent[uid][1]
        absint.ne_drop(s2, cid)
        uncount(s2, s2.ent[uid][3])
        del s2.ent[uid]
        outs.append(('ret', some(v), s2))
    s0 = empty_of(I, st.copy(), pred)
    if s0 is not None:
        outs.append(('ret', none(), s0))
    return outs


def lin_of(I, st, pred):
    m = I.fresh('n')
    map_entries(st, lambda e: (e[0], e[1], e[2], e[3] | {m}) if pred(e) else e)
    # nothing can match: the length is the constant zero
    if not any(m in e[3] for e, _ in I.all_entries(st)):
        return 0
    return ('lin', 0, ((m, 1),))


def move_all(I, st, cid, new):
    st.ev = tuple(('ne', new) if e == ('ne', cid) else e for e in st.ev)
    map_entries(st, lambda e: (new, e[1], e[2], frozenset(x for x in e[3] if x[1] != 'I')) if e[0] == cid else e)


# ------------------------------------------------------------------------------- RawTable
RT = 'hashbrown::raw::RawTable::<T, A>::'
RT0 = 'hashbrown::raw::RawTable::<T>::'


@model(RT0 + 'new', RT + 'new_in')
def rt_new(I, st, ins, args):
    return ret(('tbl', I.fresh('c')), st)


@model('<hashbrown::raw::RawTable<T, A> as std::default::Default>::default',
       '<hashbrown::raw::RawTable<T> as std::default::Default>::default')
def rt_default(I, st, ins, args):
    return ret(('tbl', I.fresh('c')), st)


def unbounded(I, st, n):
    """report an allocation whose size comes from the input without an upper bound"""
    if n not in (('top', 'hint'), ('top', 'uhint_hi')):
        return
    for k, v in st.facts.items():
        if k[0] == 'cmp':
            _, op, a, b = k
            if a == n and b != n and ((op in ('Lt', 'Le')) == v):
                return
            if b == n and a != n and ((op in ('Gt', 'Ge')) == v):
                return
    if n[1] == 'uhint_hi':
        I.finding(st, 'panic', "allocates the iterator's upper size bound, which may exceed any memory (the items may be few)")
    else:
        I.finding(st, 'unbounded-allocation', 'allocates a capacity taken unchecked from untrusted input')


def cap_event(I, st, what, cid, n):
    unbounded(I, st, n)
    st.flags['cap:' + what + ':' + cid] = n if type(n) is not tuple or n[0] != 'lin' else ('lin',)


@model(RT0 + 'with_capacity')
def rt_with_cap(I, st, ins, args):
    c = I.fresh('c')
    cap_event(I, st, 'with_capacity', c, args[0])
    return ret(('tbl', c), st)


@model(RT + 'with_capacity_in')
def rt_with_cap_in(I, st, ins, args):
    return rt_with_cap(I, st, ins, args)


@model(RT + 'capacity')
def rt_capacity(I, st, ins, args):
    return ret(('cap', cid_of(I, st, args[0])), st)


@model(RT + 'len')
def rt_len(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    return ret(lin_of(I, st, lambda e: e[0] == cid), st)


def emptiness(I, st, pred):
    """fork on 'some entry satisfies pred'"""
    if any(pred(e) for e in st.ent.values()):
        return [(False, st)]
    outs = []
    for path in I.positions(st, pred):
        s2 = st.copy()
        u = I.materialise(s2, path)
        if s2.ent[u][2] is None and ('ne', s2.ent[u][0]) not in s2.ev:
            # an element of a nested set: remember that the set is not empty
            s2.ev = s2.ev + (('ne', s2.ent[u][0]),)
        outs.append((False, s2))
    s0 = empty_of(I, st.copy(), pred)
    if s0 is not None:
        outs.append((True, s0))
    return outs


@model(RT + 'is_empty')
def rt_is_empty(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    return [('ret', b, s) for b, s in emptiness(I, st, lambda e: e[0] == cid)]


@model(RT + 'clear', RT + 'clear_no_drop')
def rt_clear(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    if ins['path'].endswith('no_drop') and not st.flags.get('rawread'):
        if any(e[0] == cid and owns_items(e[1]) for e, om in I.all_entries(st)):
            I.finding(st, 'forgotten', 'takes elements out of a table without dropping or keeping them')
    I.clear_container(st, cid)
    return ret(UNIT, st)


def rehash_one(I, st, hasher, uid_or_val, expect, what):
    """evaluate the rehash closure on one element and compare"""
    if type(uid_or_val) is str:
        r = ('ref', ('e', uid_or_val), ())
        h = None
    else:
        h = I.fresh('E')
        st.heap[h] = uid_or_val
        r = ('ref', ('h', h), ())
    outs = []
    for kind, v, s2 in I.call_value(st, hasher, [r]):
        if h:
            s2.heap.pop(h, None)
        if kind == 'ret':
            if I.eq3(s2, v, expect) is not True:
                I.finding(s2, 'rehash', '%s: the element is stored under %s but would be rehashed to %s'
                          % (what, I.pv(expect), I.pv(v)))
        outs.append((kind, s2))
    return outs


def stale(I, st, cid):
    """the table may have been reallocated: buckets, references and raw iterators obtained before
    point nowhere"""
    p = {m for e, _ in I.all_entries(st) if e[0] == cid for m in e[3] if m[1] == 'I'}
    if p:
        st.flags['poison'] = frozenset(st.flags.get('poison', frozenset()) | p)
    map_entries(st, lambda e: (e[0], e[1], e[2], frozenset(m for m in e[3] if m[1] != 'G'))
                if e[0] == cid and any(m[1] == 'G' for m in e[3]) else e)
    for u, e in list(st.ent.items()):
        if e[0] == cid:
            del st.ent[u]
            st.ent[I.fresh('e')] = e
    return st


@model(RT + 'insert')
def rt_insert(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    outs = []
    hold = I.fresh('E')
    st.heap[hold] = tup(args[1], args[2])
    for kind, s2 in rehash_one(I, st, args[3], args[2], args[1], 'insert'):
        s2.heap.pop(hold, None)
        if kind != 'ret':
            outs.append((kind, None, s2))
            continue
        stale(I, s2, cid)
        u = I.fresh('e')
        s2.ent[u] = (cid, args[2], args[1], frozenset())
        outs.append(('ret', ('bkt', u), s2))
    return outs


@model(RT + 'insert_entry')
def rt_insert_entry(I, st, ins, args):
    outs = []
    for kind, v, s in rt_insert(I, st, ins, args):
        outs.append((kind, ('ref', ('e', v[1]), ()) if kind == 'ret' else None, s))
    return outs


@model(RT + 'insert_no_grow')
def rt_insert_ng(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    u = I.fresh('e')
    st.ent[u] = (cid, args[2], args[1], frozenset())
    return ret(('bkt', u), st)


def lookup(I, st, cid, hv, pred):
    """-> list of (kind, uid|None, state)"""
    I.stats['lookups'] += 1
    res = []
    hold = I.fresh('E')
    st.heap[hold] = tup(hv, pred)

    def test(s, uid):
        """outcomes of testing one entry: (kind, match, maybe, state)"""
        e = s.ent[uid]
        h = I.eq3(s, e[2], hv)
        if h is False:
            return [('ret', False, False, s)]
        r = []
        for kind, v, s2 in I.call_value(s, pred, [('ref', ('e', uid), ())]):
            if kind != 'ret':
                r.append((kind, None, None, s2))
                continue
            if type(v) is not bool:
                raise Undecided('predicate result %r' % (v,))
            r.append(('ret', v, h is not True, s2))
        return r
    for path in I.positions(st, lambda e: e[0] == cid):
        s2 = st.copy()
        uid = I.materialise(s2, path)
        for kind, v, maybe, s3 in test(s2, uid):
            if kind != 'ret':
                res.append((kind, None, s3))
            elif v:
                if maybe:
                    s3.flags['wronghash'] = True
                res.append(('ret', uid, s3))
    mats = [u for u, e in st.ent.items() if e[0] == cid]
    for uid in mats:
        for kind, v, maybe, s3 in test(st.copy(), uid):
            if kind != 'ret':
                res.append((kind, None, s3))
            elif v:
                if maybe:
                    s3.flags['wronghash'] = True
                res.append(('ret', uid, s3))
    nf = [st]
    for uid in mats:
        new = []
        for s in nf:
            for kind, v, maybe, s3 in test(s.copy(), uid):
                if kind == 'ret' and (not v or maybe):
                    if v:
                        s3.flags['wronghash'] = True
                    new.append(s3)
        nf = new
    for s in nf:
        res.append(('ret', None, s))
    for _, _, s in res:
        s.heap.pop(hold, None)
    return res


@model(RT + 'get', RT + 'get_mut')
def rt_get(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    return [(k, (some(('ref', ('e', u), ())) if u else none()) if k == 'ret' else None, s)
            for k, u, s in lookup(I, st, cid, args[1], args[2])]


@model(RT + 'find')
def rt_find(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    return [(k, (some(('bkt', u)) if u else none()) if k == 'ret' else None, s)
            for k, u, s in lookup(I, st, cid, args[1], args[2])]


@model(RT + 'remove_entry')
def rt_remove_entry(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    outs = []
    for k, u, s in lookup(I, st, cid, args[1], args[2]):
        if k != 'ret':
            outs.append((k, None, s))
        elif u is None:
            outs.append(('ret', none(), s))
        else:
            v = take_entry(I, s, u)
            outs.append(('ret', some(v), s))
    return outs


@model(RT + 'erase_entry')
def rt_erase_entry(I, st, ins, args):
    outs = []
    for k, v, s in rt_remove_entry(I, st, ins, args):
        if k == 'ret' and v[3] == 1:
            for k2, _, s2 in I.drop(s, v[4][0], None):
                outs.append((k2, True, s2))
        else:
            outs.append((k, False, s))
    return outs


def bucket(I, st, b):
    if b[0] == 'ref':
        b = I.deref(st, b)
    if b[0] != 'bkt':
        raise Undecided('bucket %r' % (b[0],))
    u = absint.eid(st, b[1])
    if u not in st.ent:
        I.finding(st, 'dangling', 'uses a bucket whose element was already removed')
        raise Infeasible()
    return u


@model(RT + 'remove')
def rt_remove(I, st, ins, args):
    return ret(take_entry(I, st, bucket(I, st, args[1])), st)


@model(RT + 'erase')
def rt_erase(I, st, ins, args):
    v = take_entry(I, st, bucket(I, st, args[1]))
    return [(k, UNIT, s) for k, _, s in I.drop(st, v, None)]


@model(RT + 'erase_no_drop')
def rt_erase_nd(I, st, ins, args):
    if owns_items(take_entry(I, st, bucket(I, st, args[1]))) and not st.flags.get('rawread'):
        I.finding(st, 'forgotten', 'takes an element out of a table without dropping or keeping it')
    return ret(UNIT, st)


@model('hashbrown::raw::Bucket::<T>::as_ref', 'hashbrown::raw::Bucket::<T>::as_mut',
       'hashbrown::raw::Bucket::<T>::as_ptr')
def bkt_ref(I, st, ins, args):
    return ret(('ref', ('e', bucket(I, st, args[0])), ()), st)


@model('hashbrown::raw::Bucket::<T>::read')
def bkt_read(I, st, ins, args):
    st.flags['rawread'] = True
    return ret(st.ent[bucket(I, st, args[0])][1], st)


@model('<hashbrown::raw::Bucket<T> as std::clone::Clone>::clone')
def bkt_clone(I, st, ins, args):
    return ret(I.deref(st, args[0]), st)


def resize(what):
    def f(I, st, ins, args):
        cid = cid_of(I, st, args[0])
        n = args[1]
        unbounded(I, st, n)
        key = 'cap:%s:%s' % (what, cid)
        st.flags[key] = n
        outs = [st]
        # re-hashing: every stored element must hash to where it is stored
        for path in I.positions(st, lambda e: e[0] == cid):
            s2 = st.copy()
            uid = I.materialise(s2, path)
            rehash_one(I, s2, args[2], uid, s2.ent[uid][2], what)
        for uid in [u for u, e in st.ent.items() if e[0] == cid]:
            nxt = []
            for s in outs:
                for kind, s2 in rehash_one(I, s, args[2], uid, s.ent[uid][2], what):
                    if kind == 'ret':
                        nxt.append(s2)
            outs = nxt
        res = []
        for s in outs:
            stale(I, s, cid)
            if what == 'try_reserve':
                s2 = s.copy()
                s2.flags['try_failed'] = cid
                res.append(('ret', ('A', 'adt', OPT, 1, (('opq', 'reserve-error'),)), s2))
                res.append(('ret', ('A', 'adt', OPT, 0, (UNIT,)), s))
            else:
                res.append(('ret', UNIT, s))
        return res
    return f


TABLE[RT + 'reserve'] = resize('reserve')
TABLE[RT + 'try_reserve'] = resize('try_reserve')
TABLE[RT + 'shrink_to'] = resize('shrink_to')


@model(RT + 'iter')
def rt_iter(I, st, ins, args):
    return ret(('rit', live_mark(I, st, cid_of(I, st, args[0]))), st)


@model('<hashbrown::raw::RawIter<T> as std::iter::Iterator>::next')
def rit_next(I, st, ins, args):
    return iter_next(I, st, args[0], 'rit', lambda s, u: ('bkt', u))


@model('<hashbrown::raw::RawIter<T> as std::clone::Clone>::clone',
       '<hashbrown::hash_set::Iter<\'_, K> as std::clone::Clone>::clone')
def rit_clone(I, st, ins, args):
    v = I.deref(st, args[0])
    m = I.fresh('I')
    mark_copy(st, v[1], m)
    if v[1] in st.flags.get('poison', ()):
        st.flags['poison'] = frozenset(st.flags['poison'] | {m})
    return ret((v[0], m), st)


def size_pair(n):
    return tup(n, some(n))


def pending_len(I, st, r):
    v = I.deref(st, r) if r[0] == 'ref' else r
    if v[0] in ('rit', 'sit'):
        if v[1] in st.flags.get('poison', ()):
            return ('top', 'len')
        return lin_of(I, st, lambda e: v[1] in e[3])
    if v[0] in ('drain', 'sdr', 'vit', 'riter', 'vec', 'set', 'tbl'):
        return lin_of(I, st, lambda e: e[0] == v[1])
    raise Undecided('length of %s' % v[0])


@model('<hashbrown::raw::RawIter<T> as std::iter::Iterator>::size_hint',
       "<hashbrown::raw::RawDrain<'_, T, A> as std::iter::Iterator>::size_hint",
       "<hashbrown::hash_set::Iter<'a, K> as std::iter::Iterator>::size_hint",
       "<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint",
       "<hashbrown::hash_set::IntoIter<K, A> as std::iter::Iterator>::size_hint",
       "<hashbrown::hash_set::Drain<'_, K, A> as std::iter::Iterator>::size_hint")
def x_size_hint(I, st, ins, args):
    return ret(size_pair(pending_len(I, st, args[0])), st)


@model("<hashbrown::hash_set::Iter<'a, K> as std::iter::ExactSizeIterator>::len",
       "<hashbrown::raw::RawIter<T> as std::iter::ExactSizeIterator>::len",
       'hashbrown::HashSet::<T, S, A>::len', 'std::vec::Vec::<T, A>::len',
       "<hashbrown::raw::RawDrain<'_, T, A> as std::iter::ExactSizeIterator>::len",
       "<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len",
       "<hashbrown::hash_set::IntoIter<K, A> as std::iter::ExactSizeIterator>::len")
def x_len(I, st, ins, args):
    return ret(pending_len(I, st, args[0]), st)


@model(RT + 'drain')
def rt_drain(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    d = I.fresh('c')
    move_all(I, st, cid, d)
    return ret(('drain', d, cid), st)


@model("<hashbrown::raw::RawDrain<'_, T, A> as std::iter::Iterator>::next",
       '<hashbrown::raw::RawIntoIter<T, A> as std::iter::Iterator>::next')
def drain_nx(I, st, ins, args):
    v = I.deref(st, args[0])
    return drain_next(I, st, args[0], v[1])


@model('<hashbrown::raw::RawTable<T, A> as std::iter::IntoIterator>::into_iter')
def rt_into_iter(I, st, ins, args):
    return ret(('drain', args[0][1], args[0][1]), st)


@model(RT + 'allocator')
def rt_alloc(I, st, ins, args):
    return ret(('opq', 'alloc'), st)


# ---------------------------------------------------------------------- cloning of containers
def clone_container(I, st, ins, cid):
    """duplicate every element of a container through its Clone impl"""
    elem_t = ins['targs'][0]
    cl = ins.get('aux', {}).get(str(elem_t), {}).get('clone')
    new = I.fresh('c')
    states = [st]
    outs = []
    # materialised elements
    for uid in [u for u, e in st.ent.items() if e[0] == cid]:
        nxt = []
        for s in states:
            for kind, v, s2 in clone_value(I, s, cl, ('ref', ('e', uid), ())):
                if kind != 'ret':
                    outs.append((kind, None, s2))
                    continue
                u2 = I.fresh('e')
                s2.ent[u2] = (new, v, s2.ent[uid][2], frozenset())
                nxt.append(s2)
        states = nxt
    # summaries: clone a generic instance of each shape and fold it back
    for s in states:
        new_om = set()
        for sh in s.om:
            new_om.add(clone_in_shape(I, s, cl, sh, cid, new))
        s.om = frozenset(new_om)
        outs.append(('ret', new, s))
    return outs


def clone_value(I, st, cl, ref):
    if cl is None:
        return [('ret', I.deref(st, ref), st)]
    ins = I.p.inst[str(cl)]
    return I.call_path(st, ins, ins['path'], [ref], None, ('fn', cl, ins['path']))


def shape_has(sh, cid):
    return any(e[0] == cid for e in sh[1]) or any(shape_has(s, cid) for s in sh[3])


def clone_in_shape(I, st, cl, sh, cid, new):
    if not shape_has(sh, cid):
        return sh
    # work on an isolated state that contains only this shape, instantiated
    s = State()
    s.frames = [f[:] for f in st.frames]
    s.fns = st.fns[:]
    s.heap = {k: v for k, v in st.heap.items()}
    s.flags = dict(st.flags)
    s.trace = st.trace
    s.keep = st.keep
    m, es, subs = I.inst_shape(s, sh)
    own = set(m.values())
    s.om = frozenset(recanon(x) for x in subs)
    for u in es:
        if s.ent[u][0] != cid:
            continue
        outs = clone_value(I, s, cl, ('ref', ('e', u), ()))
        outs = [o for o in outs if o[0] == 'ret']
        if len(outs) != 1:
            raise Undecided('cloning a summarised element forks')
        _, v, s = outs[0]
        u2 = I.fresh('e')
        s.ent[u2] = (new, v, s.ent[u][2], frozenset())
    subs2 = []
    for x in s.om:
        subs2.append(shift(clone_in_shape(I, s, cl, x, cid, new), 1))
    allsy = set()
    for e in s.ent.values():
        syms(e, allsy)
    bound = {x for x in allsy if x != new and (x in own or x not in free_now(I, st))}
    return canon_shape(list(s.ent.values()), list(s.ev), subs2, bound)


def free_now(I, st):
    r = set()
    for f in st.frames:
        syms(f, r)
    syms(st.heap, r)
    for e in st.ent.values():
        syms(e, r)
    for x in st.om:
        r |= free_syms(x)
    syms(st.ev, r)
    return {x for x in r if '$' not in x} | {x for x in r if x[1] in 'kb'}


@model('<hashbrown::raw::RawTable<T, A> as std::clone::Clone>::clone')
def rt_clone(I, st, ins, args):
    cid = cid_of(I, st, args[0])
    return [(k, ('tbl', c) if k == 'ret' else None, s) for k, c, s in clone_container(I, st, ins, cid)]


@model('<hashbrown::raw::RawTable<T, A> as std::clone::Clone>::clone_from')
def rt_clone_from(I, st, ins, args):
    outs = []
    for k, _, s in TABLE[RT + 'clear'](I, st, ins, args[:1]):
        if k != 'ret':
            outs.append((k, None, s))
            continue
        for k2, c, s2 in clone_container(I, s, ins, cid_of(I, s, args[1])):
            if k2 == 'ret':
                I.write(s2, args[0][1], args[0][2], ('tbl', c))
            outs.append((k2, UNIT if k2 == 'ret' else None, s2))
    return outs


@model('<hashbrown::HashSet<T, S, A> as std::clone::Clone>::clone')
def set_clone(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    outs = clone_container(I, st, ins, cid)
    for k, c, s in outs:
        if k == 'ret' and ('ne', cid) in s.ev:
            s.ev = s.ev + (('ne', c),)
    return [(k, ('set', c) if k == 'ret' else None, s) for k, c, s in outs]


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def vec_clone(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('vec',))
    return [(k, ('vec', c) if k == 'ret' else None, s) for k, c, s in clone_container(I, st, ins, cid)]


# ------------------------------------------------------------------------------- HashSet
HSN = 'hashbrown::HashSet::<T>::'
HS = 'hashbrown::HashSet::<T, S, A>::'


@model(HSN + 'new', HSN + 'with_capacity', '<hashbrown::HashSet<T, S, A> as std::default::Default>::default',
       '<hashbrown::HashSet<T, S> as std::default::Default>::default',
       'hashbrown::HashSet::<T, S>::with_hasher', 'hashbrown::HashSet::<T, S>::with_capacity_and_hasher')
def set_new(I, st, ins, args):
    return ret(('set', I.fresh('c')), st)


def set_lookup(I, st, cid, v):
    """[(uid|None, st)] : element equal to v"""
    hold = I.fresh('E')
    st.heap[hold] = v
    outs = []
    for path in I.positions(st, lambda e: e[0] == cid):
        s2 = st.copy()
        u = I.materialise(s2, path)
        for b, s3 in I.branch_eq(s2, s2.ent[u][1], v):
            if b:
                outs.append((u, s3))
    mats = [u for u, e in st.ent.items() if e[0] == cid]
    for u in mats:
        s2 = st.copy()
        for b, s3 in I.branch_eq(s2, s2.ent[u][1], v):
            if b:
                outs.append((u, s3))
    nf = [st]
    for u in mats:
        new = []
        for s in nf:
            for b, s3 in I.branch_eq(s.copy(), s.ent[u][1], v):
                if not b:
                    new.append(s3)
        nf = new
    for s in nf:
        outs.append((None, s))
    for _, s in outs:
        s.heap.pop(hold, None)
    return outs


def as_val(I, st, v):
    """strip references: the value compared by Eq"""
    while type(v) is tuple and v[0] == 'ref':
        v = I.deref(st, v)
    return v


@model(HS + 'insert')
def set_insert(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    outs = []
    hold = I.fresh('E')
    st.heap[hold] = args[1]
    for u, s in set_lookup(I, st, cid, args[1]):
        s.heap.pop(hold, None)
        if u is not None:
            outs.append(('ret', False, s))
        else:
            x = I.fresh('e')
            s.ent[x] = (cid, args[1], None, frozenset())
            outs.append(('ret', True, s))
    return outs


@model(HS + 'replace')
def set_replace(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    outs = []
    for u, s in set_lookup(I, st, cid, args[1]):
        if u is not None:
            old = s.ent[u][1]
            s.ent[u] = (cid, args[1], None, s.ent[u][3])
            outs.append(('ret', some(old), s))
        else:
            x = I.fresh('e')
            s.ent[x] = (cid, args[1], None, frozenset())
            outs.append(('ret', none(), s))
    return outs


@model(HS + 'remove')
def set_remove(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    outs = []
    for u, s in set_lookup(I, st, cid, as_val(I, st, args[1])):
        if u is not None:
            take_entry(I, s, u)
        outs.append(('ret', u is not None, s))
    return outs


@model(HS + 'take')
def set_take(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    outs = []
    for u, s in set_lookup(I, st, cid, as_val(I, st, args[1])):
        if u is not None:
            outs.append(('ret', some(take_entry(I, s, u)), s))
        else:
            outs.append(('ret', none(), s))
    return outs


@model(HS + 'contains')
def set_contains(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    return [('ret', u is not None, s) for u, s in set_lookup(I, st, cid, as_val(I, st, args[1]))]


@model(HS + 'get')
def set_get(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set',))
    return [('ret', some(('ref', ('e', u), ())) if u else none(), s)
            for u, s in set_lookup(I, st, cid, as_val(I, st, args[1]))]


@model(HS + 'is_empty', 'std::vec::Vec::<T, A>::is_empty')
def set_is_empty(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set', 'vec'))
    return [('ret', b, s) for b, s in emptiness(I, st, lambda e: e[0] == cid)]


@model(HS + 'clear', 'std::vec::Vec::<T, A>::clear')
def set_clear(I, st, ins, args):
    I.clear_container(st, cid_of(I, st, args[0], ('set', 'vec')))
    return ret(UNIT, st)


@model(HS + 'reserve', HS + 'shrink_to_fit', HS + 'shrink_to', 'hashbrown::HashSet::<T, S, A>::reserve',
       'hashbrown::HashSet::<T, S, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve',
       'std::vec::Vec::<T, A>::shrink_to_fit')
def set_resize(I, st, ins, args):
    return ret(UNIT, st)


@model(HS + 'iter')
def set_iter(I, st, ins, args):
    return ret(('sit', live_mark(I, st, cid_of(I, st, args[0], ('set',)))), st)


@model("<&'a hashbrown::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def set_iter2(I, st, ins, args):
    return ret(('sit', live_mark(I, st, cid_of(I, st, args[0], ('set', 'vec')))), st)


@model("<hashbrown::hash_set::Iter<'a, K> as std::iter::Iterator>::next")
def sit_next(I, st, ins, args):
    return iter_next(I, st, args[0], 'sit', lambda s, u: ('ref', ('e', u), ()))


@model(HS + 'drain', 'std::vec::Vec::<T, A>::drain')
def set_drain(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set', 'vec'))
    d = I.fresh('c')
    move_all(I, st, cid, d)
    return ret(('sdr', d), st)


@model("<hashbrown::hash_set::Drain<'_, K, A> as std::iter::Iterator>::next",
       '<hashbrown::hash_set::IntoIter<K, A> as std::iter::Iterator>::next',
       "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next",
       "<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back",
       "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next")
def set_drain_next(I, st, ins, args):
    v = I.deref(st, args[0])
    return drain_next(I, st, args[0], v[1])


@model('<hashbrown::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter',
       '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def set_into_iter(I, st, ins, args):
    return ret(('vit', args[0][1]), st)


@model(HS + 'retain', 'std::vec::Vec::<T, A>::retain')
def set_retain(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('set', 'vec'))
    m = live_mark(I, st, cid)
    hk = I.fresh('E')
    st.heap[hk] = tup(('sit', m), args[1])

    def body(s):
        outs = []
        for _, o, s2 in iter_next(I, s, ('ref', ('c', ('sit', m)), ()), 'sit', lambda s, u: u):
            if o[3] == 0:
                s2.heap.pop(hk)
                outs.append(('done', UNIT, s2))
                continue
            u = o[4][0]
            for k, v, s3 in I.call_value(s2, ('ref', ('h', hk), (1,)), [('ref', ('e', u), ())]):
                if k != 'ret':
                    s3.heap.pop(hk)
                    outs.append((k, None, s3))
                    continue
                if not v:
                    take_entry(I, s3, u)
                outs.append(('next', None, s3))
        return outs
    return loop(I, st, body)


# ------------------------------------------------------------------------------- loops in models
def loop(I, st, body):
    """iterate body to a fixpoint; body(state) -> [('next', _, st) | ('done', v, st) | ('unw', _, st)]"""
    seen = {}
    work = [st]
    outs = []
    while work:
        s = work.pop()
        I.stats['loopheads'] += 1
        I.stats['blocks'] += 1
        if I.stats['blocks'] > I.max_blocks:
            raise Undecided('step limit reached')
        I.fold(s)
        if not I.join(seen, s):
            continue
        if len(seen) > I.max_loop:
            raise Undecided('too many abstract states in a loop')
        try:
            for k, v, s2 in body(s):
                if k == 'next':
                    work.append(s2)
                elif k == 'done':
                    outs.append(('ret', v, s2))
                else:
                    outs.append((k, v, s2))
        except Infeasible:
            pass
    return outs


def drive(I, st, ins, it, on_item, finish):
    """call `next` on iterator value `it` until None.  on_item(st, v) -> [(kind, st)], finish(st) -> value"""
    ity = None
    nxt = None
    for t, a in ins.get('aux', {}).items():
        pass
    return None


def find_next(I, ins, targ, st, itv):
    """instance of Iterator::next for the iterator obtained from a value of type targ"""
    a = ins.get('aux', {}).get(str(targ), {})
    if type(itv) is tuple and itv[0] == 'A' and itv[1] == 'adt' and itv[2] != targ:
        # the value's own type decides
        b = ins.get('aux', {}).get(str(itv[2]))
        if b is not None:
            a = b
        elif I.p.ty[itv[2]]['name'] != I.p.ty[targ]['name']:
            a = {}
    if 'next' in a:
        return a['next'], a.get('into_iter')
    return None, a.get('into_iter')


def call_inst(I, st, iid, args):
    ins = I.p.inst[str(iid)]
    return I.call_path(st, ins, ins['path'], args, None, ('fn', iid, ins['path']))


def consume(I, st, ins, targ, itv, item, done):
    """for x in itv { item(st, x) -> [(kind, None, st)] } ; done(st) -> [(kind, value, st)]"""
    nx, ii = find_next(I, ins, targ, st, itv)
    if nx is None and type(itv) is tuple and itv[0] in ('vec', 'set'):
        itv = ('vit', itv[1])
        nx = 'drain'
    if nx is None and type(itv) is tuple and itv[0] in ('vit', 'sdr', 'drain'):
        nx = 'drain'
    if nx is None:
        raise Undecided('no next() known for the iterator consumed by %s' % ins['path'])
    hk = I.fresh('E')
    st.heap[hk] = itv

    def body(s):
        outs = []
        if nx == 'drain':
            res = drain_next(I, s, None, s.heap[hk][1])
        else:
            res = call_inst(I, s, nx, [('ref', ('h', hk), ())])
        for k, o, s2 in res:
            if k != 'ret':
                v = s2.heap.pop(hk, None)
                for _, _, s3 in I.drop(s2, v, None):
                    outs.append((k, None, s3))
                continue
            if o[3] == 0:
                v = s2.heap.pop(hk)
                for k3, _, s3 in I.drop(s2, v, None):
                    if k3 != 'ret':
                        outs.append((k3, None, s3))
                        continue
                    for k4, v4, s4 in done(s3):
                        outs.append(('done' if k4 == 'ret' else k4, v4, s4))
                continue
            for k3, v3, s3 in item(s2, o[4][0]):
                outs.append(('next' if k3 == 'ret' else k3, v3, s3))
        return outs
    return loop(I, st, body)


@model('<hashbrown::HashSet<T, S, A> as std::iter::FromIterator<T>>::from_iter',
       '<hashbrown::HashSet<T, S> as std::iter::FromIterator<T>>::from_iter')
def set_from_iter(I, st, ins, args):
    c = I.fresh('c')
    hk = I.fresh('E')
    st.heap[hk] = ('set', c)

    def item(s, x):
        return set_insert(I, s, None, [('set', c), x])

    def done(s):
        return [('ret', s.heap.pop(hk), s)]
    return consume(I, st, ins, ins['targs'][-1], args[0], item, done)


@model('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def vec_from_iter(I, st, ins, args):
    c = I.fresh('c')
    hk = I.fresh('E')
    st.heap[hk] = ('vec', c)

    def item(s, x):
        return vec_push(I, s, None, [('vec', c), x])

    def done(s):
        return [('ret', s.heap.pop(hk), s)]
    return consume(I, st, ins, ins['targs'][-1], args[0], item, done)


def ext(kind):
    def f(I, st, ins, args):
        c = cid_of(I, st, args[0], (kind,))

        def item(s, x):
            if kind == 'set':
                return set_insert(I, s, None, [('set', c), x])
            return vec_push(I, s, None, [('vec', c), x])
        return consume(I, st, ins, ins['targs'][-1], args[1], item, lambda s: [('ret', UNIT, s)])
    return f


TABLE['<hashbrown::HashSet<T, S, A> as std::iter::Extend<T>>::extend'] = ext('set')
TABLE['<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend'] = ext('vec')


# ------------------------------------------------------------------------------- Vec
@model('std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T>::new',
       '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(I, st, ins, args):
    if args:
        unbounded(I, st, args[0])
    return ret(('vec', I.fresh('c')), st)


@model('std::vec::Vec::<T, A>::push')
def vec_push(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('vec',))
    # a vector is an unordered bag here; identical elements are kept at most twice
    n = sum(1 for e in st.ent.values() if e[0] == cid and e[1] == args[1])
    if n >= 2 or (n and not conn(syms(args[1]))):
        return ret(UNIT, st)
    u = I.fresh('e')
    st.ent[u] = (cid, args[1], None, frozenset())
    return ret(UNIT, st)


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(I, st, ins, args):
    cid = cid_of(I, st, args[0], ('vec',))
    return drain_next(I, st, None, cid)


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice')
def vec_deref(I, st, ins, args):
    return ret(args[0], st)


@model('core::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def slice_iter(I, st, ins, args):
    return ret(('sit', live_mark(I, st, cid_of(I, st, args[0], ('vec',)))), st)


@model('core::slice::<impl [T]>::len', 'std::slice::<impl [T]>::len')
def slice_len(I, st, ins, args):
    return ret(pending_len(I, st, args[0]), st)


@model('core::slice::<impl [T]>::is_empty', 'std::slice::<impl [T]>::is_empty')
def slice_is_empty(I, st, ins, args):
    return set_is_empty(I, st, ins, args)


def slice_next(I, st, ins, args):
    if ins['path'].endswith('::next'):
        return iter_next(I, st, args[0], 'sit', lambda s, u: ('ref', ('e', u), ()))
    return NotImplemented


PREFIX.append(("<std::slice::Iter<'a, T> as std::iter::Iterator>", slice_next))
PREFIX.append(("<core::slice::Iter<'a, T> as std::iter::Iterator>", slice_next))


# ------------------------------------------------------------------------------- std misc
def any_count(I, st, ins, args):
    if ins and ins['path'].endswith('::count') and ins['krate'] == 'core':
        return it_count(I, st, ins, args)
    return NotImplemented


PREFIX.append(('<std::iter::', any_count))
PREFIX.append(('<core::iter::', any_count))

@model('std::iter::Iterator::count')
def it_count(I, st, ins, args):
    m = I.fresh('n')
    hk = I.fresh('E')
    st.heap[hk] = ('lin', 0, ((m, 1),))

    def item(s, x):
        u = item_uid(s, x)
        if u is None:
            raise Undecided('counted items are not references to stored elements')
        e = s.ent[u]
        if m in e[3]:
            I.finding(s, 'double-count', 'counts one element twice')
        s.ent[u] = (e[0], e[1], e[2], e[3] | {m})
        return [('ret', None, s)]

    def done(s):
        v = s.heap.pop(hk)
        if not any(m in e[3] for e, _ in I.all_entries(s)):
            v = 0
        return [('ret', v, s)]
    return consume(I, st, ins, ins['targs'][0], args[0], item, done)


def item_uid(st, v):
    """uid of a stored element an iterator item refers to"""
    if type(v) is not tuple:
        return None
    if v[0] == 'ref':
        if v[1][0] == 'e':
            return absint.eid(st, v[1][1])
        return None
    if v[0] == 'bkt':
        return absint.eid(st, v[1])
    if v[0] == 'A':
        for x in v[4]:
            u = item_uid(st, x)
            if u:
                return u
    return None


@model('std::mem::replace')
def mem_replace(I, st, ins, args):
    old = I.deref(st, args[0])
    I.write(st, args[0][1], args[0][2], args[1])
    return ret(old, st)


@model('std::mem::swap')
def mem_swap(I, st, ins, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    I.write(st, args[0][1], args[0][2], b)
    I.write(st, args[1][1], args[1][2], a)
    return ret(UNIT, st)


@model('std::mem::take')
def mem_take(I, st, ins, args):
    old = I.deref(st, args[0])
    if type(old) is not tuple:
        I.write(st, args[0][1], args[0][2], 0 if type(old) is int else False)
        return ret(old, st)
    if old[0] in ('tbl', 'set', 'vec'):
        new = (old[0], I.fresh('c'))
    elif old[0] == 'A' and old[1] == 'adt' and I.p.ty[old[2]]['path'].endswith('option::Option'):
        new = none()
    elif old[0] in ('ctr',):
        new = 0
    else:
        return NotImplemented
    I.write(st, args[0][1], args[0][2], new)
    return ret(old, st)


def owns_items(v):
    """does the value own an item (or a table or set of them)?"""
    if type(v) is not tuple or not v or v[0] == 'ref':
        return False
    if v[0] == 'K' or v[0] in ('set', 'vec') and type(v[1]) is str:
        return True
    return any(owns_items(x) for x in v)


@model('std::mem::drop', 'std::mem::forget')
def mem_drop(I, st, ins, args):
    if ins['path'].endswith('forget'):
        if owns_items(args[0]) and not st.flags.get('rawread'):
            I.finding(st, 'forgotten', 'forgets an item: it is neither stored, handed back nor dropped')
        return ret(UNIT, st)
    return [(k, UNIT, s) for k, _, s in I.drop(st, args[0], None)]


@model('std::fmt::Arguments::<\'a>::from_str_nonconst', "std::fmt::Arguments::<'a>::from_str")
def fmt_args(I, st, ins, args):
    return ret(args[0], st)


def opaque_ret(I, st, ins, args):
    return ret(('opq', ins['path'] if ins else 'x'), st)


FMT = "std::fmt::%s::<'a%s>::"
for _n in ('new_debug', 'new_display', 'new_lower_hex', 'new_upper_hex'):
    TABLE["core::fmt::rt::Argument::<'_>::" + _n] = lambda I, st, ins, args: ret(tup(('fmtarg',), args[0]), st)


@model("std::fmt::Arguments::<'a>::new")
def fmt_new(I, st, ins, args):
    v = args[-1]
    while type(v) is tuple and v and v[0] == 'ref':
        v = I.deref(st, v)
    return ret(v, st)


def shown(v, acc):
    """the references a set of format arguments prints"""
    if type(v) is tuple and v:
        if v[0] == 'A':
            if len(v[4]) == 2 and v[4][0] == ('fmtarg',):
                acc.append(v[4][1])
            else:
                for x in v[4]:
                    shown(x, acc)
    return acc


def fmt_out(I, st, vals):
    """print `vals`; the sink may fail"""
    for v in vals:
        r = resolve(I, st, v)
        if type(r) is tuple and r and r[0] == 'opq':
            continue
        if owns_items(r):
            add_event(st, ('y', 'a', r))
    s = st.copy()
    add_event(s, ('fmterr',))
    return [('ret', res_ok(UNIT), st), ('ret', res_err(('opq', 'fmt')), s)]


@model("std::fmt::Formatter::<'a>::write_fmt")
def fmt_write(I, st, ins, args):
    return fmt_out(I, st, shown(args[1], []))


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::write_char", "std::fmt::Formatter::<'a>::pad")
def fmt_str(I, st, ins, args):
    return fmt_out(I, st, [])


for _n in range(1, 6):
    TABLE["std::fmt::Formatter::<'a>::debug_tuple_field%d_finish" % _n] = lambda I, st, ins, args: fmt_out(I, st, args[2:])
    TABLE["std::fmt::Formatter::<'a>::debug_struct_field%d_finish" % _n] = lambda I, st, ins, args: fmt_out(I, st, args[3::2])


@model(*["std::fmt::Formatter::<'a>::debug_" + x for x in ('set', 'list', 'map', 'tuple', 'struct')])
def fmt_builder(I, st, ins, args):
    return ret(('opq', 'dbg'), st)


def fmt_entry(I, st, ins, args):
    for v in args[1:]:
        r = resolve(I, st, v)
        if owns_items(r):
            add_event(st, ('y', 'a', r))
    return ret(args[0], st)


def fmt_pair(I, st, ins, args):
    r = tup(*(resolve(I, st, v) for v in args[1:]))
    add_event(st, ('y', 'a', r))
    return ret(args[0], st)


for _k, _l in (('Set', "'a, 'b"), ('List', "'a, 'b"), ('Map', "'a, 'b"), ('Tuple', "'a, 'b"), ('Struct', "'a, 'b")):
    for _n in ('entry', 'field'):
        TABLE["std::fmt::Debug%s::<%s>::%s" % (_k, _l, _n)] = fmt_entry if _k != 'Map' else fmt_pair
    for _n in ('finish', 'finish_non_exhaustive'):
        TABLE["std::fmt::Debug%s::<%s>::%s" % (_k, _l, _n)] = lambda I, st, ins, args: fmt_out(I, st, [])

PREFIX.append(('std::fmt::Arguments', opaque_ret))
PREFIX.append(('core::fmt::rt::', opaque_ret))
PREFIX.append(('std::fmt::rt::', opaque_ret))


@model('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max',
       '<usize as std::cmp::Ord>::min', '<usize as std::cmp::Ord>::max',
       'std::intrinsics::integer_min', 'std::intrinsics::integer_max')
def ord_minmax(I, st, ins, args):
    a, b = args
    p = ins['path'] if ins else 'min'
    if type(a) is int and type(b) is int:
        return ret(min(a, b) if p.endswith('min') else max(a, b), st)
    if a == b:
        return ret(a, st)
    if p.endswith('min'):
        for x in (a, b):
            if type(x) is int or (type(x) is tuple and x[0] == 'lin'):
                if ('top', 'hint') in (a, b) or ('top', 'uhint_hi') in (a, b):
                    return ret(('top', 'bounded'), st)
    # fork: either argument
    s2 = st.copy()
    for s, v in ((st, a), (s2, b)):
        k = ('cmp', p[-3:] + '=', a, b)
        s.keep = s.keep + (k,)
    st.facts[('cmp', p[-3:], a, b)] = True
    s2.facts[('cmp', p[-3:], a, b)] = False
    return [('ret', a, st), ('ret', b, s2)]


@model('core::num::<impl usize>::saturating_sub', 'core::num::<impl usize>::wrapping_add',
       'core::num::<impl u64>::wrapping_add', 'core::num::<impl usize>::saturating_add',
       'core::num::<impl u64>::saturating_add', 'core::num::<impl usize>::wrapping_sub')
def num_op(I, st, ins, args):
    op = 'Sub' if ins['path'].endswith('sub') else 'Add'
    if ins['path'].endswith('saturating_sub'):
        la, lb = I.lin(args[0]), I.lin(args[1])
        if la and lb:
            r = I.cmp_lin(st, 'Lt', la, lb)
            if r is None:
                raise Undecided('saturating_sub of two lengths that cannot be ordered')
            return [('ret', 0 if x else I.arith(s, op, args[0], args[1]), s) for x, s in ([(r, st)] if type(r) is bool else r)]
    v = I.arith(st, op, args[0], args[1])
    return ret(v & (2 ** 64 - 1) if type(v) is int else v, st)


@model('std::vec::Vec::<T, A>::capacity')
def vec_capacity(I, st, ins, args):
    return ret(('top', 'veccap'), st)


@model('core::num::<impl usize>::checked_add', 'core::num::<impl u64>::checked_add')
def num_checked(I, st, ins, args):
    return ret(some(I.arith(st, 'Add', args[0], args[1])), st)


@model('<usize as std::clone::Clone>::clone', '<u64 as std::clone::Clone>::clone')
def prim_clone(I, st, ins, args):
    return ret(I.deref(st, args[0]), st)


@model('<hashbrown::raw::inner::alloc::inner::Global as std::clone::Clone>::clone',
       '<std::alloc::Global as std::clone::Clone>::clone')
def glob_clone(I, st, ins, args):
    return ret(('opq', 'alloc'), st)


@model('std::hint::assert_unchecked', 'core::hint::assert_unchecked', 'std::intrinsics::assume')
def assert_unchecked(I, st, ins, args):
    if args[0] is False:
        I.finding(st, 'unreachable', 'a condition promised to the compiler (assert_unchecked) does not hold')
        raise Infeasible()
    return ret(UNIT, st)


@model('std::hint::unreachable_unchecked::precondition_check', 'core::hint::unreachable_unchecked::precondition_check')
def unreachable_check(I, st, ins, args):
    I.finding(st, 'unreachable', 'code declared unreachable (unwrap_unchecked, unreachable_unchecked) is reached')
    raise Infeasible()


# ------------------------------------------------------------------------------- user types
def key_side(I, st, ins):
    p = ins['path']
    return 'L' if ('KL' in p.split(' as ')[0] or 'QL' in p.split(' as ')[0]) else 'R'


@model('<o::SB as std::hash::BuildHasher>::build_hasher', '<ahash::random_state::RandomState as std::hash::BuildHasher>::build_hasher')
def build_hasher(I, st, ins, args):
    b = I.deref(st, args[0])
    return ret(('hasher', b[1], ()), st)


@model('<o::SB as std::clone::Clone>::clone', '<ahash::random_state::RandomState as std::clone::Clone>::clone')
def sb_clone(I, st, ins, args):
    return ret(I.deref(st, args[0]), st)


@model('<o::SB as std::default::Default>::default', '<ahash::random_state::RandomState as std::default::Default>::default',
       'ahash::random_state::RandomState::new', 'ahash::RandomState::new')
def sb_default(I, st, ins, args):
    return ret(('sb', I.fresh('b')), st)


@model('<o::HS as std::hash::Hasher>::finish', '<ahash::fallback_hash::AHasher as std::hash::Hasher>::finish',
       '<ahash::aes_hash::AHasher as std::hash::Hasher>::finish')
def finish(I, st, ins, args):
    if I.wild:
        return ret(('top', 'hash'), st)
    h = I.deref(st, args[0])
    return ret(('H', h[1], h[2]), st)


def wild_unwind(I, st, outs):
    """user code may panic"""
    if not st.flags.get('unw'):     # a second panic aborts the process
        s = st.copy()
        s.flags['unw'] = True
        outs.append(('unw', None, s))
    return outs


def key_hash(I, st, ins, args):
    k = as_val(I, st, args[0])
    h = I.deref(st, args[1])
    if I.wild:
        if h[0] != 'hasher':
            raise Undecided('hash with %r' % (h[0],))
        return wild_unwind(I, st.copy(), ret(UNIT, st))
    if h[0] != 'hasher' or k[0] != 'K':
        raise Undecided('hash of %r' % (k[0],))
    I.write(st, args[1][1], args[1][2], ('hasher', h[1], h[2] + (k[2],)))
    return ret(UNIT, st)


def key_eq(I, st, ins, args):
    a, b = as_val(I, st, args[0]), as_val(I, st, args[1])
    if a[0] != 'K' or b[0] != 'K':
        raise Undecided('key comparison of %r' % (a[0],))
    if I.wild:
        return wild_unwind(I, st.copy(), [('ret', True, st), ('ret', False, st.copy())])
    return ret(a[2] == b[2], st)


def key_ne(I, st, ins, args):
    a, b = as_val(I, st, args[0]), as_val(I, st, args[1])
    if I.wild:
        return wild_unwind(I, st.copy(), [('ret', True, st), ('ret', False, st.copy())])
    return ret(a[2] != b[2], st)


def key_clone(I, st, ins, args):
    k = as_val(I, st, args[0])
    if k[0] != 'K':
        raise Undecided('clone of %r' % (k[0],))
    n = ('K', k[1], k[2], I.fresh('t'))
    if I.wild:
        s2 = st.copy()
        return wild_unwind(I, s2, ret(n, st))
    where = I.where(st)[0]
    st.flags['cloned'] = True
    add_event(st, ('cl', k, n))
    return ret(n, st)


for T in ('KL', 'KR', 'QL', 'QR'):
    TABLE['<o::%s as std::hash::Hash>::hash' % T] = key_hash
    TABLE['<o::%s as std::cmp::PartialEq>::eq' % T] = key_eq
    TABLE['<o::%s as std::cmp::PartialEq>::ne' % T] = key_ne
    TABLE['<o::%s as std::cmp::PartialEq<o::%s>>::eq' % (T, T.replace('Q', 'K'))] = key_eq
    TABLE['<o::%s as std::cmp::PartialEq<o::%s>>::ne' % (T, T.replace('Q', 'K'))] = key_ne
    TABLE['<o::%s as std::clone::Clone>::clone' % T] = key_clone
    TABLE['<o::%s as std::borrow::Borrow<o::%s>>::borrow' % (T, T.replace('K', 'Q'))] = \
        lambda I, st, ins, args: ret(args[0], st)


@model('std::cmp::PartialEq::ne')
def generic_ne(I, st, ins, args):
    a, b = as_val(I, st, args[0]), as_val(I, st, args[1])
    if type(a) is tuple and type(b) is tuple and a[0] == 'K' and b[0] == 'K':
        return ret(a[2] != b[2], st)
    return NotImplemented


def resolve(I, st, v, depth=0):
    """value as seen by an observer: references replaced by what they point to"""
    if type(v) is not tuple or depth > 8:
        return v
    if v[0] == 'ref':
        return resolve(I, st, I.deref(st, v), depth + 1)
    if v[0] == 'A':
        return ('A', v[1], v[2], v[3], tuple(resolve(I, st, x, depth + 1) for x in v[4]))
    return v


def keyset(v, acc):
    if type(v) is tuple:
        if v and v[0] == 'K':
            acc.append(v)
        else:
            for x in v:
                keyset(x, acc)
    return acc


def monitor_pred(I, st, v):
    """the arguments of a predicate must be one stored element: reported as soon as it goes wrong, since what
    follows entangles ever more elements"""
    ks = keyset(v, [])
    if len(ks) != 2 or {k[1] for k in ks} != {'L', 'R'}:
        return
    ks.sort(key=lambda k: k[1])
    orig = [e for e in st.ev if e[0] == 'orig']
    if any(e[2:4] == tuple(ks) for e in orig) or not any(ks[0] in e or ks[1] in e for e in orig):
        return
    I.finding(st, 'pred', 'the predicate is given a paired unit that is not in the map')
    raise Infeasible()


def pred(I, st, ins, args):
    v = tuple(resolve(I, st, a) for a in args)
    monitor_pred(I, st, v)
    outs = []
    for ans in (True, False):
        s = st.copy()
        add_event(s, ('pred', v, ans))
        outs.append(('ret', ans, s))
    if I.pred_unwind and not st.flags.get('unw'):   # a second panic aborts the process
        s = st.copy()
        add_event(s, ('predunw', v))
        s.flags['unw'] = True
        outs.append(('unw', None, s))
    return outs


for n in ('pred_lr', 'pred_op', 'pred_opv', 'pred_r'):
    TABLE['o::' + n] = pred


def sink(tag):
    def f(I, st, ins, args):
        v = args[0]
        r = resolve(I, st, v)
        add_event(st, ('y', tag, r))
        return ret(UNIT, st)
    return f


TABLE['o::sink'] = sink('y')
TABLE['o::sink_a'] = sink('a')
TABLE['o::sink_b'] = sink('b')


@model('o::leak')
def o_leak(I, st, ins, args):
    return ret(UNIT, st)


@model('o::nondet')
def nondet(I, st, ins, args):
    s = st.copy()
    return [('ret', True, st), ('ret', False, s)]


def first_key(v):
    if type(v) is tuple:
        if v and v[0] == 'K' and len(v) == 4:
            return v
        for x in v:
            k = first_key(x)
            if k:
                return k
    return None


def lin_events(I, st, tag, n):
    """turn a linear form into per-element events so that it survives the elements themselves"""
    l = I.lin(n)
    if l is None:
        raise Undecided('size claim is not a linear combination of table sizes')
    c, d = l
    if c:
        add_event(st, ('cnt', tag, None, c))

    def ev(e):
        x = I.coef(e[3], d)
        if x:
            return ('cnt', tag, anchor(e), x)
    for e in list(st.ent.values()):
        v = ev(e)
        if v:
            st.ev = st.ev + (v,)

    def rec(sh):
        vs = tuple(v for v in (ev(e) for e in sh[1]) if v)
        return ('S', sh[1], sh[2] + vs, tuple(rec(s) for s in sh[3]))
    st.om = frozenset(recanon(rec(s)) for s in st.om)


def anchor(e):
    k = first_key(e[1])
    if k:
        return k
    h = first_hash(e[1])
    if h:
        return ('cls', h)
    return tuple(sorted(s for s in syms(e[1]) if s[1] not in 'kbIneEc'))


def first_hash(v):
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'H' and len(v[2]) == 1 and type(v[2][0]) is str:
            return v[2][0]
        for x in v:
            k = first_hash(x)
            if k:
                return k
    return None


@model('o::hint')
def o_hint(I, st, ins, args):
    lin_events(I, st, 'lo', args[0])
    hi = args[1]
    if hi[3] == 1:
        lin_events(I, st, 'hi', hi[4][0])
        add_event(st, ('hashi',))
    add_event(st, ('hinted',))
    return ret(UNIT, st)


@model('o::exact')
def o_exact(I, st, ins, args):
    lin_events(I, st, 'lo', args[0])
    lin_events(I, st, 'hi', args[0])
    add_event(st, ('hashi',))
    add_event(st, ('hinted',))
    return ret(UNIT, st)


@model('o::it_next', 'o::seq_next')
def it_next(I, st, ins, args):
    return I.source_next(st, ins)


@model('o::it_hint')
def it_hint(I, st, ins, args):
    s = st.copy()
    return [('ret', tup(('top', 'uhint'), none()), s),
            ('ret', tup(('top', 'uhint'), some(('top', 'uhint_hi'))), st)]


@model('o::seq_hint')
def seq_hint(I, st, ins, args):
    s = st.copy()
    return [('ret', none(), s), ('ret', some(('top', 'hint')), st)]


def res_ok(v):
    return ('A', 'adt', OPT, 0, (v,))


def res_err(v):
    return ('A', 'adt', OPT, 1, (v,))


@model('o::ser_begin')
def ser_begin(I, st, ins, args):
    s = st.copy()
    add_event(s, ('sererr',))
    if args[0][3] == 1 and type(args[0][4][0]) is tuple and args[0][4][0][0] == 'cap':
        I.finding(st, 'ret', 'announces the capacity of a table as the number of pairs')
    elif args[0][3] == 1:
        lin_events(I, st, 'lo', args[0][4][0])
        lin_events(I, st, 'hi', args[0][4][0])
        add_event(st, ('hashi',))
    add_event(st, ('hinted',))
    add_event(st, ('serbegin',))
    return [('ret', res_ok(('opq', 'seq')), st), ('ret', res_err(('opq', 'err')), s)]


@model('o::ser_elem')
def ser_elem(I, st, ins, args):
    s = st.copy()
    add_event(s, ('sererr',))
    add_event(st, ('y', 'a', resolve(I, st, args[0])))
    return [('ret', res_ok(UNIT), st), ('ret', res_err(('opq', 'err')), s)]


@model('o::ser_end')
def ser_end(I, st, ins, args):
    s = st.copy()
    add_event(s, ('sererr',))
    add_event(st, ('serend',))
    return [('ret', res_ok(('opq', 'done')), st), ('ret', res_err(('opq', 'err')), s)]


@model('o::bad_ser', 'o::bad_de')
def bad_fmt(I, st, ins, args):
    I.finding(st, 'serde-shape', 'the map is not (de)serialized as a sequence of pairs')
    raise Infeasible()
