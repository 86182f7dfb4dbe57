"""Compile-fail witnesses for the ownership guarantees of the public API.

Every case is one small program with a `#[cfg(bad)]` part. Without `--cfg bad` the compiler must accept it (the
ordinary use), with it the compiler must reject it for a reason of the right kind. The programs only name public
items of cycle_map; nothing is run."""

import re
BORROW = {'E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0597', 'E0713', 'E0716', 'E0515', 'E0521', 'E0373', 'lifetime'}
MUT = {'E0594', 'E0596', 'E0308'}
AUTO = {'E0277'}
NOCLONE = {'E0599', 'E0277'}

PRELUDE = '''#![allow(warnings)]
use cycle_map::{CycleMap, PartialCycleMap, GroupMap, OptionalPair};
use std::hash::{Hash, Hasher, BuildHasher};
use std::marker::PhantomData;
type CM = CycleMap<String, Str>;
type PM = PartialCycleMap<String, Str>;
type GM = GroupMap<String, Str>;
// the right items: a second type, so that sides cannot be mixed up
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Str(pub String);
fn touch<T: ?Sized>(_: &T) {}
fn s() -> String { String::new() }
fn r() -> Str { Str(String::new()) }
// not shareable between threads, but sendable
pub struct NotSync(u8, PhantomData<std::cell::Cell<u8>>);
impl PartialEq for NotSync { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for NotSync {}
impl Hash for NotSync { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0) } }
// neither
pub struct NotSend(u8, PhantomData<*const u8>);
impl PartialEq for NotSend { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for NotSend {}
impl Hash for NotSend { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0) } }
#[derive(Clone, Default)]
pub struct BS(PhantomData<std::cell::Cell<u8>>);
impl BuildHasher for BS { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { Default::default() } }
fn send<T: Send>(_: T) {}
fn sync<T: Sync>(_: &T) {}
// an item that can only be hashed and compared
pub struct Bare(u8);
impl PartialEq for Bare { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Bare {}
impl Hash for Bare { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0) } }
'''

# things that keep a shared borrow of the map: (name, expression, pattern of the element given mutable access attempts)
SHARED = {
    'CM': [('iter', 'm.iter()'), ('iter_clone', 'm.iter().clone()'), ('iter_left', 'm.iter_left()'),
           ('iter_right', 'm.iter_right()'), ('iter_left_clone', 'm.iter_left().clone()'),
           ('iter_item', 'm.iter().next()'), ('iter_left_item', 'm.iter_left().next()'),
           ('iter_right_item', 'm.iter_right().next()'), ('get_left', 'm.get_left(&r())'),
           ('get_right', 'm.get_right(&s())'), ('hasher', 'm.hasher()')],
    'PM': [('iter', 'm.iter()'), ('iter_clone', 'm.iter().clone()'), ('iter_paired', 'm.iter_paired()'),
           ('iter_paired_clone', 'm.iter_paired().clone()'), ('iter_unpaired', 'm.iter_unpaired()'),
           ('iter_unpaired_clone', 'm.iter_unpaired().clone()'), ('iter_left', 'm.iter_left()'),
           ('iter_right', 'm.iter_right()'), ('iter_left_clone', 'm.iter_left().clone()'),
           ('iter_item', 'm.iter().next()'), ('iter_paired_item', 'm.iter_paired().next()'),
           ('iter_unpaired_item', 'm.iter_unpaired().next()'), ('iter_left_item', 'm.iter_left().next()'),
           ('iter_right_item', 'm.iter_right().next()'), ('get_left', 'm.get_left(&r())'),
           ('get_right', 'm.get_right(&s())'), ('hasher', 'm.hasher()')],
    'GM': [('iter', 'm.iter()'), ('iter_clone', 'm.iter().clone()'), ('iter_paired', 'm.iter_paired()'),
           ('iter_paired_clone', 'm.iter_paired().clone()'), ('iter_unpaired', 'm.iter_unpaired()'),
           ('iter_unpaired_clone', 'm.iter_unpaired().clone()'), ('iter_left', 'm.iter_left()'),
           ('iter_right', 'm.iter_right()'), ('iter_left_clone', 'm.iter_left().clone()'),
           ('iter_right_clone', 'm.iter_right().clone()'), ('iter_item', 'm.iter().next()'),
           ('iter_paired_item', 'm.iter_paired().next()'), ('iter_unpaired_item', 'm.iter_unpaired().next()'),
           ('iter_left_item', 'm.iter_left().next()'), ('iter_right_item', 'm.iter_right().next()'),
           ('get_left_iter', 'm.get_left_iter(&r())'), ('get_left_iter_item', 'm.get_left_iter(&r()).unwrap().next()'),
           ('get_left_iter_clone', 'm.get_left_iter(&r()).unwrap().clone()'),
           ('get_right', 'm.get_right(&s())'), ('hasher', 'm.hasher()')],
}
# things that keep the map exclusively borrowed
EXCL = {
    'CM': [('drain', 'm.drain()'), ('drain_filter', 'm.drain_filter(|_, _| true)')],
    'PM': [('drain', 'm.drain()'), ('drain_filter', 'm.drain_filter(|_| true)'),
           ('pair_forced', 'm.pair_forced(&s(), &r())')],
    'GM': [],
}
DROPS = {'drain', 'drain_filter'}
MUTATORS = {
    'CM': ['m.insert(s(), r())', 'm.remove(&s(), &r())', 'm.remove_via_left(&s())', 'm.remove_via_right(&r())',
           'm.swap_left(&s(), s())', 'm.swap_left_checked(&s(), &r(), s())', 'm.swap_left_or_insert(&s(), s(), r())',
           'm.swap_right(&r(), r())', 'm.swap_right_checked(&r(), &s(), r())', 'm.swap_right_or_insert(&r(), r(), s())',
           'm.drain()', 'm.drain_filter(|_, _| true)', 'm.retain(|_, _| true)', 'm.shrink_to(0)', 'm.shrink_to_fit()',
           'm.reserve(1)', 'm.try_reserve(1)', 'm.clear()', 'm.extend([(s(), r())])'],
    'PM': ['m.insert(s(), r())', 'm.insert_left(s())', 'm.insert_right(r())', 'm.pair(&s(), &r())',
           'm.pair_forced(&s(), &r())', 'm.pair_forced_remove(&s(), &r())', 'm.unpair(&s(), &r())',
           'm.remove(&s(), &r())', 'm.remove_left(&s())', 'm.remove_via_left(&s())', 'm.remove_right(&r())',
           'm.remove_via_right(&r())', 'm.swap_left(&s(), s())', 'm.swap_left_checked(&s(), &r(), s())',
           'm.swap_left_or_insert(&s(), s(), r())', 'm.swap_right(&r(), r())', 'm.swap_right_checked(&r(), &s(), r())',
           'm.swap_right_or_insert(&r(), r(), s())', 'm.drain()', 'm.drain_filter(|_| true)', 'm.retain(|_| true)',
           'm.retain_paired(|_, _| true)', 'm.retain_unpaired(|_| true)', 'm.shrink_to_left(0)', 'm.shrink_to_right(0)',
           'm.shrink_to_fit()', 'm.reserve_left(1)', 'm.reserve_right(1)', 'm.try_reserve_left(1)',
           'm.try_reserve_right(1)', 'm.clear()', 'm.extend([(s(), r())])'],
    'GM': ['m.insert(s(), r())', 'm.insert_remove(s(), r())', 'm.insert_left(s(), &r())', 'm.insert_right(r())',
           'm.swap_right(&r(), r())', 'm.swap_right_remove(&r(), r())', 'm.pair(&s(), &r())', 'm.remove(&s(), &r())',
           'm.remove_left(&s())', 'm.remove_right(&r())', 'm.retain_paired(|_, _| true)', 'm.retain_unpaired(|_| true)',
           'm.clear()', 'm.extend([(s(), r())])'],
}
QUERIES = {
    'CM': ['m.len()', 'm.is_empty()', 'm.get_left(&r())', 'm.iter()', 'm.contains_left(&s())', 'm.clone()', 'm == m'],
    'PM': ['m.len_left()', 'm.is_empty()', 'm.get_left(&r())', 'm.iter()', 'm.contains_left(&s())', 'm.clone()', 'm == m'],
    'GM': [],
}
# closures that are handed stored items: (name, call with @ for the attempt, item names)
CLOSURES = {
    'CM': [('retain', 'm.retain(|l, r| { @ true })', 2), ('drain_filter', 'm.drain_filter(|l, r| { @ true })', 2)],
    'PM': [('retain_paired', 'm.retain_paired(|l, r| { @ true })', 2)],
    'GM': [('retain_paired', 'm.retain_paired(|l, r| { @ true })', 2), ('retain_unpaired', 'm.retain_unpaired(|r| { @ true })', 1)],
}
OPT_CLOSURES = [('retain', 'm.retain(|p| { @ true })'), ('drain_filter', 'm.drain_filter(|p| { @ true })'),
                ('retain_unpaired', 'm.retain_unpaired(|p| { @ true })')]
# item types of the iterators: which sides they touch and whether they reach the whole map
ITERS = {
    'CM': [('iter', 'm.iter()', 'LRS'), ('iter_left', 'm.iter_left()', 'L'), ('iter_right', 'm.iter_right()', 'R')],
    'PM': [('iter', 'm.iter()', 'LRS'), ('iter_paired', 'm.iter_paired()', 'LRS'),
           ('iter_unpaired', 'm.iter_unpaired()', 'LRS'), ('iter_left', 'm.iter_left()', 'L'),
           ('iter_right', 'm.iter_right()', 'R')],
    'GM': [('iter', 'm.iter()', 'LRS'), ('iter_paired', 'm.iter_paired()', 'LRS'),
           ('iter_unpaired', 'm.iter_unpaired()', 'LRS'), ('iter_left', 'm.iter_left()', 'L'),
           ('iter_right', 'm.iter_right()', 'R'), ('get_left_iter', 'm.get_left_iter(&KEY).unwrap()', 'LRS')],
}
FULL = {'CM': 'CycleMap', 'PM': 'PartialCycleMap', 'GM': 'GroupMap'}


def cases():
    out = []

    def add(prop, what, name, codes, body):
        out.append({'prop': prop, 'what': what, 'name': name, 'codes': codes, 'src': PRELUDE + body})
    for M in ('CM', 'PM', 'GM'):
        for h, e in SHARED[M]:
            add('C20', 'mutating the map while the result of %s is in use' % h, '%s_%s_mutate' % (M, h), BORROW,
                'fn t(mut m: %s) { let h = %s; #[cfg(bad)] m.clear(); touch(&h); #[cfg(not(bad))] { drop(h); m.clear(); } }' % (M, e))
            add('C20', 'using the result of %s after the map is gone' % h, '%s_%s_outlive' % (M, h), BORROW,
                'fn t(m0: %s) { let h; { let m = m0; h = %s; #[cfg(not(bad))] touch(&h); } #[cfg(bad)] touch(&h); }' % (M, e))
            add('C20', 'moving the map while the result of %s is in use' % h, '%s_%s_move' % (M, h), BORROW,
                'fn t(m: %s) { let h = %s; #[cfg(bad)] drop(m); touch(&h); #[cfg(not(bad))] { drop(h); drop(m); } }' % (M, e))
            add('C20', 'assigning to the map while the result of %s is in use' % h, '%s_%s_assign' % (M, h), BORROW,
                'fn t(mut m: %s, m2: %s) { let h = %s; #[cfg(bad)] { m = m2; } touch(&h); #[cfg(not(bad))] { drop(h); m = m2; } }' % (M, M, e))
            add('C20', 'reading the map while the result of %s is in use has to be possible' % h, '%s_%s_share' % (M, h), BORROW,
                'fn t(mut m: %s) { let h = %s; m.is_empty(); let h2 = %s; touch(&h); touch(&h2); #[cfg(bad)] { m.clear(); touch(&h); } }' % (M, e, e))
        for i, x in enumerate(MUTATORS[M]):
            n = x[2:].split('(')[0]
            for h, e in (('iter', 'm.iter()'), ('get_right', 'm.get_right(&s())')):
                add('C20', 'calling %s while the result of %s is in use' % (n, h), '%s_%s_during_%s' % (M, n, h), BORROW,
                    'fn t(mut m: %s) { let h = %s; #[cfg(bad)] { %s; } touch(&h); #[cfg(not(bad))] { %s; } }' % (M, e, x, x))
            # a mutation needs the map exclusively: not through a shared reference
            add('C20', 'calling %s through a shared reference' % n, '%s_%s_shared' % (M, n), MUT,
                'fn t(#[cfg(bad)] m: &%s, #[cfg(not(bad))] m: &mut %s) { %s; }' % (M, M, x))
        for h, e in EXCL[M]:
            for q in QUERIES[M] + ['m.clear()']:
                n = q[2:].split('(')[0] if q[1] == '.' else 'eq'
                add('C20', 'using the map (%s) while the result of %s is in use' % (n, h), '%s_%s_%s' % (M, h, n), BORROW,
                    'fn t(mut m: %s) { let h = %s; #[cfg(bad)] { %s; } touch(&h); drop(h); #[cfg(not(bad))] { %s; } }' % (M, e, q, q))
            add('C20', 'using the result of %s after the map is gone' % h, '%s_%s_outlive' % (M, h), BORROW,
                'fn t(m0: %s) { #[cfg(bad)] let h; { let mut m = m0; #[cfg(bad)] { h = %s; } #[cfg(not(bad))] { let h = %s; touch(&h); } } #[cfg(bad)] touch(&h); }' % (M, e, e))
            add('C20', 'moving the map while the result of %s is in use' % h, '%s_%s_move' % (M, h), BORROW,
                'fn t(mut m: %s) { let h = %s; #[cfg(bad)] drop(m); touch(&h); drop(h); #[cfg(not(bad))] drop(m); }' % (M, e))
            add('C20', 'taking the result of %s through a shared reference' % h, '%s_%s_needs_mut' % (M, h), MUT,
                'fn t(#[cfg(bad)] m: &%s, #[cfg(not(bad))] m: &mut %s) { %s; }' % (M, M, e))
        for n, call, k in CLOSURES[M]:
            for v in ('l', 'r')[2 - k:]:
                attempt = '%s.push(\'x\');' % (v if v == 'l' else v + '.0')
                add('C20', 'changing a stored item inside the predicate of %s' % n, '%s_%s_change_%s' % (M, n, v), MUT,
                    'fn t(mut m: %s) { %s; }' % (M, call.replace('@', '#[cfg(bad)] { %s } touch(%s);' % (attempt, v))))
                add('C20', 'keeping a stored item beyond the predicate of %s' % n, '%s_%s_escape_%s' % (M, n, v), BORROW,
                    'fn t(mut m: %s) { let mut k = None; { let x = %s; } k = k.or(None::<&%s>); }' % (
                        M, call.replace('@', '#[cfg(bad)] { k = Some(%s); } touch(%s);' % (v, v)),
                        'String' if v == 'l' else 'Str'))
                add('C20', 'using the map inside the predicate of %s' % n, '%s_%s_reenter_%s' % (M, n, v), BORROW,
                    'fn t(mut m: %s) { %s; }' % (M, call.replace('@', '#[cfg(bad)] { m.is_empty(); } touch(%s);' % v)))
    for n, call in OPT_CLOSURES:
        for side, attempt in (('left', 'if let Some(l) = p.get_left() { l.push(\'x\'); }'),
                              ('right', 'if let Some(r) = p.get_right() { r.0.push(\'x\'); }')):
            add('C20', 'changing a stored item inside the predicate of %s' % n, 'PM_%s_change_%s' % (n, side), MUT,
                'fn t(mut m: PM) { %s; }' % call.replace('@', '#[cfg(bad)] { %s } touch(&p);' % attempt))
            ty = 'String' if side == 'left' else 'Str'
            add('C20', 'keeping a stored item beyond the predicate of %s' % n, 'PM_%s_escape_%s' % (n, side), BORROW,
                'fn t(mut m: PM) { let mut k: Option<&%s> = None; { let x = %s; } touch(&k); }' % (
                    ty, call.replace('@', '#[cfg(bad)] { k = p.get_%s().map(|x| *x); } touch(&p);' % side)))
        add('C20', 'using the map inside the predicate of %s' % n, 'PM_%s_reenter' % n, BORROW,
            'fn t(mut m: PM) { %s; }' % call.replace('@', '#[cfg(bad)] { m.is_empty(); } touch(&p);'))
    # mutation through references that queries and iterators hand out
    for M in ('CM', 'PM', 'GM'):
        pr = {'CM': ['iter'], 'PM': ['iter_paired'], 'GM': ['iter_paired']}[M]
        for it in pr:
            add('C20', 'changing a left item through %s' % it, '%s_%s_change_l' % (M, it), MUT,
                'fn t(m: %s) { for (l, r) in m.%s() { #[cfg(bad)] l.push(\'x\'); touch(l); } }' % (M, it))
            add('C20', 'changing a right item through %s' % it, '%s_%s_change_r' % (M, it), MUT,
                'fn t(m: %s) { for (l, r) in m.%s() { #[cfg(bad)] r.0.push(\'x\'); touch(r); } }' % (M, it))
        add('C20', 'changing a left item through iter_left', '%s_iter_left_change' % M, MUT,
            'fn t(m: %s) { for l in m.iter_left() { #[cfg(bad)] l.push(\'x\'); touch(l); } }' % M)
        add('C20', 'changing a right item through iter_right', '%s_iter_right_change' % M, MUT,
            'fn t(m: %s) { for r in m.iter_right() { #[cfg(bad)] r.0.push(\'x\'); touch(r); } }' % M)
        add('C20', 'changing a right item through get_right', '%s_get_right_change' % M, MUT,
            'fn t(m: %s) { let r = m.get_right(&s()).unwrap(); #[cfg(bad)] r.0.push(\'x\'); touch(r); }' % M)
        if M != 'GM':
            add('C20', 'changing a left item through get_left', '%s_get_left_change' % M, MUT,
                'fn t(m: %s) { let l = m.get_left(&r()).unwrap(); #[cfg(bad)] l.push(\'x\'); touch(l); }' % M)
        # the references belong to the map: not to the key, not to the iterator
        add('C20', 'a looked-up item may be used after the key is gone, not after the map is', '%s_get_right_key' % M, BORROW,
            'fn t(m0: %s) { let x; { #[cfg(bad)] let m = m0; #[cfg(not(bad))] let m = Box::leak(Box::new(m0)); let k = s(); x = m.get_right(&k); } touch(&x); }' % M)
        add('C20', 'an item may be used after the iterator is gone, not after the map is', '%s_iter_item_after' % M, BORROW,
            'fn t(m0: %s) { let x; { #[cfg(bad)] let m = m0; #[cfg(not(bad))] let m = Box::leak(Box::new(m0)); let mut i = m.iter_left(); x = i.next(); } touch(&x); }' % M)
        add('C20', 'an iterator may be returned from a borrowed map, not from an owned one', '%s_iter_return' % M, BORROW,
            'fn f<\'a>(#[cfg(not(bad))] m: &\'a %s, #[cfg(bad)] m: %s, z: &\'a u8) -> impl Iterator<Item = &\'a String> + \'a { m.iter_left() }' % (M, M))
        add('C20', 'a looked-up item may be returned from a borrowed map with its lifetime only', '%s_get_return' % M, BORROW,
            'fn f<\'a, \'b>(m: &\'a %s, k: &\'b String, #[cfg(not(bad))] z: &\'a u8, #[cfg(bad)] z: &\'b u8) -> (#[cfg(not(bad))] Option<&\'a Str>, #[cfg(bad)] Option<&\'b Str>,) { (m.get_right(k),) }'.replace('(#[cfg(not(bad))] Option<&\'a Str>, #[cfg(bad)] Option<&\'b Str>,) { (m.get_right(k),) }', 'Ret<\'a, \'b> { m.get_right(k) }')
            % M + ' #[cfg(bad)] type Ret<\'a, \'b> = Option<&\'b Str>; #[cfg(not(bad))] type Ret<\'a, \'b> = Option<&\'a Str>;')
        add('C20', 'items of a static map only live as long as the map', '%s_iter_static' % M, BORROW,
            'fn f<\'a>(m: &\'a %s) -> Vec<Ret<\'a>> { m.iter_right().collect() } #[cfg(bad)] type Ret<\'a> = &\'static Str; #[cfg(not(bad))] type Ret<\'a> = &\'a Str;' % M)
        # iterators are covariant: a longer borrow may stand for a shorter one, never the other way round
        # threads
        F = FULL[M]
        for what, tr, bad in (('moved to', 'send', 'NotSend'), ('shared with', 'sync', 'NotSync')):
            amp = '' if tr == 'send' else '&'
            for side in 'LR':
                ty = '%s<%s, %s>'
                b = (F, bad, 'Str') if side == 'L' else (F, 'String', bad)
                add('C20', 'a map %s another thread with items that may not be' % what, '%s_%s_%s' % (M, tr, side), AUTO,
                    '#[cfg(bad)] type T = %s; #[cfg(not(bad))] type T = %s<String, Str>; fn t(m: T) { %s(%sm); }' % (
                        ty % b, F, tr, amp))
        for n, e, reach in ITERS[M]:
            for side in reach:
                args = {'L': ('NotSync', 'Str', 'D'), 'R': ('String', 'NotSync', 'D'), 'S': ('String', 'Str', 'BS')}[side]
                for tr in ('send', 'sync'):
                    amp = '' if tr == 'send' else '&'
                    add('C20', 'the iterator of %s given to another thread with contents that may not be' % n,
                        '%s_%s_%s_%s' % (M, n, tr, side), AUTO,
                        'type D = std::collections::hash_map::RandomState;'
                        '#[cfg(bad)] type T = %s<%s, %s, %s>; #[cfg(not(bad))] type T = %s<String, Str, D>; '
                        '#[cfg(bad)] type K = %s; #[cfg(not(bad))] type K = Str; fn t(m: &T, k: &K) { %s(%s%s); }' % (
                            (F,) + args + (F, args[1], tr, amp, e.replace('&KEY', 'k'))))
        for n, e in (('drain', 'm.drain()'),) if M != 'GM' else ():
            for side in 'LR':
                for tr, bad in (('send', 'NotSend'), ('sync', 'NotSync')):
                    amp = '' if tr == 'send' else '&'
                    args = (bad, 'Str') if side == 'L' else ('String', bad)
                    add('C20', 'a drain given to another thread with items that may not be', '%s_%s_%s_%s' % (M, n, tr, side), AUTO,
                        '#[cfg(bad)] type T = %s<%s, %s>; #[cfg(not(bad))] type T = %s<String, Str>; fn t(m: &mut T) { %s(%s%s); }' % (
                            F, args[0], args[1], F, tr, amp, e))
        # a drain of a borrowed map hands out owned items that outlive the map
        if M != 'GM':
            add('C20', 'drained items are owned, the drain is not', '%s_drain_owned' % M, BORROW,
                'fn t(mut m: %s) { let v: Vec<_>; #[cfg(bad)] let d; { let mut m = m; v = m.drain().collect(); #[cfg(bad)] { d = m.drain(); } } touch(&v); #[cfg(bad)] touch(&d); }' % M)
        # no Clone needed, and none to be had
        Bm = '%s<Bare, Bare>' % F
        calls = ' '.join(re.sub(r'\b[sr]\(\)', 'b()', x) + ';' for x in MUTATORS[M])
        quer = {'CM': 'm.get_left(&b()); m.get_right(&b()); for _ in m.iter() {} for _ in m.iter_left() {} for _ in m.iter_right() {} for _ in m.drain() {} m.are_paired(&b(), &b());',
                'PM': 'm.get_left(&b()); m.get_right(&b()); for _ in m.iter() {} for _ in m.iter_paired() {} for _ in m.iter_unpaired() {} for _ in m.iter_left() {} for _ in m.iter_right() {} for _ in m.drain() {} m.are_paired(&b(), &b());',
                'GM': 'if let Some(i) = m.get_left_iter(&b()) { for _ in i {} } m.get_right(&b()); for _ in m.iter() {} for _ in m.iter_paired() {} for _ in m.iter_unpaired() {} for _ in m.iter_left() {} for _ in m.iter_right() {} m.are_paired(&b(), &b());'}[M]
        add('C27', 'every operation but clone works on items that cannot be copied', '%s_bare' % M, NOCLONE,
            'fn b() -> Bare { Bare(0) } fn t(mut m: %s) { %s %s m == m; #[cfg(bad)] { m.clone(); } }' % (Bm, calls, quer))
        # generic code needs no more than Hash and Eq
        if M != 'GM':
            add('C27', 'collecting needs nothing but Hash and Eq', '%s_collect_bare' % M, NOCLONE,
                'fn t(v: Vec<(Bare, Bare)>) { let m: %s = v.into_iter().collect(); #[cfg(bad)] { m.clone(); } }' % Bm)
        else:
            add('C27', 'collecting needs nothing but Hash and Eq', '%s_collect_bare' % M, NOCLONE,
                'fn t(v: Vec<(Bare, Bare)>) { let m: %s = v.into_iter().collect(); #[cfg(bad)] { m.clone(); } }' % Bm)
    # OptionalPair: accessors lend, conversions move
    add('C20', 'changing an item through OptionalPair::get_left', 'OP_get_left_change', MUT,
        'fn t(p: OptionalPair<String, Str>) { let l = p.get_left().unwrap(); #[cfg(bad)] l.push(\'x\'); touch(l); }')
    add('C20', 'changing an item through OptionalPair::get_right', 'OP_get_right_change', MUT,
        'fn t(p: OptionalPair<String, Str>) { let l = p.get_right().unwrap(); #[cfg(bad)] l.0.push(\'x\'); touch(l); }')
    for a in ('get_left', 'get_right'):
        add('C20', 'using the result of OptionalPair::%s after the pair is gone' % a, 'OP_%s_outlive' % a, BORROW,
            'fn t(p0: OptionalPair<String, Str>) { let x; { let p = p0; x = p.%s(); #[cfg(not(bad))] touch(&x); } #[cfg(bad)] touch(&x); }' % a)
    add('C27', 'an OptionalPair is moved by map, not copied', 'OP_map_move', {'E0382'},
        'fn t(p: OptionalPair<Bare, Bare>) { let q = p.map(|l| l, |r| r); #[cfg(bad)] touch(&p); touch(&q); }')
    add('C27', 'an OptionalPair is moved by map_left, not copied', 'OP_map_left_move', {'E0382'},
        'fn t(p: OptionalPair<Bare, Bare>) { let q = p.map_left(|l| l); #[cfg(bad)] touch(&p); touch(&q); }')
    add('C27', 'an OptionalPair is moved by map_right, not copied', 'OP_map_right_move', {'E0382'},
        'fn t(p: OptionalPair<Bare, Bare>) { let q = p.map_right(|r| r); #[cfg(bad)] touch(&p); touch(&q); }')
    return out
