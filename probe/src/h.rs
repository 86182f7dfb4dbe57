//! One entry point per public operation (generated by hand-written table in gen; see DESIGN.md).
use crate::o::*;
use cycle_map::{CycleMap, GroupMap, PartialCycleMap, OptionalPair, InsertOptional};
use hashbrown::{HashSet, TryReserveError};
use std::iter::FromIterator;

pub type C = CycleMap<KL, KR, SB>;
pub type P = PartialCycleMap<KL, KR, SB>;
pub type G = GroupMap<KL, KR, SB>;
pub type CD = CycleMap<KL, KR>;
pub type PD = PartialCycleMap<KL, KR>;
pub type GD = GroupMap<KL, KR>;

pub fn cm_new() -> CD { CD::new() }
pub fn cm_with_capacity(n: usize) -> CD { CD::with_capacity(n) }
pub fn cm_with_hasher(s: SB) -> C { C::with_hasher(s) }
pub fn cm_with_capacity_and_hasher(n: usize, s: SB) -> C { C::with_capacity_and_hasher(n, s) }
pub fn cm_default() -> C { <C as Default>::default() }
pub fn cm_hasher<'a>(m: &'a C) -> &'a SB { m.hasher() }
pub fn cm_is_empty(m: &C) -> bool { m.is_empty() }
pub fn cm_clear(m: &mut C) { m.clear() }
pub fn cm_clone(m: &C) -> C { m.clone() }
pub fn cm_clone_from(m: &mut C, n: &C) { m.clone_from(n) }
pub fn cm_eq(m: &C, n: &C) -> bool { m == n }
pub fn cm_ne(m: &C, n: &C) -> bool { m != n }
pub fn cm_eq_self(m: &C) -> bool { m == m }
pub fn cm_are_paired(m: &C, l: &KL, r: &KR) -> bool { m.are_paired(l, r) }
pub fn cm_contains_left(m: &C, l: &KL) -> bool { m.contains_left(l) }
pub fn cm_contains_right(m: &C, r: &KR) -> bool { m.contains_right(r) }
pub fn cm_get_right<'a>(m: &'a C, l: &KL) -> Option<&'a KR> { m.get_right(l) }
pub fn cm_get_right_q<'a>(m: &'a C, l: &QL) -> Option<&'a KR> { m.get_right(l) }
pub fn cm_get_left<'a>(m: &'a C, r: &KR) -> Option<&'a KL> { m.get_left(r) }
pub fn cm_get_left_q<'a>(m: &'a C, r: &QR) -> Option<&'a KL> { m.get_left(r) }
pub fn cm_extend(m: &mut C, it: It<(KL, KR)>) { m.extend(it) }
pub fn cm_from_iter(it: It<(KL, KR)>) -> CD { <CD as FromIterator<(KL, KR)>>::from_iter(it) }
pub fn cm_len(m: &C) -> usize { m.len() }
pub fn cm_capacity(m: &C) -> usize { m.capacity() }
pub fn cm_shrink_to(m: &mut C, n: usize) { m.shrink_to(n) }
pub fn cm_shrink_to_fit(m: &mut C) { m.shrink_to_fit() }
pub fn cm_reserve(m: &mut C, n: usize) { m.reserve(n) }
pub fn cm_try_reserve(m: &mut C, n: usize) -> Result<(), TryReserveError> { m.try_reserve(n) }
pub fn cm_iter(m: &C) { for x in m.iter() { sink(x) } }
pub fn cm_iter__clone(m: &C) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn cm_iter__hint(m: &C) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn cm_iter__len(m: &C) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn cm_iter__fold(m: &C) { m.iter().for_each(|x| sink(x)) }
pub fn cm_iter__nth(m: &C) { let mut it = m.iter(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn cm_iter__count(m: &C) { let c = m.iter(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn cm_iter__fused(m: &C) { let mut it = m.iter(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn cm_iter_left(m: &C) { for x in m.iter_left() { sink(x) } }
pub fn cm_iter_left__clone(m: &C) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn cm_iter_left__hint(m: &C) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn cm_iter_left__len(m: &C) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn cm_iter_left__fold(m: &C) { m.iter_left().for_each(|x| sink(x)) }
pub fn cm_iter_left__nth(m: &C) { let mut it = m.iter_left(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn cm_iter_left__count(m: &C) { let c = m.iter_left(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn cm_iter_left__fused(m: &C) { let mut it = m.iter_left(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn cm_iter_right(m: &C) { for x in m.iter_right() { sink(x) } }
pub fn cm_iter_right__clone(m: &C) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn cm_iter_right__hint(m: &C) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn cm_iter_right__len(m: &C) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn cm_iter_right__fold(m: &C) { m.iter_right().for_each(|x| sink(x)) }
pub fn cm_iter_right__nth(m: &C) { let mut it = m.iter_right(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn cm_iter_right__count(m: &C) { let c = m.iter_right(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn cm_iter_right__fused(m: &C) { let mut it = m.iter_right(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn cm_drain(m: &mut C) { for x in m.drain() { sink(x) } }
pub fn cm_drain__partial(m: &mut C) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } }
pub fn cm_drain__hint(m: &mut C) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn cm_drain__len(m: &mut C) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn cm_drain__leak(m: &mut C) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } leak(it) }
pub fn cm_drain__fused(m: &mut C) { let mut it = m.drain(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn cm_drain_filter(m: &mut C) { for x in m.drain_filter(|l, r| pred_lr(l, r)) { sink(x) } }
pub fn cm_drain_filter__partial(m: &mut C) { let mut it = m.drain_filter(|l, r| pred_lr(l, r)); while nondet() { match it.next() { Some(x) => sink(x), None => break } } }
pub fn cm_drain_filter__hint(m: &mut C) { let mut it = m.drain_filter(|l, r| pred_lr(l, r)); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); while let Some(x) = it.next() { sink_a(x) } }
pub fn cm_drain_filter__leak(m: &mut C) { let mut it = m.drain_filter(|l, r| pred_lr(l, r)); while nondet() { match it.next() { Some(x) => sink(x), None => break } } leak(it) }
pub fn cm_drain_filter__fused(m: &mut C) { let mut it = m.drain_filter(|l, r| pred_lr(l, r)); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_new() -> PD { PD::new() }
pub fn pm_with_capacity(n: usize) -> PD { PD::with_capacity(n) }
pub fn pm_with_hasher(s: SB) -> P { P::with_hasher(s) }
pub fn pm_with_capacity_and_hasher(n: usize, s: SB) -> P { P::with_capacity_and_hasher(n, s) }
pub fn pm_default() -> P { <P as Default>::default() }
pub fn pm_hasher<'a>(m: &'a P) -> &'a SB { m.hasher() }
pub fn pm_is_empty(m: &P) -> bool { m.is_empty() }
pub fn pm_clear(m: &mut P) { m.clear() }
pub fn pm_clone(m: &P) -> P { m.clone() }
pub fn pm_clone_from(m: &mut P, n: &P) { m.clone_from(n) }
pub fn pm_eq(m: &P, n: &P) -> bool { m == n }
pub fn pm_ne(m: &P, n: &P) -> bool { m != n }
pub fn pm_eq_self(m: &P) -> bool { m == m }
pub fn pm_are_paired(m: &P, l: &KL, r: &KR) -> bool { m.are_paired(l, r) }
pub fn pm_contains_left(m: &P, l: &KL) -> bool { m.contains_left(l) }
pub fn pm_contains_right(m: &P, r: &KR) -> bool { m.contains_right(r) }
pub fn pm_get_right<'a>(m: &'a P, l: &KL) -> Option<&'a KR> { m.get_right(l) }
pub fn pm_get_right_q<'a>(m: &'a P, l: &QL) -> Option<&'a KR> { m.get_right(l) }
pub fn pm_get_left<'a>(m: &'a P, r: &KR) -> Option<&'a KL> { m.get_left(r) }
pub fn pm_get_left_q<'a>(m: &'a P, r: &QR) -> Option<&'a KL> { m.get_left(r) }
pub fn pm_extend(m: &mut P, it: It<(KL, KR)>) { m.extend(it) }
pub fn pm_from_iter(it: It<(KL, KR)>) -> PD { <PD as FromIterator<(KL, KR)>>::from_iter(it) }
pub fn pm_extend_op(m: &mut P, it: It<OptionalPair<KL, KR>>) { m.extend(it) }
pub fn pm_from_iter_op(it: It<OptionalPair<KL, KR>>) -> PD { <PD as FromIterator<OptionalPair<KL, KR>>>::from_iter(it) }
pub fn pm_len_left(m: &P) -> usize { m.len_left() }
pub fn pm_capacity_left(m: &P) -> usize { m.capacity_left() }
pub fn pm_shrink_to_left(m: &mut P, n: usize) { m.shrink_to_left(n) }
pub fn pm_reserve_left(m: &mut P, n: usize) { m.reserve_left(n) }
pub fn pm_try_reserve_left(m: &mut P, n: usize) -> Result<(), TryReserveError> { m.try_reserve_left(n) }
pub fn pm_len_right(m: &P) -> usize { m.len_right() }
pub fn pm_capacity_right(m: &P) -> usize { m.capacity_right() }
pub fn pm_shrink_to_right(m: &mut P, n: usize) { m.shrink_to_right(n) }
pub fn pm_reserve_right(m: &mut P, n: usize) { m.reserve_right(n) }
pub fn pm_try_reserve_right(m: &mut P, n: usize) -> Result<(), TryReserveError> { m.try_reserve_right(n) }
pub fn pm_shrink_to_fit(m: &mut P) { m.shrink_to_fit() }
pub fn pm_iter(m: &P) { for x in m.iter() { sink(x) } }
pub fn pm_iter__clone(m: &P) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn pm_iter__hint(m: &P) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn pm_iter__len(m: &P) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn pm_iter__fold(m: &P) { m.iter().for_each(|x| sink(x)) }
pub fn pm_iter__nth(m: &P) { let mut it = m.iter(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn pm_iter__count(m: &P) { let c = m.iter(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn pm_iter__fused(m: &P) { let mut it = m.iter(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_iter_left(m: &P) { for x in m.iter_left() { sink(x) } }
pub fn pm_iter_left__clone(m: &P) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn pm_iter_left__hint(m: &P) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn pm_iter_left__len(m: &P) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn pm_iter_left__fold(m: &P) { m.iter_left().for_each(|x| sink(x)) }
pub fn pm_iter_left__nth(m: &P) { let mut it = m.iter_left(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn pm_iter_left__count(m: &P) { let c = m.iter_left(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn pm_iter_left__fused(m: &P) { let mut it = m.iter_left(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_iter_right(m: &P) { for x in m.iter_right() { sink(x) } }
pub fn pm_iter_right__clone(m: &P) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn pm_iter_right__hint(m: &P) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn pm_iter_right__len(m: &P) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn pm_iter_right__fold(m: &P) { m.iter_right().for_each(|x| sink(x)) }
pub fn pm_iter_right__nth(m: &P) { let mut it = m.iter_right(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn pm_iter_right__count(m: &P) { let c = m.iter_right(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn pm_iter_right__fused(m: &P) { let mut it = m.iter_right(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_iter_paired(m: &P) { for x in m.iter_paired() { sink(x) } }
pub fn pm_iter_paired__clone(m: &P) { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn pm_iter_paired__hint(m: &P) { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn pm_iter_paired__len(m: &P) { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn pm_iter_paired__fold(m: &P) { m.iter_paired().for_each(|x| sink(x)) }
pub fn pm_iter_paired__nth(m: &P) { let mut it = m.iter_paired(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn pm_iter_paired__count(m: &P) { let c = m.iter_paired(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn pm_iter_paired__fused(m: &P) { let mut it = m.iter_paired(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_iter_unpaired(m: &P) { for x in m.iter_unpaired() { sink(x) } }
pub fn pm_iter_unpaired__clone(m: &P) { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn pm_iter_unpaired__hint(m: &P) { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn pm_iter_unpaired__len(m: &P) { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn pm_iter_unpaired__fold(m: &P) { m.iter_unpaired().for_each(|x| sink(x)) }
pub fn pm_iter_unpaired__nth(m: &P) { let mut it = m.iter_unpaired(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn pm_iter_unpaired__count(m: &P) { let c = m.iter_unpaired(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn pm_iter_unpaired__fused(m: &P) { let mut it = m.iter_unpaired(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_drain(m: &mut P) { for x in m.drain() { sink(x) } }
pub fn pm_drain__partial(m: &mut P) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } }
pub fn pm_drain__hint(m: &mut P) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn pm_drain__len(m: &mut P) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn pm_drain__leak(m: &mut P) { let mut it = m.drain(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } leak(it) }
pub fn pm_drain__fused(m: &mut P) { let mut it = m.drain(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn pm_drain_filter(m: &mut P) { for x in m.drain_filter(|p| pred_opv(p)) { sink(x) } }
pub fn pm_drain_filter__partial(m: &mut P) { let mut it = m.drain_filter(|p| pred_opv(p)); while nondet() { match it.next() { Some(x) => sink(x), None => break } } }
pub fn pm_drain_filter__hint(m: &mut P) { let mut it = m.drain_filter(|p| pred_opv(p)); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); while let Some(x) = it.next() { sink_a(x) } }
pub fn pm_drain_filter__leak(m: &mut P) { let mut it = m.drain_filter(|p| pred_opv(p)); while nondet() { match it.next() { Some(x) => sink(x), None => break } } leak(it) }
pub fn pm_drain_filter__fused(m: &mut P) { let mut it = m.drain_filter(|p| pred_opv(p)); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn gm_new() -> GD { GD::new() }
pub fn gm_with_capacity(n: usize) -> GD { GD::with_capacity(n) }
pub fn gm_with_hasher(s: SB) -> G { G::with_hasher(s) }
pub fn gm_with_capacity_and_hasher(n: usize, s: SB) -> G { G::with_capacity_and_hasher(n, s) }
pub fn gm_default() -> G { <G as Default>::default() }
pub fn gm_hasher<'a>(m: &'a G) -> &'a SB { m.hasher() }
pub fn gm_is_empty(m: &G) -> bool { m.is_empty() }
pub fn gm_clear(m: &mut G) { m.clear() }
pub fn gm_clone(m: &G) -> G { m.clone() }
pub fn gm_clone_from(m: &mut G, n: &G) { m.clone_from(n) }
pub fn gm_eq(m: &G, n: &G) -> bool { m == n }
pub fn gm_ne(m: &G, n: &G) -> bool { m != n }
pub fn gm_eq_self(m: &G) -> bool { m == m }
pub fn gm_are_paired(m: &G, l: &KL, r: &KR) -> bool { m.are_paired(l, r) }
pub fn gm_contains_left(m: &G, l: &KL) -> bool { m.contains_left(l) }
pub fn gm_contains_right(m: &G, r: &KR) -> bool { m.contains_right(r) }
pub fn gm_get_right<'a>(m: &'a G, l: &KL) -> Option<&'a KR> { m.get_right(l) }
pub fn gm_get_right_q<'a>(m: &'a G, l: &QL) -> Option<&'a KR> { m.get_right(l) }
pub fn gm_extend(m: &mut G, it: It<(KL, KR)>) { m.extend(it) }
pub fn gm_from_iter(it: It<(KL, KR)>) -> GD { <GD as FromIterator<(KL, KR)>>::from_iter(it) }
pub fn gm_extend_opt(m: &mut G, it: It<(Option<KL>, KR)>) { m.extend(it) }
pub fn gm_from_iter_opt(it: It<(Option<KL>, KR)>) -> GD { <GD as FromIterator<(Option<KL>, KR)>>::from_iter(it) }
pub fn gm_len_left(m: &G) -> usize { m.len_left() }
pub fn gm_capacity_left(m: &G) -> usize { m.capacity_left() }
pub fn gm_len_right(m: &G) -> usize { m.len_right() }
pub fn gm_capacity_right(m: &G) -> usize { m.capacity_right() }
pub fn gm_iter(m: &G) { for x in m.iter() { sink(x) } }
pub fn gm_iter__clone(m: &G) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn gm_iter__hint(m: &G) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn gm_iter__len(m: &G) { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn gm_iter__fold(m: &G) { m.iter().for_each(|x| sink(x)) }
pub fn gm_iter__nth(m: &G) { let mut it = m.iter(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn gm_iter__count(m: &G) { let c = m.iter(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn gm_iter__fused(m: &G) { let mut it = m.iter(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn gm_iter_left(m: &G) { for x in m.iter_left() { sink(x) } }
pub fn gm_iter_left__clone(m: &G) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn gm_iter_left__hint(m: &G) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn gm_iter_left__len(m: &G) { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn gm_iter_left__fold(m: &G) { m.iter_left().for_each(|x| sink(x)) }
pub fn gm_iter_left__nth(m: &G) { let mut it = m.iter_left(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn gm_iter_left__count(m: &G) { let c = m.iter_left(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn gm_iter_left__fused(m: &G) { let mut it = m.iter_left(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn gm_iter_right(m: &G) { for x in m.iter_right() { sink(x) } }
pub fn gm_iter_right__clone(m: &G) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn gm_iter_right__hint(m: &G) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn gm_iter_right__len(m: &G) { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn gm_iter_right__fold(m: &G) { m.iter_right().for_each(|x| sink(x)) }
pub fn gm_iter_right__nth(m: &G) { let mut it = m.iter_right(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn gm_iter_right__count(m: &G) { let c = m.iter_right(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn gm_iter_right__fused(m: &G) { let mut it = m.iter_right(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn gm_iter_paired(m: &G) { for x in m.iter_paired() { sink(x) } }
pub fn gm_iter_paired__clone(m: &G) { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn gm_iter_paired__hint(m: &G) { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn gm_iter_paired__len(m: &G) { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn gm_iter_paired__fold(m: &G) { m.iter_paired().for_each(|x| sink(x)) }
pub fn gm_iter_paired__nth(m: &G) { let mut it = m.iter_paired(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn gm_iter_paired__count(m: &G) { let c = m.iter_paired(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn gm_iter_paired__fused(m: &G) { let mut it = m.iter_paired(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn gm_iter_unpaired(m: &G) { for x in m.iter_unpaired() { sink(x) } }
pub fn gm_iter_unpaired__clone(m: &G) { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } }
pub fn gm_iter_unpaired__hint(m: &G) { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } }
pub fn gm_iter_unpaired__len(m: &G) { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let n = it.len(); exact(n); for x in it { sink_a(x) } }
pub fn gm_iter_unpaired__fold(m: &G) { m.iter_unpaired().for_each(|x| sink(x)) }
pub fn gm_iter_unpaired__nth(m: &G) { let mut it = m.iter_unpaired(); while let Some(x) = it.nth(0) { sink(x) } }
pub fn gm_iter_unpaired__count(m: &G) { let c = m.iter_unpaired(); let n = c.clone().count(); exact(n); for x in c { sink_a(x) } }
pub fn gm_iter_unpaired__fused(m: &G) { let mut it = m.iter_unpaired(); while let Some(x) = it.next() { sink(x) } match it.next() { Some(x) => sink_a(x), None => {} } }
pub fn cm_retain(m: &mut C) { m.retain(|l, r| pred_lr(l, r)) }
pub fn pm_retain(m: &mut P) { m.retain(|p| pred_op(p)) }
pub fn pm_retain_paired(m: &mut P) { m.retain_paired(|l, r| pred_lr(l, r)) }
pub fn pm_retain_unpaired(m: &mut P) { m.retain_unpaired(|p| pred_op(p)) }
pub fn gm_retain_paired(m: &mut G) { m.retain_paired(|l, r| pred_lr(l, r)) }
pub fn gm_retain_unpaired(m: &mut G) { m.retain_unpaired(|r| pred_r(r)) }
pub fn cm_insert(m: &mut C, l: KL, r: KR) -> InsertOptional<KL, KR> { m.insert(l, r) }
pub fn cm_remove(m: &mut C, l: &KL, r: &KR) -> Option<(KL, KR)> { m.remove(l, r) }
pub fn cm_remove_via_left(m: &mut C, l: &KL) -> Option<(KL, KR)> { m.remove_via_left(l) }
pub fn cm_remove_via_right(m: &mut C, r: &KR) -> Option<(KL, KR)> { m.remove_via_right(r) }
pub fn cm_swap_left(m: &mut C, old: &KL, new: KL) -> OptionalPair<KL, (KL, KR)> { m.swap_left(old, new) }
pub fn cm_swap_left_checked(m: &mut C, old: &KL, expected: &KR, new: KL) -> OptionalPair<KL, (KL, KR)> { m.swap_left_checked(old, expected, new) }
pub fn cm_swap_left_or_insert(m: &mut C, old: &KL, new: KL, to_insert: KR) -> OptionalPair<KL, (KL, KR)> { m.swap_left_or_insert(old, new, to_insert) }
pub fn pm_swap_left(m: &mut P, old: &KL, new: KL) -> OptionalPair<KL, OptionalPair<KL, KR>> { m.swap_left(old, new) }
pub fn pm_swap_left_checked(m: &mut P, old: &KL, expected: &KR, new: KL) -> OptionalPair<KL, OptionalPair<KL, KR>> { m.swap_left_checked(old, expected, new) }
pub fn pm_swap_left_or_insert(m: &mut P, old: &KL, new: KL, to_insert: KR) -> OptionalPair<KL, OptionalPair<KL, KR>> { m.swap_left_or_insert(old, new, to_insert) }
pub fn pm_insert_left(m: &mut P, x: KL) -> OptionalPair<KL, KR> { m.insert_left(x) }
pub fn pm_remove_left(m: &mut P, x: &KL) -> Option<KL> { m.remove_left(x) }
pub fn pm_remove_via_left(m: &mut P, x: &KL) -> OptionalPair<KL, KR> { m.remove_via_left(x) }
pub fn pm_is_left_paired(m: &P, x: &KL) -> bool { m.is_left_paired(x) }
pub fn cm_swap_right(m: &mut C, old: &KR, new: KR) -> OptionalPair<KR, (KL, KR)> { m.swap_right(old, new) }
pub fn cm_swap_right_checked(m: &mut C, old: &KR, expected: &KL, new: KR) -> OptionalPair<KR, (KL, KR)> { m.swap_right_checked(old, expected, new) }
pub fn cm_swap_right_or_insert(m: &mut C, old: &KR, new: KR, to_insert: KL) -> OptionalPair<KR, (KL, KR)> { m.swap_right_or_insert(old, new, to_insert) }
pub fn pm_swap_right(m: &mut P, old: &KR, new: KR) -> OptionalPair<KR, OptionalPair<KL, KR>> { m.swap_right(old, new) }
pub fn pm_swap_right_checked(m: &mut P, old: &KR, expected: &KL, new: KR) -> OptionalPair<KR, OptionalPair<KL, KR>> { m.swap_right_checked(old, expected, new) }
pub fn pm_swap_right_or_insert(m: &mut P, old: &KR, new: KR, to_insert: KL) -> OptionalPair<KR, OptionalPair<KL, KR>> { m.swap_right_or_insert(old, new, to_insert) }
pub fn pm_insert_right(m: &mut P, x: KR) -> OptionalPair<KL, KR> { m.insert_right(x) }
pub fn pm_remove_right(m: &mut P, x: &KR) -> Option<KR> { m.remove_right(x) }
pub fn pm_remove_via_right(m: &mut P, x: &KR) -> OptionalPair<KL, KR> { m.remove_via_right(x) }
pub fn pm_is_right_paired(m: &P, x: &KR) -> bool { m.is_right_paired(x) }
pub fn pm_insert(m: &mut P, l: KL, r: KR) -> (OptionalPair<KL, KR>, OptionalPair<KL, KR>) { m.insert(l, r) }
pub fn pm_pair(m: &mut P, l: &KL, r: &KR) -> bool { m.pair(l, r) }
pub fn pm_pair_forced(m: &mut P, l: &KL, r: &KR) { { let x = m.pair_forced(l, r); sink(x) } }
pub fn pm_pair_forced_remove(m: &mut P, l: &KL, r: &KR) -> OptionalPair<KL, KR> { m.pair_forced_remove(l, r) }
pub fn pm_unpair(m: &mut P, l: &KL, r: &KR) -> bool { m.unpair(l, r) }
pub fn pm_remove(m: &mut P, l: &KL, r: &KR) -> Option<(KL, KR)> { m.remove(l, r) }
pub fn gm_insert(m: &mut G, l: KL, r: KR) { m.insert(l, r) }
pub fn gm_insert_remove(m: &mut G, l: KL, r: KR) -> (Option<KL>, Option<(HashSet<KL>, KR)>) { m.insert_remove(l, r) }
pub fn gm_insert_left(m: &mut G, l: KL, r: &KR) -> Option<KL> { m.insert_left(l, r) }
pub fn gm_insert_right(m: &mut G, r: KR) -> Option<(HashSet<KL>, KR)> { m.insert_right(r) }
pub fn gm_swap_right(m: &mut G, old: &KR, new: KR) { m.swap_right(old, new) }
pub fn gm_swap_right_remove(m: &mut G, old: &KR, new: KR) -> Option<KR> { m.swap_right_remove(old, new) }
pub fn gm_pair(m: &mut G, l: &KL, r: &KR) -> bool { m.pair(l, r) }
pub fn gm_is_right_paired(m: &G, r: &KR) -> bool { m.is_right_paired(r) }
pub fn gm_remove(m: &mut G, l: &KL, r: &KR) -> Option<(HashSet<KL>, KR)> { m.remove(l, r) }
pub fn gm_remove_left(m: &mut G, l: &KL) -> Option<KL> { m.remove_left(l) }
pub fn gm_remove_right(m: &mut G, r: &KR) -> Option<(HashSet<KL>, KR)> { m.remove_right(r) }
pub fn gm_get_left_iter(m: &G, r: &KR) -> bool { match m.get_left_iter(r) { Some(it) => { for x in it { sink(x) } true } None => false } }
pub fn gm_get_left_iter_q(m: &G, r: &QR) -> bool { match m.get_left_iter(r) { Some(it) => { for x in it { sink(x) } true } None => false } }
pub fn gm_get_left_iter__hint(m: &G, r: &KR) { match m.get_left_iter(r) { Some(mut it) => { while nondet() { match it.next() { Some(x) => sink(x), None => break } } let (lo, hi) = it.size_hint(); hint(lo, hi); for x in it { sink_a(x) } } None => {} } }
pub fn gm_get_left_iter__len(m: &G, r: &KR) { match m.get_left_iter(r) { Some(mut it) => { while nondet() { match it.next() { Some(x) => sink(x), None => break } } exact(it.len()); for x in it { sink_a(x) } } None => {} } }
pub fn gm_get_left_iter__clone(m: &G, r: &KR) { match m.get_left_iter(r) { Some(mut it) => { while nondet() { match it.next() { Some(x) => sink(x), None => break } } let c = it.clone(); for x in it { sink_a(x) } for x in c { sink_b(x) } } None => {} } }
#[cfg(feature = "serde_maps")]
pub fn cm_serialize(m: &C, s: Ser) -> Result<Done, E> { serde::Serialize::serialize(m, s) }
#[cfg(feature = "serde_maps")]
pub fn cm_deserialize(d: De) -> Result<C, E> { serde::Deserialize::deserialize(d) }
pub fn op_is_none(p: &OptionalPair<KL, KR>) -> bool { p.is_none() }
pub fn op_is_some(p: &OptionalPair<KL, KR>) -> bool { p.is_some() }
pub fn op_get_left(p: &OptionalPair<KL, KR>) -> Option<&KL> { p.get_left() }
pub fn op_get_right(p: &OptionalPair<KL, KR>) -> Option<&KR> { p.get_right() }
pub fn op_from_tuple(p: (Option<KL>, Option<KR>)) -> OptionalPair<KL, KR> { OptionalPair::from(p) }
pub fn op_from_opt(p: Option<(Option<KL>, Option<KR>)>) -> OptionalPair<KL, KR> { OptionalPair::from(p) }
pub fn op_to_tuple(p: OptionalPair<KL, KR>) -> (Option<KL>, Option<KR>) { p.into() }
pub fn op_to_opt(p: OptionalPair<KL, KR>) -> Option<(Option<KL>, Option<KR>)> { p.into() }
pub fn op_map(p: OptionalPair<KL, KR>) -> OptionalPair<(KL, ()), (KR, ())> { p.map(|l| (l, ()), |r| (r, ())) }
pub fn op_map_left(p: OptionalPair<KL, KR>) -> OptionalPair<(KL, ()), KR> { p.map_left(|l| (l, ())) }
pub fn op_map_right(p: OptionalPair<KL, KR>) -> OptionalPair<KL, (KR, ())> { p.map_right(|r| (r, ())) }
pub fn op_convert(p: OptionalPair<KL, KR>) -> OptionalPair<Option<KL>, Option<KR>> { p.convert() }
pub fn op_cloned(p: &OptionalPair<&KL, &KR>) -> OptionalPair<KL, KR> { p.cloned() }
pub fn op_clone(p: &OptionalPair<KL, KR>) -> OptionalPair<KL, KR> { p.clone() }
pub fn op_eq(p: &OptionalPair<KL, KR>, q: &OptionalPair<KL, KR>) -> bool { p == q }
pub fn cm_debug(m: &C, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(m, f) }
pub fn pm_debug(m: &P, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(m, f) }
pub fn gm_debug(m: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(m, f) }
pub fn cm_iter__debug(m: &C, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn cm_iter_left__debug(m: &C, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn cm_iter_right__debug(m: &C, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn pm_iter__debug(m: &P, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn pm_iter_left__debug(m: &P, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn pm_iter_right__debug(m: &P, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn pm_iter_paired__debug(m: &P, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn pm_iter_unpaired__debug(m: &P, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn gm_iter__debug(m: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn gm_iter_left__debug(m: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_left(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn gm_iter_right__debug(m: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_right(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn gm_iter_paired__debug(m: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_paired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn gm_iter_unpaired__debug(m: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut it = m.iter_unpaired(); while nondet() { match it.next() { Some(x) => sink(x), None => break } } let r = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } r }
pub fn gm_get_left_iter__debug(m: &G, r: &KR, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match m.get_left_iter(r) { Some(mut it) => { while nondet() { match it.next() { Some(x) => sink(x), None => break } } let z = std::fmt::Debug::fmt(&it, f); for x in it { sink_b(x) } z } None => Ok(()) } }
pub fn op_debug(p: &OptionalPair<KL, KR>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(p, f) }
