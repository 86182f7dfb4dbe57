#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
K = []


def k(id, harnesses, cat, what, why):
    for h in harnesses:
        K.append({'id': id, 'harness': h, 'category': cat, 'what': what, 'note': why})


k('KF1', ['gm_insert', 'gm_extend', 'gm_extend_opt', 'gm_from_iter', 'gm_from_iter_opt'], 'reinsert',
  'inserting a pair that is already paired tears it apart',
  'GroupMap::insert(l, r) with l already in r\'s group adds the pair to the group and then removes it from its old group, '
  'which is the same one: l names r while r\'s group does not contain it. tests/group_map.rs (insert_tests) pins the resulting '
  'map, so a repair would fail the existing suite. History: insert(1, "1"); insert(1, "1").')
k('KF2', ['gm_retain_paired', 'gm_retain_unpaired', 'pm_retain', 'pm_retain_paired', 'pm_retain_unpaired'], 'inverted',
  'elements are dropped when the predicate returns True',
  'The documentation says "Retains only the elements specified by the predicate"; these methods drop the elements for '
  'which it returns true. The existing tests pin the inverted polarity.')
k('KF3', ['pm_retain'], 'pred', 'the predicate is never called for an unpaired right item',
  'PartialCycleMap::retain walks iter(), which never yields unpaired right items; pinned by the existing tests.')
k('KF4', ['pm_iter', 'pm_iter__clone', 'pm_iter__count', 'pm_iter__fold', 'pm_iter__fused', 'pm_iter__hint', 'pm_iter__len',
         'pm_iter__nth'],
  'yield', 'iteration: SomeRight is not yielded',
  'PartialCycleMap::iter documents all elements but walks the left side only; the existing tests pin len and contents.')
k('KF5', ['pm_eq', 'pm_ne'], 'ret', 'reports maps as equal although one holds {} where the other holds {l1~-}',
  'PartialCycleMap::eq ignores unpaired left items that only the right-hand map holds; an existing test compares such '
  'maps as equal.')

F = [
    ('C02', 'cc01bc7', 'swap_left/swap_right with an absent old item removed the pair of the new item (CycleMap and PartialCycleMap)'),
    ('C07', '047f2db', 'CycleMap::swap_right_or_insert panicked'),
    ('C12', '829d110', 'dropping a CycleMap drain early left the right side populated'),
    ('C12', '342f6c2', 'PartialCycleMap drain lost unpaired right items and reported wrong lengths'),
    ('C13', '5632c8e', 'PartialCycleMap drain_filter visited paired right items a second time'),
    ('C04', 'b20cf43', 'PartialCycleMap::unpair separated items by hash without checking that they are paired together'),
    ('C07', 'ce6a962', 'PartialCycleMap::swap_left_or_insert/swap_right_or_insert panicked'),
    ('C15', '410f492', 'PartialCycleMap equality ignored unpaired items and the right-hand length'),
    ('C06', 'ca1e128', 'GroupMap::swap_right/swap_right_remove broke the group of the replaced item'),
    ('C05', '978cca0', 'GroupMap::retain_paired left removed left items in their group'),
    ('C15', '24e3cf1', 'GroupMap equality reported different maps as equal'),
    ('C10', '23bd2c2', 'cloned GroupMap Iter restarted the unpaired part'),
    ('C11', '7cd5067', 'size hints of several GroupMap and PartialCycleMap iterators were wrong'),
    ('C17', '926c9b9', 'deserialization allocated whatever the size hint of the input claimed'),
    ('C25', 'bbe442e', 'Debug of a PartialCycleMap left out the unpaired right items'),
    ('C28', '88cf88f', 'leaking a CycleMap or PartialCycleMap drain left right items without partners in the map; later calls panicked'),
    ('C21', 'ec81f6f', 'capacity() of a CycleMap could exceed what its right table holds without reallocation'),
]
json.dump({'known': K, 'fixed': ['fixed: property=%s %s %s' % f for f in F]},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.json'), 'w'), indent=1)
