"""Which harnesses a property looks at, and which properties a finding violates."""
import specs

INV = {'cm': 'C01', 'pm': 'C03', 'gm': 'C05'}
OPS = {'cm': 'C02', 'pm': 'C04', 'gm': 'C06'}
QUERIES = ('get_left', 'get_left_q', 'get_right', 'get_right_q', 'get_left_iter', 'get_left_iter_q', 'contains_left',
           'contains_right', 'are_paired', 'is_left_paired', 'is_right_paired', 'len', 'len_left', 'len_right',
           'is_empty', 'hasher', 'capacity', 'capacity_left', 'capacity_right')
CAP = ('capacity', 'capacity_left', 'capacity_right', 'reserve', 'try_reserve', 'reserve_left', 'reserve_right',
       'try_reserve_left', 'try_reserve_right', 'shrink_to', 'shrink_to_fit', 'shrink_to_left', 'shrink_to_right',
       'clear', 'with_capacity', 'with_capacity_and_hasher')
CTORS = ('new', 'default', 'with_hasher', 'with_capacity', 'with_capacity_and_hasher')
CONSUMING = ('from_iter', 'from_iter_op', 'from_iter_opt', 'deserialize')


def group(name):
    """(prefix, operation, variant, family) of a harness"""
    b, _, var = name.partition('__')
    pre, _, op = b.partition('_')
    if op == 'debug' or var == 'debug':
        fam = 'debug'
    elif pre == 'op':
        fam = 'optional'
    elif op.startswith('iter') or op.startswith('get_left_iter'):
        fam = 'iter'
    elif op == 'drain':
        fam = 'drain'
    elif op == 'drain_filter':
        fam = 'drain_filter'
    elif op.startswith('retain'):
        fam = 'retain'
    elif op in ('eq', 'ne', 'eq_self'):
        fam = 'eq'
    elif op in ('clone', 'clone_from'):
        fam = 'clone'
    elif op in ('serialize', 'deserialize'):
        fam = 'serde'
    elif op.startswith('extend') or op.startswith('from_iter'):
        fam = 'extend'
    elif op in QUERIES:
        fam = 'query'
    elif op in CTORS:
        fam = 'ctor'
    elif op in CAP:
        fam = 'cap'
    else:
        fam = 'mutator'
    return pre, op, var, fam


FAM = {'iter': 'C10', 'drain': 'C12', 'drain_filter': 'C13', 'retain': 'C14', 'eq': 'C15', 'clone': 'C16',
       'serde': 'C17', 'extend': 'C18', 'optional': 'C19', 'query': 'C09', 'debug': 'C25'}

MUTATING = ('mutator', 'drain', 'drain_filter', 'retain', 'extend', 'serde', 'clone', 'cap', 'ctor')


def base_props(name):
    """the properties whose statement covers what the harness's operation is for"""
    pre, op, var, fam = group(name)
    s = set()
    if fam in FAM:
        s.add(FAM[fam])
    if fam in ('mutator',):
        s.add(OPS[pre])
    if fam == 'query':
        s.add(OPS[pre])
    if fam == 'iter' and op.startswith('get_left_iter'):
        s |= {'C09', OPS[pre]}
    if op in CAP:
        s.add('C21')
    if op in CTORS:
        s |= {'C21', 'C22'}
    if op in ('hasher',):
        s.add('C22')
    if op == 'clear':
        s.add(OPS[pre])
    return s


def props(name, cat, kind='ret', collision=False):
    """the properties a finding of category `cat` in harness `name` violates"""
    if name.endswith('@wild'):
        return {'C29'}
    pre, op, var, fam = group(name)
    if var == 'leak':
        return {'C28'} if cat != 'nontermination' else {'C30'}
    s = base_props(name)
    if pre == 'op':
        return s | ({'C07'} if cat == 'panic' else set())
    if cat in ('invariant', 'counter', 'shape', 'units'):
        s |= {INV[pre]}
    if cat in ('panic', 'unwind'):
        s |= {'C07'}
    if cat == 'hint' or var in ('hint', 'len', 'count') and cat in ('ret', 'panic', 'unwind'):
        s |= {'C11'}
    if cat in ('dangling', 'unreachable', 'iterator-invalidated'):
        s |= {'C24', INV[pre]}
    if cat in ('builder', 'rehash'):
        s |= {'C22', INV[pre]}
    if cat == 'memory':
        s |= {'C21'}
    if cat in ('dup', 'forgotten'):
        s |= {'C27'}
    if cat == 'double-count':
        s |= {INV[pre]}
    if cat == 'nontermination':
        s |= {'C30'}
    if cat == 'unbounded-allocation':
        s |= {'C17'}
    if cat == 'pure':
        s |= {'C09'}
    if cat in ('unchanged', 'reinsert'):
        s |= {'C26'}
    if cat == 'reinsert':
        s |= {INV[pre]}
    if kind == 'unw' or cat == 'panicstate':
        s |= {'C23', INV[pre]}
    if collision:
        s |= {'C08'}
    return s


def mode(prop):
    """C29 is decided on arbitrary tables with arbitrary answers of Hash and Eq"""
    return '@wild' if prop == 'C29' else ''


def relevant(prop, name):
    """does the check of `prop` have to analyse harness `name`?"""
    pre, op, var, fam = group(name)
    if prop == 'C29':
        return pre != 'op'
    if prop == 'C30':
        return pre != 'op'
    if prop == 'C31':
        return True
    if (var == 'leak') != (prop == 'C28'):
        return var == 'leak' and prop == 'C28'
    if prop == 'C28':
        return True
    if prop in ('C07', 'C24', 'C08'):
        return prop == 'C07' or pre != 'op'
    if prop in ('C01', 'C03', 'C05'):
        return INV.get(pre) == prop and fam in MUTATING
    if prop == 'C11':
        return var in ('hint', 'len', 'count') or op in ('len', 'len_left', 'len_right') or fam == 'iter'
    if prop == 'C22':
        return pre != 'op' and (fam in MUTATING or op == 'hasher')
    if prop == 'C21':
        return op in CAP or op in CTORS or op in ('drain', 'len', 'len_left', 'len_right') or fam == 'retain'
    if prop == 'C27':
        return fam in MUTATING and pre != 'op'
    if prop == 'C26':
        return fam in ('mutator', 'extend')
    if prop == 'C23':
        return fam in ('retain', 'drain_filter')
    if prop == 'C09':
        return fam == 'query' or op.startswith('get_left_iter') or fam in ('iter', 'eq', 'serde')
    return prop in base_props(name)
