"""Equality and hashing of value objects, faithful copies, rejected
operations."""

import ast

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, law, defaults, Canon, callee
from ..world import ClassInfo
from . import rule

# ------------------------------------------------------- equality and hashing

EQUALITY = {
    'action.Condition': 'np.array_equal(self.mask, other.mask) and '
                        'np.array_equal(self.value, other.value)',
    'action.MatchAllCondition': 'True',
    'action.PrePostConditionAction':
        'self.pre == other.pre and self.post == other.post',
    'state.NDimensionalState':
        'np.array_equal(self.features, other.features)',
    'task.AbstractAction': 'self.name == other.name',
    'task.MetaAction':
        'self.kind == other.kind and self.actions == other.actions',
    'task.BaseGraph':
        'set(self.all_transitions()) == set(other.all_transitions())',
    'task.TaskGraph':
        'set(self.all_transitions()) == set(other.all_transitions()) and '
        'self.initial == other.initial and self.terminal == other.terminal',
    'snap_circuit.SnapCircuitPart':
        'self.id == other.id and self.label == other.label',
    'snap_circuit.SnapCircuitState':
        'self.board_rows == other.board_rows and '
        'self.board_cols == other.board_cols and '
        'self._parts == other._parts',
    'lib.belief.ArrayBelief': 'np.array_equal(self.array, other.array)',
}
# Attributes that hold lists or sets (cliques are sets)
COLLECTIONS = {'task.MetaAction': ('actions',)}
# Used as members of sets or keys of dictionaries.
HASHABLE = [c for c in EQUALITY if c not in ('task.BaseGraph',
                                             'task.TaskGraph')]


@rule('C01')
def equality(ctx):
    equal(ctx, sorted(EQUALITY))


@rule('C06')
def equal_beliefs(ctx):
    equal(ctx, ['lib.belief.ArrayBelief'])


def equal(ctx, classes):
    for c in classes:
        cond = EQUALITY[c]
        ci = ctx.world.cls(c)
        owner = ci.find('__eq__')
        if owner is None:
            ctx.bad('equality', c, 'compared by identity',
                    '%s:%d' % (ci.module.path, ci.node.lineno))
            continue
        law(ctx, 'equality', ci.find('__eq__').fns['__eq__'], '''
            def f(self, other):
                return True if self.__eq__(other) else False
            ''', '''
            def f(self, other):
                if not isinstance(other, %s):
                    return False
                return True if %s else False
            ''' % (c.split('.')[-1], cond), 'equality of ' + c, cls=ci,
            calls=('numpy.allclose', 'numpy.isclose', 'math.isclose'),
            transform=arrays_compared)
        kind_compared(ctx, c, ci)


def arrays_compared(t):
    """Arrays compared by their shapes and items, as array_equal does."""
    if not isinstance(t, T.Term) or t.op != 'ite':
        return t
    same = {}       # atom -> (arrays, whether it holds when they are equal)
    sizes = {}      # arrays -> atoms implied by their being equal
    for a in T.atoms(t):
        if a.op == 'truth' and a.args[0].op == 'mcall' and \
                a.args[0].args[1] == 'all' and not a.args[0].args[2] and \
                a.args[0].args[0].op == 'arrcmp' and \
                a.args[0].args[0].args[0] == 'Eq':
            same[a] = (frozenset(a.args[0].args[0].args[1:]), True)
        elif a.op == 'exists' and a.args[1].op == 'bind':
            iv = T.fresh_iv()
            c = T.open_bind(a.args[1], iv)
            e = T.not_(c)
            if e.op == 'ite' and e.args[0].op == 'eq' and \
                    e.args[1] is T.TRUE and e.args[2] is T.FALSE:
                x, y = e.args[0].args
                if x.op == y.op == 'idx' and x.args[1] is y.args[1] is iv:
                    same[a] = (frozenset((x.args[0], y.args[0])), False)
        elif a.op == 'eq' and all(isinstance(x, T.Term) for x in a.args):
            x, y = a.args
            if x.op == y.op == 'len' or x.op == y.op == 'fld' and \
                    x.args[1] == y.args[1] == 'shape':
                sizes.setdefault(frozenset((x.args[0], y.args[0])),
                                 []).append(a)
            elif x.op == y.op == 'mcall' and x.args[1] == y.args[1] == \
                    'tolist':
                same[a] = (frozenset((x.args[0], y.args[0])), True)
    for a, (pair, positive) in same.items():
        tolist = a.op == 'eq'
        if len(pair) != 2 or not (tolist or pair in sizes):
            continue
        x, y = sorted(pair, key=lambda v: T.show(v, 6) != 'self' and
                      not T.contains(v, mk('sym', 'self')))
        c = T.cond(mk('truth', mk('call', 'numpy.array_equal', (x, y), ())))
        yes, no = T.assume(t, a, positive), T.assume(t, a, not positive)
        for z in sizes.get(pair, ()):
            yes = T.assume(yes, z, True)
            if T.assume(no, z, True) is T.assume(no, z, False):
                no = T.assume(no, z, True)
            else:
                break
            # items of arrays of different shapes are not compared
            if T.assume(t, z, False) is not no:
                break
        else:
            t = T.ite(c, yes, no)
    return t


LOOKS = ('builtins.type', 'builtins.isinstance', 'builtins.issubclass',
         'builtins.getattr', 'builtins.hasattr')


def kind_compared(ctx, c, ci):
    """Nothing else than the kind of an object of another kind decides that
    it differs."""
    eq = ci.find('__eq__').fns['__eq__']
    what = 'kind of what is compared with ' + c
    try:
        r = ctx.run(ctx.spec('''
            def f(self, other):
                return True if self.__eq__(other) else False
            ''', like=eq), cls=ci)
        k = ctx.run(ctx.spec('''
            def f(self, other):
                return True if isinstance(other, %s) else False
            ''' % c.split('.')[-1], like=eq), cls=ci)
        if r.interp.unsupported or r.st.dead or k.val.op != 'ite':
            ctx.unknown('equality', what, 'not understood')
            return
        v = T.constrain(Canon(r.interp)(r.val), T.not_(k.val))
    except (T.Limit, RecursionError) as e:
        ctx.unknown('equality', what, 'analysis limit: %s' % e)
        return
    if v is T.FALSE:
        ctx.ok('equality', what)
        return
    asked = [x for x in T.subterms(v) if isinstance(x, T.Term) and (
        x.op in ('isinstance', 'type', 'closure', 'unsupported') or
        x.op == 'fld' and x.args[1] == '__class__' or
        x.op in ('call', 'mcall', 'icall', 'rcall') and (
            callee(x) in LOOKS or 'except' in str(callee(x))))]
    tried = any(isinstance(n, (ast.Try, getattr(ast, 'TryStar', ast.Try)))
                for n in ast.walk(eq.node))
    ctx.decide('equality', what, None if asked or tried else False,
               'objects of another kind may be equal: %s' % T.show(v, 8),
               '%s:%d' % (ci.module.path, eq.node.lineno))


@rule('C01')
def hashing(ctx):
    """Equal objects have equal hashes: the hash only depends on what __eq__
    compares, through functions that respect that comparison."""
    for ci in sorted(ctx.world.classes.values(), key=lambda c: c.qualname):
        name = ci.qualname.replace('task_models.', '')
        if '__eq__' in ci.fns and '__hash__' not in ci.members:
            if name in HASHABLE:
                ctx.bad('hashable', name, 'defines __eq__ but not __hash__: '
                        'its instances are not hashable', '%s:%d' % (
                            ci.module.path, ci.node.lineno))
            continue
        owner = ci.find('__hash__')
        eq = ci.find('__eq__')
        if owner is None or '__hash__' not in owner.fns or (
                '__eq__' not in ci.fns and '__hash__' not in ci.fns):
            continue
        if eq is None:
            continue
        h = ctx.run(owner.fns['__hash__'], cls=ci)
        e = ctx.run(ctx.spec('''
            def f(self, other):
                return True if self.__eq__(other) else False
            ''', like=eq.fns['__eq__']), cls=ci)
        if h.st.dead or e.st.dead:
            continue        # abstract methods
        if h.interp.unsupported or e.interp.unsupported:
            ctx.unknown('hash', name, 'unsupported construct')
            continue
        v = hash_depends(ctx, ci, h, e)
        bad = unhashable(owner.fns['__hash__'].node)
        if bad:
            v = (False, 'hash of %s, which cannot be hashed' % bad)
        ctx.decide('hash', name, v[0], v[1], '%s:%d' % (
            ci.module.path, owner.fns['__hash__'].node.lineno))


MUTABLE = ('list', 'set', 'dict', 'bytearray', 'sorted', 'tolist', 'ravel',
           'flatten', 'array', 'asarray', 'reshape')


def unhashable(fn):
    """What __hash__ gives to hash() (directly or in a tuple) that is a
    container that can be changed."""
    values = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    values.setdefault(t.id, []).append(x.value)

    def mutable(x, depth=0):
        if isinstance(x, (ast.List, ast.ListComp, ast.Set, ast.SetComp,
                          ast.Dict, ast.DictComp)):
            return ast.unparse(x)
        if isinstance(x, ast.Tuple):
            for y in x.elts:
                m = mutable(y, depth)
                if m:
                    return m
        if isinstance(x, ast.Name) and len(values.get(x.id, ())) == 1 and \
                depth < 4:
            return mutable(values[x.id][0], depth + 1)
        if isinstance(x, ast.Call):
            f = x.func
            n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(
                f, ast.Attribute) else ''
            if n in MUTABLE:
                return ast.unparse(x)
        return None
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'hash' and len(x.args) == 1:
            m = mutable(x.args[0])
            if m:
                return m
    return None


def in_order(x):
    """Whether the value depends on the order of a collection."""
    if isinstance(x, tuple):
        return any(in_order(y) for y in x)
    if not isinstance(x, T.Term):
        return False
    if x.op == 'sym':
        return str(x.args[0]).startswith('<collection')
    if x.op in ('set', 'sorted', 'sum', 'len', 'exists', 'in', 'truth') or \
            x.op in ('call', 'mcall') and str(callee(x)).split('.')[-1] in (
                'sum', 'max', 'min', 'sorted', 'len', 'any', 'all'):
        return False
    return any(in_order(y) for y in x.args)


VALUE_OPS = set(['const', 'seq', 'set', 'dict', 'idx', 'len', 'map', 'bnd',
                 'bind', 'key', 'poly', 'ite', 'eq', 'lt', 'strcat', 'iv',
                 'mod', 'cls', 'ext', 'elts', 'elt', 'fld', 'keys', 'flat',
                 'sorted', 'in', 'e', 's', 'm', 'exists', 'bool', 'isinstance'])
VALUE_CALLS = set(['builtins.hash', '.ravel', '.flatten', '.tolist',
                   'builtins.tuple', 'builtins.sum', '.sum', 'numpy.ravel',
                   'builtins.len', '.any', '.all', '.max', '.min', 'join'])
# Different for values that compare equal.
IDENTITY_CALLS = set(['builtins.id', '.tobytes', '.tostring',
                      'builtins.repr', 'builtins.object.__hash__',
                      'super.__hash__'])


def hash_depends(ctx, ci, h, e):
    from ..rule import vocabulary
    s, o = mk('sym', 'self'), mk('sym', 'other')
    keys = []
    total = arrays_compared(Canon(e.interp)(e.val))
    if total.op != 'ite' and total.op not in ('eq', 'call', 'isinstance',
                                              'const'):
        return None, 'equality is not understood'
    for a in T.subterms(total):
        pair = None
        if a.op == 'eq':
            pair = a.args
        elif a.op == 'truth' and a.args[0].op == 'call' and \
                a.args[0].args[0] == 'numpy.array_equal' and \
                len(a.args[0].args[1]) == 2:
            pair = a.args[0].args[1]
        if pair is None or not all(isinstance(x, T.Term) for x in pair):
            continue
        x, y = pair
        if T.contains(x, o):
            x, y = y, x
        if T.contains(x, s) and not T.contains(x, o) and \
                T.subst(x, {s: o}) is y:
            c = T.cond(a)
            if T.implies(total, c):
                keys.append((x, 'array' if a.op == 'truth' else 'value'))
    ht = h.val
    m = {}
    for i, (k, kind) in enumerate(keys):
        if kind == 'value' and 'set' in (h.interp.kind_of(h.st, k),
                                         'set' if k.op == 'set' else ''):
            kind = 'set'
        if k.op == 'fld' and k.args[1] in COLLECTIONS.get(
                ci.qualname.replace('task_models.', ''), ()):
            kind = 'collection'
        # comparing sets of elements compares what they are made of
        m[k] = mk('sym', '<%s %d>' % (kind, i))
    r = T.subst(ht, m)
    if in_order(r):
        return False, 'the hash depends on the order of the elements of a ' \
            'set: equal objects may have different hashes (%s)' % (
                T.show(ht, 6)[:300])
    ops, calls = vocabulary(r)
    bad = sorted(calls & IDENTITY_CALLS)
    if bad:
        return False, 'the hash depends on %s: equal objects may have ' \
            'different hashes (%s)' % (', '.join(bad), T.show(ht, 6)[:300])
    for x in T.subterms(r):
        if (x.op == 'call' and x.args[0] in ('builtins.str', 'builtins.repr',
                                             'builtins.format')
                or x.op in ('strcat', 'fmt')) and any(
                    y.op == 'sym' and y.args[0].startswith(('<array', '<set'))
                    for y in T.subterms(x)):
            return False, 'the hash depends on the representation of an ' \
                'array or of a set, which differs for equal ones'
    if T.contains(r, s):
        left = sorted(set(T.show(x, 3) for x in T.subterms(r)
                          if x.op == 'fld' and x.args[0] is s))
        asked = [a for a in T.atoms(total) if T.contains(a, s) and
                 a.op not in ('eq', 'isinstance') and not (
                     a.op == 'truth' and callee(a.args[0]) ==
                     'numpy.array_equal')]
        if asked:
            return None, 'equality is not understood'
        if left and not [c for c in calls if c not in VALUE_CALLS]:
            return False, 'the hash depends on %s, which equal objects may ' \
                'not share' % ', '.join(left)
        return None, 'hash not understood: ' + T.show(r, 6)[:300]
    for x in T.subterms(r):
        if x.op == 'elts' or (x.op == 'call' and x.args[0] == 'builtins.hash'
                              and x.args[1] and x.args[1][0].op == 'elts'):
            inside = [y for y in T.subterms(r) if y.op in ('sorted', 'set') and
                      T.contains(y, x)]
            if not inside:
                return False, 'the hash depends on the order of the ' \
                    'elements of a set'
    if (ops - VALUE_OPS - {'sym'}) or (calls - VALUE_CALLS):
        return None, 'hash not understood: %s' % sorted(
            (ops - VALUE_OPS - {'sym'}) | (calls - VALUE_CALLS))
    return True, ''


# -------------------------------------------------------------------- copies

def data_fields(world, ci):
    """Names of the instance fields assigned by the methods of a class."""
    out = set()
    for c in ci.mro:
        if not isinstance(c, ClassInfo):
            continue
        for f in list(c.fns.values()) + list(c.setters.values()):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and \
                        n.value.id == 'self':
                    out.add(n.attr)
    return sorted(f for f in out if not any(
        f in c.setters for c in ci.mro if isinstance(c, ClassInfo)))


@rule('C02')
def action_copies(ctx):
    base = ctx.world.cls('action.Action')
    for ci in sorted(ctx.world.classes.values(), key=lambda c: c.qualname):
        if base not in ci.mro:
            continue
        fs = data_fields(ctx.world, ci)
        rest = [f for f in fs if f != 'name']
        name = ci.qualname.replace('task_models.', '')
        law(ctx, 'action copy', ci.find('copy').fns['copy'], '''
            def f(self, fmt):
                c = self.copy(fmt)
                return (type(c) is type(self), c.name, %s)
            ''' % ''.join('c.%s, ' % f for f in rest), '''
            def f(self, fmt):
                return (True, fmt.format(self.name), %s)
            ''' % ''.join('self.%s, ' % f for f in rest),
            'copy of ' + name, cls=ci, fields=fs, calls=('.format',))
        law(ctx, 'action copy', ci.find('copy').fns['copy'], '''
            def f(self):
                return self.copy().name
            ''', '''
            def f(self):
                return '{}'.format(self.name)
            ''', 'name of a plain copy of ' + name, cls=ci)


KINDS = ('Sequential', 'Parallel', 'Alternative')


@rule('C02')
def tree_copies(ctx):
    for k in KINDS:
        c = 'task.%sCombination' % k
        ci = ctx.world.cls(c)
        law(ctx, 'tree copy', ci.find('deep_copy').fns['deep_copy'], '''
            def f(self, fmt):
                c = self.deep_copy(fmt)
                return (type(c), c.kind, c.name, c.highlighted, c.proba,
                        c.children)
            ''', '''
            def f(self, fmt):
                c = %sCombination([x.deep_copy(rename_format=fmt)
                                   for x in self.children],
                                  probabilities=self.proba,
                                  name=fmt.format(self.name),
                                  highlighted=self.highlighted)
                return (%sCombination, '%s', fmt.format(self.name),
                        self.highlighted, c.proba, c.children)
            ''' % (k, k, k), 'deep copy of ' + c, cls=ci,
            fields=('_name', 'highlighted', 'children', 'idx', 'parent'))
    ci = ctx.world.cls('task.LeafCombination')
    law(ctx, 'tree copy', ci.find('deep_copy').fns['deep_copy'], '''
        def f(self, fmt):
            c = self.deep_copy(fmt)
            return (type(c), c.kind, c.highlighted, c.action)
        ''', '''
        def f(self, fmt):
            return (LeafCombination, None, self.highlighted,
                    self.action.copy(rename_format=fmt))
        ''', 'deep copy of a leaf', fields=('action', 'highlighted'),
        cls=ci)
    law(ctx, 'tree copy', ci.find('deep_copy').fns['deep_copy'], '''
        def f(self, fmt):
            return self.deep_copy(fmt).name
        ''', '''
        def f(self, fmt):
            return self.action.copy(rename_format=fmt).name
        ''', 'name of the copy of a leaf', cls=ci)
    equiv(ctx, 'unrolled parallel', 'task.ParallelCombination.to_alternative',
          '''
          def to_alternative(self):
              out = []
              for i, p in enumerate(permutations(self.children)):
                  out.append(SequentialCombination(
                      [c.deep_copy('{{}} order-{}'.format(i)) for c in p],
                      name='{} order-{}'.format(self.name, i)))
              return AlternativeCombination(out, name=self.name,
                                            highlighted=self.highlighted)
          ''', fields=('children', '_name', 'highlighted'))
    law(ctx, 'unrolled parallel', 'task.ParallelCombination.to_alternative',
        '''
        def f(children):
            return AlternativeCombination(children).proba
        ''', '''
        def f(children):
            return [1. / len(children)] * len(children)
        ''', 'probabilities of alternatives')


@rule('C02')
def plain_copies(ctx):
    """Nothing is renamed unless a format is given."""
    for c in ('action.Action.copy', 'task.LeafCombination.deep_copy',
              'task.AlternativeCombination.deep_copy',
              'task.ParallelCombination.deep_copy',
              'task.SequentialCombination.deep_copy'):
        defaults(ctx, 'name of a copy', c, rename_format='{}')


@rule('C02')
def state_copies(ctx):
    base = ctx.world.cls('lib.pomcp.Horizon')
    for ci in sorted(ctx.world.classes.values(), key=lambda c: c.qualname):
        if base not in ci.mro or ci is base:
            continue
        copier(ctx, ci, 'horizon copy', [])
    copier(ctx, ctx.world.cls('supportive._SupportivePOMDPState'),
           'state copy', [])


def copier(ctx, ci, rule, skip):
    fs = [f for f in data_fields(ctx.world, ci) if f not in skip]
    fn = ci.find('copy').fns.get('copy')
    if fn is None:
        return
    law(ctx, rule, fn, '''
        def f(self):
            c = self.copy()
            return (type(c) is type(self), c is self, %s)
        ''' % ''.join('c.%s, ' % f for f in fs), '''
        def f(self):
            return (True, False, %s)
        ''' % ''.join('self.%s, ' % f for f in fs),
        'copy of ' + ci.qualname.replace('task_models.', ''), cls=ci,
        fields=fs)
