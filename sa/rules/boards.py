"""Boards, conditions and placements; example problems."""

from .. import terms as T
from ..world import AnchorError
from ..terms import mk, const
from ..rule import equiv, law, Canon, understood, watch
from ..tables import Layout, Unknown, regions
from . import rule

A = 'action.'
S = 'snap_circuit.'


@rule('C33')
def conditions(ctx):
    wrong = ('numpy.allclose', '.sum', '.any', '.max', '.min',
             'numpy.ones_like', 'numpy.zeros_like')

    def arrays(I, st):
        s = mk('sym', 'self')
        for x in (mk('fld', s, 'mask'), mk('fld', s, 'value')):
            I.term_kind[x] = 'array'
    law(ctx, 'condition', A + 'Condition.check', '''
        def f(self, state):
            return True if self.check(state) else False
        ''', '''
        def f(self, state):
            ok = (state.get_features() * self.mask == self.value).all()
            return True if ok else False
        ''', 'Condition.check', setup=arrays, calls=wrong)
    equiv(ctx, 'condition', A + 'Condition.__init__', '''
        def __init__(self, mask, value):
            outside = (1 - mask) * value
            if np.count_nonzero(outside):
                raise ValueError()
            self.value = value
            self.mask = mask
        ''', fields=('mask', 'value'), types={'mask': 'array',
                                              'value': 'array'},
          calls=wrong, accept=tuple('''
        def __init__(self, mask, value):
            if %s:
                raise ValueError()
            self.value = value
            self.mask = mask
        ''' % x for x in ('np.any((1 - mask) * value)',
                          'np.any(value[mask == 0])',
                          'not np.array_equal(mask * value, value)',
                          '(mask * value != value).any()')))
    equiv(ctx, 'condition', A + 'MatchAllCondition.check', '''
        def check(self, state):
            return True
        ''')
    law(ctx, 'action', A + 'PrePostConditionAction.check', '''
        def f(self, before, after):
            return True if self.check(before, after) else False
        ''', '''
        def f(self, before, after):
            if not self.pre.check(before):
                return False
            return True if self.post.check(after) else False
        ''', 'PrePostConditionAction.check')
    equiv(ctx, 'action', A + 'PrePostConditionAction.__init__', '''
        def __init__(self, pre_condition, post_condition,
                     name="unnamed-action"):
            self.post = post_condition
            self.pre = pre_condition
            self.agent = "None"
            self.name = name
        ''', fields=('pre', 'post', 'name', 'agent'))
    equiv(ctx, 'action', A + 'Action.__init__', '''
        def __init__(self, name="unnamed-action", agent="None"):
            self.agent = agent
            self.name = name
        ''', fields=('name', 'agent'))


@rule('C33')
def boards(ctx):
    equiv(ctx, 'shape', S + 'SnapCircuitState.feature_shape', '''
        def feature_shape(board):
            return (SnapCircuitState.N_PARTS, board[0], board[1], 4)
        ''')
    equiv(ctx, 'board', S + 'SnapCircuitState.__init__', '''
        def __init__(self, board, parts):
            self.board_rows = board[0]
            self.board_cols = board[1]
            self._parts = set(parts)
        ''', fields=('board_rows', 'board_cols', '_parts'))
    law(ctx, 'board', S + 'SnapCircuitState.parts', '''
        def f(self):
            return set(self.parts)
        ''', '''
        def f(self):
            return set(self._parts)
        ''', 'SnapCircuitState.parts')
    law(ctx, 'features', S + 'SnapCircuitState.features', '''
        def f(self):
            return self.features
        ''', '''
        def f(self):
            board = np.zeros((SnapCircuitState.N_PARTS, self.board_rows,
                              self.board_cols, 4))
            for placed in self.parts:
                (row, col, side), part = placed
                board[part.id, row, col, side] = 1
            return board
        ''', 'SnapCircuitState.features')
    law(ctx, 'features', S + 'SnapCircuitState.get_features', '''
        def f(self):
            return self.get_features()
        ''', '''
        def f(self):
            return self.features.flatten()
        ''', 'SnapCircuitState.get_features', calls=(
            '.max', '.sum', '.any', '.argmax', '.mean', '.min'))
    law(ctx, 'features', S + 'SnapCircuitState.n_dim', '''
        def f(self):
            return self.n_dim
        ''', '''
        def f(self):
            return np.prod((SnapCircuitState.N_PARTS, self.board_rows,
                            self.board_cols, 4))
        ''', 'SnapCircuitState.n_dim')
    law(ctx, 'features', 'state.NDimensionalState.get_features', '''
        def f(self):
            return (self.get_features(), self.n_dim)
        ''', '''
        def f(self):
            return (self.features, len(self.features))
        ''', 'NDimensionalState')


@rule('C33')
def placements(ctx):
    place = T.seq_elems(mk('sym', 'row'), mk('sym', 'col'), mk('sym', 'side'))
    for what, given in (('there', {'is_there': T.TRUE}),
                        ('not there', {'is_there': T.FALSE})):
        equiv(ctx, 'presence', S + 'PartPresenceCondition.__init__', '''
            def __init__(self, board, part, location, is_there=True):
                n = (SnapCircuitState.N_PARTS, board[0], board[1], 4)
                row, col, side = location[0], location[1], location[2]
                mask = np.zeros(n)
                value = np.zeros(n)
                mask[part.id, row, col, side] = 1
                if is_there:
                    value[part.id, row, col, side] = 1
                super(PartPresenceCondition, self).__init__(
                    mask.flatten(), value.flatten())
            ''', pick=watch('task_models.action.Condition.__init__',
                            writes=False),
            opaque={'task_models.action.Condition.__init__'},
            args=dict(given, location=place), construct='presence (%s)' % what,
        accept=('''
        def __init__(self, board, part, location, is_there=True):
            mask = np.zeros((SnapCircuitState.N_PARTS, board[0], board[1], 4))
            mask[part.id, location[0], location[1], location[2]] = 1
            super(PartPresenceCondition, self).__init__(
                mask.flatten(), (mask * is_there).flatten())
        ''',))
    law(ctx, 'presence', S + 'PartPresenceCondition.__init__', '''
        def f(self, board, part, location):
            c = PartPresenceCondition(board, part, location)
            return c.mask, c.value
        ''', '''
        def f(self, board, part, location):
            c = PartPresenceCondition(board, part, location, True)
            return c.mask, c.value
        ''', 'presence (by default)')
    equiv(ctx, 'placement', S + 'PlaceAction.__init__', '''
        def __init__(self, board, part, location):
            x, y, o = location
            self.board = board
            self.part = part
            self.location = location
            self.agent = 'None'
            self.name = "Place {} at {} oriented {}".format(
                part.label, (x, y), ORIENTATION_NAMES[o])
            self.pre = PartPresenceCondition(board, part, location, False)
            self.post = PartPresenceCondition(board, part, location)
        ''', fields=('board', 'part', 'location', 'pre', 'post', 'name',
                     'agent'), args={'location': place},
        opaque={'task_models.snap_circuit.PartPresenceCondition.__init__'})

    def located(I, st):
        st.fields[(mk('sym', 'self'), 'location')] = place
    law(ctx, 'placement', S + 'PlaceAction.position', '''
        def f(self):
            return self.position, self.orientation
        ''', '''
        def f(self):
            return (self.location[0], self.location[1]), self.location[2]
        ''', 'PlaceAction position and orientation', setup=located)


# ------------------------------------------------------------ example problems

TP = 'tower_problem.TowerProblem.'


@rule('C34')
def towers(ctx):
    equiv(ctx, 'orders', TP + '__init__', '''
        def __init__(self, height=2, n_towers=3):
            self.n = n_towers
            self.h = height
        ''', fields=('h', 'n'))
    law(ctx, 'orders', TP + 'parts', '''
        def f(self):
            return self.n_parts, self.parts
        ''', '''
        def f(self):
            return self.n * self.h, [str(i) for i in range(self.n * self.h)]
        ''', 'parts')
    law(ctx, 'orders', TP + 'v_first', '''
        def f(self):
            return list(self.v_first())
        ''', '''
        def f(self):
            return [i for i in range(self.h * self.n)]
        ''', 'vertical order', accept=['''
        def f(self):
            return [t * self.h + k for t in range(self.n)
                    for k in range(self.h)]
        ''', '''
        def f(self):
            return [t * self.n + k for t in range(self.h)
                    for k in range(self.n)]
        ''', '''
        def f(self):
            return sorted([t * self.h + k for k in range(self.h)
                           for t in range(self.n)])
        '''])
    law(ctx, 'orders', TP + 'h_first', '''
        def f(self):
            return list(self.h_first())
        ''', '''
        def f(self):
            out = []
            for level in range(self.h):
                for tower in range(self.n):
                    out.append(tower * self.h + level)
            return out
        ''', 'horizontal order', accept=['''
        def f(self):
            return sorted(range(self.h * self.n), key=lambda p: p % self.h)
        '''])
    ops = {'task_models.task.' + c + '.__init__' for c in (
        'LeafCombination', 'SequentialCombination', 'AlternativeCombination',
        'HierarchicalTask')}
    ops.add('task_models.bring_next_to_pomdp.CollaborativeAction.__init__')
    seq = TP + 'sequential_combination_from_order'
    equiv(ctx, 'tasks', seq, '''
        def sequential_combination_from_order(self, order, name=None):
            leaves = []
            for part in order:
                label = str(part)
                if name is not None:
                    label = label + '-' + name
                leaves.append(LeafCombination(
                    CollaborativeAction(label, str(part))))
            return SequentialCombination(leaves, name=name)
        ''', opaque=ops)
    ops2 = ops | {'task_models.' + seq}
    equiv(ctx, 'tasks', TP + 'alternative_combination_from_orders', '''
        def alternative_combination_from_orders(self, orders, names=None):
            if names is None:
                names = [str(k) for k in range(len(orders))]
            return AlternativeCombination(
                [self.sequential_combination_from_order(o, n)
                 for o, n in zip(orders, names)], name='Alt')
        ''', opaque=ops2, ops=('indexof',))
    ops3 = ops2 | {'task_models.' + TP + 'alternative_combination_from_orders'}
    equiv(ctx, 'tasks', TP + 'task_from_orders', '''
        def task_from_orders(self, orders, names=None):
            root = self.alternative_combination_from_orders(orders, names)
            return HierarchicalTask(root)
        ''', opaque=ops3)
    equiv(ctx, 'tasks', TP + 'vertical_horizontal_task', '''
        def vertical_horizontal_task(self):
            return self.task_from_orders([self.v_first(), self.h_first()],
                                         ['vertical', 'horizontal'])
        ''', opaque=ops3 | {'task_models.' + TP + x for x in (
            'task_from_orders', 'v_first', 'h_first')})


# ------------------------------------------------------------ hold and release

INIT = 'task_models.lib.pomdp.POMDP.__init__'
NAMES = ('T', 'O', 'R', 'start', 'discount', 'states', 'actions',
         'observations', 'values', 'solver_path')


def built(ctx, q, **run):
    """Arguments given to the constructor of models."""
    r = ctx.run(q, opaque={INIT}, **run)
    if r.interp.unsupported:
        raise Unknown('unsupported construct: %s' % r.interp.unsupported[:2])
    calls = [e for e in r.events if e.kind == 'call' and e.name == INIT]
    if len(calls) != 1 or calls[0].pc is not T.TRUE or calls[0].loops:
        raise Unknown('%d models are built' % len(calls))
    e = calls[0]
    args = list(e.args)[-len(NAMES):]
    if len(args) != len(NAMES) or e.kw:
        raise Unknown('arguments of the model')
    c = Canon(r.interp)
    return dict(zip(NAMES, [c(a) for a in args]))


def all_in(layout, t):
    n = layout.sizes(t)
    return n, {p: layout.elem(t, p) for p in regions(layout, n)}


@rule('C35')
def hold_and_release(ctx):
    q = 'hold_and_release.hold_and_release_pomdp'
    try:
        fi = ctx.world.fn(q)
    except AnchorError:
        ctx.unknown('tables', q, 'no such function')
        return
    sp = ctx.spec('''
        def hold_and_release_pomdp(cost_wait, cost_failure,
                                   cost_communication, proba_finish=.2):
            T = np.zeros((3, 3, 3))
            R = np.zeros((3, 3, 3, 3))
            O = np.zeros((3, 3, 3))
            for a in range(3):
                T[a, 0, 0] = 1 - proba_finish
                T[a, 0, 1] = proba_finish
                T[a, 2, 2] = 1.
            T[0, 1, 1] = 1.
            T[1, 1, 2] = 1.
            T[2, 1, 1] = 1.
            O[0, :, 0] = 1.
            for a in (1, 2):
                O[a, 0, 1] = 1.
                O[a, 1, 2] = 1.
                O[a, 2, 0] = 1.
            R[0] = cost_wait
            R[1, 0] = cost_failure
            R[2] = cost_communication
            return POMDP(T, O, R, np.array([1, 0, 0]), 1,
                         states=['zero', 'one', 'final'],
                         actions=['wait', 'physical', 'communicate'],
                         observations=['nothing', 'doing', 'done'],
                         values='cost')
        ''', like=fi)
    where = '%s:%s' % (fi.module.path, fi.node.lineno)
    try:
        got = built(ctx, fi)
        want = built(ctx, sp, spec=True)
    except (Unknown, T.Limit, RecursionError) as e:
        ctx.unknown('tables', q, str(e))
        return
    layout = Layout()
    for n in ('T', 'O', 'R', 'start'):
        try:
            sg, g = all_in(layout, got[n])
            sw, w = all_in(layout, want[n])
        except (Unknown, T.Limit, RecursionError) as e:
            ctx.unknown('tables', n, str(e))
            continue
        if sg != sw:
            ctx.bad('tables', n, 'shape %s, expected %s' % (sg, sw), where)
            continue
        for p in sorted(w):
            if T.eq(g[p], w[p]) is not T.TRUE:
                ctx.compare('tables', n, g[p], w[p], where=where,
                            what='item %s' % (p,))
                break
        else:
            ctx.ok('tables', n, '%d items' % len(w))
        if n == 'R':
            continue
        for p in regions(layout, sg[:-1]):
            tot = T.ZERO
            for j in range(sg[-1]):
                tot = T.add(tot, g[p + (j,)])
            if tot is not const(1):
                bad = T.is_num(tot) or understood(tot)
                ctx.decide('rows', n, False if bad else None,
                           'row %s sums to %s' % (p, T.show(tot, 6)), where)
                break
        else:
            ctx.ok('rows', n, 'all rows sum to 1')
    for n in NAMES[4:]:
        ctx.compare('names and options', n, got[n], want[n], where=where,
                    what=n)
