"""Rules for the models built from tasks (task_to_pomdp.py and
bring_next_to_pomdp.py)."""

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, law, watch, in_order
from ..tables import Layout, same_table, unit_sums
from . import rule

H = 'task_to_pomdp.'
B = 'bring_next_to_pomdp.'


def q(*names):
    return set('task_models.' + n for n in names)


HINTS = {('return', 'task_models.task.ParallelCombination.to_alternative'):
         'task_models.task.AlternativeCombination'}


def sym(n):
    return mk('sym', n)


# Regions of the tables of a task: positions of the own actions and states of
# a leaf, of the states that may follow it, and of other ones around them.
N_A, N_S = 7, 9
A0, S0 = 2, 2
NEXT, AFTER, BEFORE = (6, 7), (6, 7, 8), (0, 1)
OWN = ('init', 'H', 'R')
ACTIONS = {0: 'wait', 1: 'earlier', 2: 'physical', 3: 'ask-intention',
           4: 'tell-intention', 5: 'ask-finished', 6: 'later'}
STATES = {0: 'earlier', 1: 'earlier', 2: 'init', 3: 'H', 4: 'R',
          5: 'later', 6: 'next', 7: 'next', 8: 'after'}


def label(*axes):
    def f(at):
        return '[%s]' % ', '.join(ax.get(p, str(p)) if ax else str(p)
                                  for ax, p in zip(axes + ({},) * 4, at))
    return f


def leaf_layout(name, sizes, init=None):
    ints = {sym('a_wait'): 0, sym('a_start'): A0, sym('s_start'): S0}
    lists = {sym('s_next'): NEXT, sym('s_after'): AFTER,
             sym('s_before'): BEFORE}
    arrays = {sym(name): (sizes, init),
              sym('durations'): ((N_A,), None),
              sym('s_next_probas'): ((len(NEXT),), None)}
    return Layout(ints, lists, arrays)


def sums_to_one(name):
    p = sym(name)
    return {mk('idx', p, const(1)): T.sub(const(1), mk('idx', p, const(0)))}


LEAF_T = '''
    def update_T(self, T, a_wait, a_start, s_start, s_next, s_next_probas,
                 durations):
        assert(len(T) == len(durations))
        phy = a_start
        i, h, r = s_start, s_start + 1, s_start + 2
        no = self.leaf.action.no_proba
        fail = self.leaf.action.fail_proba
        T[:, i, i] = 1.
        for a in (a_start + 1, a_start + 2):
            T[a, i, i] = 0.
        T[a_start + 1, i, h] = 1 - no
        T[a_start + 1, i, r] = no
        T[a_start + 2, i, r] = 1.
        T[:, r, r] = 1.
        T[phy, r, r] = fail
        T[phy, r, s_next] = [x - fail * x for x in s_next_probas]
        if 'deterministic' in self.flags:
            T[:, h, h] = 1.
            T[a_start + 3, h, h] = 0.
            T[a_start + 3, h, s_next] = s_next_probas
        else:
            p = np.exp(-np.asarray(durations) / self.leaf.action.durations[0])
            T[:, h, h] = p
            T[:, h, s_next] = np.outer(1 - p, s_next_probas)
    '''

LEAF_O = '''
    def update_O(self, O, a_start, s_start, s_next, s_before, s_after):
        phy, ask, tell, fin = range(a_start, a_start + 4)
        none, yes = [1., 0., 0., 0.], [0., 1., 0., 0.]
        no, err = [0., 0., 1., 0.], [0., 0., 0., 1.]
        structured = 'structured' in self.flags
        O[phy] = err
        O[phy, s_next] = none
        O[ask] = err if structured else none
        O[ask, s_start + 1] = yes
        O[ask, s_start + 2] = no
        O[tell] = err if structured else none
        O[tell, s_start + 2] = none
        if 'deterministic' in self.flags:
            O[fin] = err
            O[fin, s_start + 1] = no
            O[fin, s_next] = yes
        else:
            O[fin] = no
            O[fin, s_after] = yes
    '''

LEAF_R = '''
    def update_R(self, R, a_wait, a_start, s_start, durations, intr_cost):
        own = slice(s_start, s_start + 3)
        R[:, s_start:s_start + 3] = np.asarray(durations)[
            :, np.newaxis, np.newaxis, np.newaxis] + intr_cost
        R[a_wait, s_start:s_start + 3] = durations[a_wait]
        R[a_start, s_start + 2] = self.leaf.action.durations[1] + intr_cost
        if 'structured' in self.flags:
            R[a_start + 2, s_start:s_start + 3] = 100
            R[a_start + 2, s_start, s_start + 1] = self.t_tell + intr_cost
            R[a_start + 2, s_start, s_start + 2] = self.t_tell + intr_cost
        if 'subtask_reward' in self.flags:
            R[:, s_start:s_start + 3, :s_start] -= self.subtask_reward
            R[:, s_start:s_start + 3, s_start + 3:] -= self.subtask_reward
    '''


def last_axis(t):
    """The last axis of a table is counted from the end."""
    m = {}
    for x in T.subterms(t):
        if isinstance(x, T.Term) and x.op == 'call' and \
                x.args[0] == 'numpy.concatenate' and len(x.args[1]) == 1:
            ranks = {len(y.args[0].args) for y in T.subterms(x.args[1][0])
                     if isinstance(y, T.Term) and y.op == 'zeros' and
                     y.args[0].op == 'seq'}
            ax = dict(x.args[2]).get('axis')
            if len(ranks) == 1 and ax is not None and T.is_num(ax) and \
                    T.num(ax) == max(ranks) - 1:
                m[x] = mk('call', x.args[0], x.args[1], tuple(
                    (k, const(-1) if k == 'axis' else v)
                    for k, v in x.args[2]), *x.args[3:])
    return T.subst(t, m) if m else t


@rule('C09')
@rule('C10')
def leaf_tables(ctx):
    L = H + '_LeafToPOMDP.'
    if ctx.prop == 'C10':
        same_table(ctx, 'leaf', L + 'update_T', LEAF_T, 'T',
                   leaf_layout('T', (N_A, N_S, N_S)),
                   label=label(ACTIONS, STATES, STATES),
                   blank=lambda at: at[1] in (2, 3, 4))
        same_table(ctx, 'leaf', L + 'update_O', LEAF_O, 'O',
                   leaf_layout('O', (N_A, N_S, 4)),
                   label=label(ACTIONS, STATES, {}))
        same_table(ctx, 'leaf', L + 'update_R', LEAF_R, 'R',
                   leaf_layout('R', (N_A, N_S, N_S, 2), const(0)),
                   label=label(ACTIONS, STATES, STATES, {}))
        return
    unit_sums(ctx, 'transition rows', L + 'update_T', 'T',
              leaf_layout('T', (N_A, N_S, N_S), const(0)),
              [(a, s) for a in range(N_A) for s in (2, 3, 4)], 1,
              given=sums_to_one('s_next_probas'))
    unit_sums(ctx, 'rows of other nodes', L + 'update_T', 'T',
              leaf_layout('T', (N_A, N_S, N_S), const(0)),
              [(a, s) for a in range(N_A) for s in (0, 1, 5, 6, 7, 8)], 0,
              given=sums_to_one('s_next_probas'))
    unit_sums(ctx, 'observation rows', L + 'update_O', 'O',
              leaf_layout('O', (N_A, N_S, 4), const(0)),
              [(a, s) for a in range(2, 6) for s in range(N_S)], 1)
    unit_sums(ctx, 'rows of other nodes', L + 'update_O', 'O',
              leaf_layout('O', (N_A, N_S, 4), const(0)),
              [(a, s) for a in (0, 1, 6) for s in range(N_S)], 0)


def end_layout(name, sizes, init=None):
    return Layout({}, {sym('init'): (1, 2)}, {sym(name): (sizes, init)})


@rule('C09')
@rule('C10')
def end_tables(ctx):
    K = H + 'HTMToPOMDP.'
    if ctx.prop == 'C10':
        same_table(ctx, 'end', K + 'update_T_end', '''
            def update_T_end(self, T, init):
                if 'loop' in self.flags:
                    for s in init:
                        T[:, -1, s] = 1. / len(init)
                else:
                    T[:, -1, -1] = 1.
                if 'reward_state' in self.flags:
                    T[:, -2, -1] = 1.
            ''', 'T', end_layout('T', (3, 6, 6)))
        same_table(ctx, 'end', K + 'update_R_end', '''
            def update_R_end(self, R):
                R[:, -1] = self.c_intr
                if 'reward_state' in self.flags:
                    R[:, -2] = self.c_intr
                    R[0, -2] = -self.end_reward
                    R[0, -1] = 0
                else:
                    R[0, -1] = -self.end_reward
            ''', 'R', end_layout('R', (3, 6, 6, 2)))
        same_table(ctx, 'end', K + 'update_O_wait', '''
            def update_O_wait(self, O):
                O[0] = [1., 0., 0., 0.]
            ''', 'O', end_layout('O', (3, 6, 4)))
        return
    unit_sums(ctx, 'transition rows', K + 'update_T_end', 'T',
              end_layout('T', (3, 6, 6), const(0)),
              [(a, 5) for a in range(3)], 1)
    unit_sums(ctx, 'rows of other nodes', K + 'update_T_end', 'T',
              end_layout('T', (3, 6, 6), const(0)),
              [(a, s) for a in range(3) for s in range(4)], 0)
    unit_sums(ctx, 'observation rows', K + 'update_O_wait', 'O',
              end_layout('O', (3, 6, 4), const(0)),
              [(0, s) for s in range(6)], 1)
    unit_sums(ctx, 'rows of other nodes', K + 'update_O_wait', 'O',
              end_layout('O', (3, 6, 4), const(0)),
              [(a, s) for a in (1, 2) for s in range(6)], 0)


# ------------------------------------------------- objects to bring (next)

def action(n):
    return mk('idx', mk('fld', sym('builder'), 'action_indices'),
              mk('fld', sym('self'), n))


B_A, B_S = 5, 6     # get: 1, ask: 3; own state 2, next 3 and 4
B_NEXT = (3, 4)


def bring_layout(name, sizes, init=None):
    return Layout({action('get'): 1, action('ask'): 3, sym('s_start'): 2},
                  {sym('s_next'): B_NEXT},
                  {sym(name): (sizes, init),
                   sym('s_next_probas'): ((2,), None)})


def builder_layout(name, sizes, init=None):
    s = sym('self')
    return Layout({}, {mk('fld', s, 'get_indices'): (0, 1),
                       mk('fld', s, 'ask_indices'): (2, 3),
                       sym('init'): (1, 2)}, {sym(name): (sizes, init)})


@rule('C09')
@rule('C10')
def bring_tables(ctx):
    L, K = B + '_LeafToPOMDP.', B + 'HTMToPOMDP.'
    if ctx.prop == 'C10':
        same_table(ctx, 'leaf', L + 'update_T', '''
            def update_T(self, T, builder, s_start, s_next, s_next_probas):
                get = builder.action_indices[self.get]
                T[:, s_start, s_start] = 1.
                T[get, s_start, s_start] = 0.
                T[get, s_start, s_next] = s_next_probas
            ''', 'T', bring_layout('T', (B_A, B_S, B_S)),
                   blank=lambda at: at[1] == 2)
        same_table(ctx, 'leaf', L + 'update_O', '''
            def update_O(self, O, builder, s_start, s_next):
                get = builder.action_indices[self.get]
                ask = builder.action_indices[self.ask]
                O[get, s_next] = [.9, 0., 0., .1]
                if 'no-ans' in builder.flags:
                    O[ask, s_start] = [.1, .9, 0., 0.]
                else:
                    O[ask, s_start] = [0., 1., 0., 0.]
            ''', 'O', bring_layout('O', (B_A, B_S, 4)))
        same_table(ctx, 'leaf', L + 'update_R', '''
            def update_R(self, R, builder, s_start, s_next):
                get = builder.action_indices[self.get]
                for s in s_next:
                    R[get, s_start, s] = builder.cost_get
            ''', 'R', bring_layout('R', (B_A, B_S, B_S, 2)))
        same_table(ctx, 'end', K + 'update_T_end', '''
            def update_T_end(self, T, init):
                if 'loop' in self.flags:
                    T[:, -1, init] = 1. / len(init)
                else:
                    T[:, -1, -1] = 1.
            ''', 'T', builder_layout('T', (4, 6, 6)))
        same_table(ctx, 'initial tables', K + 'init_O', '''
            def init_O(self, O):
                O[self.get_indices] = [0., 0., 0., 1.]
                if 'no-ans' in self.flags:
                    O[self.ask_indices] = [.1, 0., .9, 0.]
                else:
                    O[self.ask_indices] = [0., 0., 1., 0.]
            ''', 'O', builder_layout('O', (4, 6, 4)))
        same_table(ctx, 'initial tables', K + 'init_R', '''
            def init_R(self, R):
                R[self.get_indices] = self.cost_err
                R[self.ask_indices] = self.cost_com
            ''', 'R', builder_layout('R', (4, 6, 6, 2)))
        same_table(ctx, 'end', K + 'update_R_end', '''
            def update_R_end(self, R):
                if 'loop' in self.flags:
                    R[:, -1] = -self.end_reward
                else:
                    R[:, :, -1] -= self.end_reward
                    R[:, -1, -1] = 0
            ''', 'R', builder_layout('R', (4, 6, 6, 2)))
        return
    unit_sums(ctx, 'transition rows', L + 'update_T', 'T',
              bring_layout('T', (B_A, B_S, B_S), const(0)),
              [(a, 2) for a in range(B_A)], 1,
              given=sums_to_one('s_next_probas'))
    unit_sums(ctx, 'rows of other nodes', L + 'update_T', 'T',
              bring_layout('T', (B_A, B_S, B_S), const(0)),
              [(a, s) for a in range(B_A) for s in (0, 1, 3, 4, 5)], 0)
    p = {mk('idx', mk('idx', mk('idx', sym('O'), const(a)), const(s)),
            const(3)): T.sub(const(1), T.add(T.add(*[
                mk('idx', mk('idx', mk('idx', sym('O'), const(a)), const(s)),
                   const(j)) for j in (0, 1)]), mk('idx', mk('idx', mk(
                       'idx', sym('O'), const(a)), const(s)), const(2))))
         for a in range(B_A) for s in range(B_S)}
    unit_sums(ctx, 'observation rows', L + 'update_O', 'O',
              bring_layout('O', (B_A, B_S, 4)),
              [(a, s) for a in range(B_A) for s in range(B_S)], 1, given=p)
    unit_sums(ctx, 'transition rows', K + 'update_T_end', 'T',
              builder_layout('T', (4, 6, 6), const(0)),
              [(a, 5) for a in range(4)], 1)
    unit_sums(ctx, 'rows of other nodes', K + 'update_T_end', 'T',
              builder_layout('T', (4, 6, 6), const(0)),
              [(a, s) for a in range(4) for s in range(5)], 0)
    unit_sums(ctx, 'observation rows', K + 'init_O', 'O',
              builder_layout('O', (4, 6, 4), const(0)),
              [(a, s) for a in range(4) for s in range(6)], 1)


# --------------------------------------------------------- nodes and builder

@rule('C09')
@rule('C10')
def nodes(ctx):
    law(ctx, 'helpers', H + 'uniform', 'def f(n):\n    return uniform(n)',
        'def f(n):\n    return np.ones(n) / n', 'uniform',
        accept=('def f(n):\n    return [1. / n] * n',))
    for n in range(5):
        names = ', '.join('l%d' % i for i in range(n))
        law(ctx, 'helpers', H + 'concatenate', '''
            def f(%s):
                return concatenate([%s])
            ''' % (names, names), '''
            def f(%s):
                return %s
            ''' % (names, ' + '.join(['[]'] + ['list(l%d)' % i
                                               for i in range(n)])),
            'concatenation of %d lists' % n)
        if n:
            law(ctx, 'helpers', H + '_start_indices_from', '''
                def f(%s):
                    return list(_start_indices_from([%s]))
                ''' % (names, names), '''
                def f(%s):
                    out = []
                    tot = 0
                    for x in [%s]:
                        out.append(tot)
                        tot = tot + len(x)
                    return out
                ''' % (names, names), 'start indices of %d lists' % n)
    for m in (H, B):
        Q, A = m + '_SequenceToPOMDP.', m + '_AlternativesToPOMDP.'
        for n, v in (('init', 'self.children[0].init'),
                     ('start', 'self.children[0].start')):
            equiv(ctx, 'sequence', Q + n, '''
                def %s(self):
                    return %s
                ''' % (n, v))
        equiv(ctx, 'alternatives', A + 'init', '''
            def init(self):
                out = []
                for k, c in enumerate(self.children):
                    out = out + [self.s_indices[k] + i for i in c.init]
                return out
            ''', transform=zipped)
        equiv(ctx, 'alternatives', A + 'start', '''
            def start(self):
                ps = uniform(len(self.children))
                out = []
                for k, c in enumerate(self.children):
                    out = out + [x * ps[k] for x in c.start]
                return out
            ''', opaque=q(H + 'uniform'), transform=zipped, accept=('''
            def start(self):
                return [x / len(self.children) for c in self.children
                        for x in c.start]
            ''',))
        equiv(ctx, 'sequence', Q + '_next_init_children', '''
            def _next_init_children(self, s_start, s_next):
                out = []
                for k, c in enumerate(self.children[1:]):
                    out.append([s_start + self.s_indices[k + 1] + s
                                for s in c.init])
                return out + [s_next]
            ''', transform=zipped)


def zipped(t):
    """Children and their start indices are in the same number."""
    s = sym('self')
    n = mk('len', mk('fld', s, 'children'))
    m = {mk('len', mk('fld', s, 's_indices')): n}
    for x in T.subterms(t):
        if x.op == 'len' and x.args[0].op in ('call', 'rcall') and \
                'uniform' in str(x.args[0].args[0]):
            m[x] = n
    return T.subst(t, m)


@rule('C09')
@rule('C10')
def parents(ctx):
    N = H + '_NodeToPOMDP.'
    L, Q, A, Pa = [H + n for n in ('_LeafToPOMDP.', '_SequenceToPOMDP.',
                                   '_AlternativesToPOMDP.',
                                   '_ParentNodeToPOMDP.')]
    s = sym('self')
    up = dict(pick=watch('update_T', 'update_O', 'update_R', writes=False),
              val=False)
    equiv(ctx, 'sequence', Q + 'update_T', '''
        def update_T(self, T, a_wait, a_start, s_start, s_next,
                     s_next_probas, durations):
            nexts = self._next_init_children(s_start, s_next)
            probas = [c.start for c in self.children[1:]] + [s_next_probas]
            for i, c in enumerate(self.children):
                c.update_T(T, a_wait, self.a_indices[i] + a_start,
                           self.s_indices[i] + s_start, nexts[i], probas[i],
                           durations)
        ''', opaque=q(Q + '_next_init_children'), **up)
    equiv(ctx, 'alternatives', A + 'update_T', '''
        def update_T(self, T, a_wait, a_start, s_start, s_next,
                     s_next_probas, durations):
            for i, c in enumerate(self.children):
                c.update_T(T, a_wait, self.a_indices[i] + a_start,
                           self.s_indices[i] + s_start, s_next,
                           s_next_probas, durations)
        ''', **up)
    equiv(ctx, 'sequence', Q + '_states_indices', '''
        def _states_indices(self, s_start):
            return [[self.s_indices[i] + s_start + j
                     for j in range(len(c.states))]
                    for i, c in enumerate(self.children)]
        ''')
    equiv(ctx, 'sequence', Q + 'update_O', '''
        def update_O(self, O, a_start, s_start, s_next, s_before, s_after):
            states = self._states_indices(s_start)
            nexts = self._next_init_children(s_start, s_next)
            for i, c in enumerate(self.children):
                c.update_O(O, self.a_indices[i] + a_start,
                           self.s_indices[i] + s_start, nexts[i],
                           s_before + concatenate(states[:i]),
                           s_after + concatenate(states[i + 1:]))
        ''', opaque=q(Q + '_next_init_children', Q + '_states_indices'), **up)
    equiv(ctx, 'alternatives', A + 'update_O', '''
        def update_O(self, O, a_start, s_start, s_next, s_before, s_after):
            for i, c in enumerate(self.children):
                c.update_O(O, self.a_indices[i] + a_start,
                           self.s_indices[i] + s_start, s_next, s_before,
                           s_after)
        ''', **up)
    for C in ('_SequenceToPOMDP', '_AlternativesToPOMDP'):
        equiv(ctx, 'parents', Pa + 'update_R', '''
            def update_R(self, R, a_wait, a_start, s_start, durations,
                         intr_cost):
                for i, c in enumerate(self.children):
                    c.update_R(R, a_wait, self.a_indices[i] + a_start,
                               self.s_indices[i] + s_start, durations,
                               intr_cost)
            ''', cls=H + C, construct=C + '.update_R', **up)
    equiv(ctx, 'parents', Pa + 'durations', '''
        def durations(self):
            out = []
            for c in self.children:
                out = out + c.durations
            return out
        ''')
    equiv(ctx, 'parents', Pa + '__init__', '''
        def __init__(self, node, t_ask, t_tell, subtask_reward=None, flags=[]):
            self.node = node
            self.children = [
                self.from_node(n, t_ask, t_tell,
                               subtask_reward=subtask_reward, flags=flags)
                for n in node.children]
            self.s_indices = _start_indices_from(
                [c.states for c in self.children])
            self.a_indices = _start_indices_from(
                [c.actions for c in self.children])
            self.states = concatenate([c.states for c in self.children])
            self.actions = concatenate([c.actions for c in self.children])
        ''', opaque=q(N + 'from_node', H + '_start_indices_from'),
        fields=('node', 'children', 's_indices', 'a_indices', 'states',
                'actions'))
    equiv(ctx, 'leaf', L + '__init__', '''
        def __init__(self, leaf, t_ask, t_tell, subtask_reward=None, flags=[]):
            radix = leaf.action.name.lower().replace(' ', '-')
            self.states = ['init-' + radix, 'H-' + radix, 'R-' + radix]
            self.actions = ['phy-' + radix, 'com-ask-intention-' + radix,
                            'com-tell-intention-' + radix,
                            'com-ask-finished-' + radix]
            self.t_ask = t_ask
            self.t_tell = t_tell
            self.leaf = leaf
            self.flags = flags
            self.subtask_reward = subtask_reward
        ''', fields=('states', 'actions', 't_ask', 't_tell', 'leaf', 'flags',
                     'subtask_reward'))
    equiv(ctx, 'leaf', L + 'durations', '''
        def durations(self):
            return [self.leaf.action.durations[2], self.t_ask, self.t_tell,
                    self.t_ask]
        ''')
    inits = q(L + '__init__', Pa + '__init__', Q + '__init__', A + '__init__',
              'task.ParallelCombination.to_alternative')
    equiv(ctx, 'kinds of nodes', N + 'from_node', '''
        def from_node(node, t_ask, t_tell, subtask_reward=None, flags=[]):
            if isinstance(node, ParallelCombination):
                node = node.to_alternative()
            if isinstance(node, LeafCombination):
                cls = _LeafToPOMDP
            elif isinstance(node, SequentialCombination):
                cls = _SequenceToPOMDP
            elif isinstance(node, AlternativeCombination):
                cls = _AlternativesToPOMDP
            else:
                raise ValueError()
            return cls(node, t_ask, t_tell, subtask_reward=subtask_reward,
                       flags=flags)
        ''', opaque=inits, hints=HINTS)


@rule('C09')
@rule('C10')
def built_models(ctx):
    N, K = H + '_NodeToPOMDP.', H + 'HTMToPOMDP.'
    equiv(ctx, 'builder', K + '__init__', '''
        def __init__(self, t_wait, t_ask, t_tell, intr_cost=0, end_reward=10.,
                     deterministic=False, structured=False, loop=False,
                     reward_state=False, subtask_reward=None):
            self.t_wait, self.t_ask, self.t_tell = t_wait, t_ask, t_tell
            self.end_reward = end_reward
            self.subtask_reward = subtask_reward
            self.c_intr = intr_cost
            self.flags = set()
            if subtask_reward is not None:
                self.flags.add('subtask_reward')
            if reward_state:
                self.flags.add('reward_state')
            if loop:
                self.flags.add('loop')
            if structured:
                self.flags.add('structured')
            if deterministic:
                self.flags.add('deterministic')
        ''', fields=('t_wait', 't_ask', 't_tell', 'end_reward',
                     'subtask_reward', 'c_intr', 'flags'))
    source = '''
        def task_to_pomdp(self, task):
            n2p = _NodeToPOMDP.from_node(
                task.root, self.t_ask, self.t_tell,
                subtask_reward=self.subtask_reward, flags=self.flags)
            reward_state = 'reward_state' in self.flags
            states = list(n2p.states)
            if reward_state:
                states = states + ['end-reward']
            states = states + ['end']
            actions = ['wait'] + n2p.actions
            durations = [self.t_wait] + n2p.durations
            n_a, n_s, n_o = len(actions), len(states), len(n2p.observations)
            end = n_s - 2 if reward_state else n_s - 1
            start = np.zeros(n_s)
            start[n2p.init] = n2p.start
            T = np.zeros((n_a, n_s, n_s))
            n2p.update_T(T, 0, 1, 0, [end], [1.], durations)
            self.update_T_end(T, n2p.init)
            O = np.zeros((n_a, n_s, n_o))
            n2p.update_O(O, 1, 0, [end], [], [end])
            self.update_O_wait(O)
            if 'loop' in self.flags or reward_state:
                n_o = n_o + 1
                O = np.concatenate([O, np.zeros((n_a, n_s, 1))], axis=-1)
                if reward_state:
                    O[:, -1, :] = [1, 0, 0, 0, 0]
                    O[:, -2, :] = [0, 0, 0, 0, 1]
                else:
                    O[:, -1, :] = [0, 0, 0, 0, 1]
                n2p.observations = n2p.observations + ['done']
            R = np.zeros((n_a, n_s, n_s, n_o))
            n2p.update_R(R, 0, 1, 0, durations, self.c_intr)
            self.update_R_end(R)
            return POMDP(T, O, R, start, discount=1., states=states,
                         actions=actions, observations=n2p.observations,
                         values='cost')
        '''
    done = 'O[:, %d, :] = [0, 0, 0, 0, 1]'
    equiv(ctx, 'model', K + 'task_to_pomdp', source, accept=(
        source.replace(done % -1, 'O[:, -1, :] = 0; O[:, -1, -1] = 1')
        .replace(done % -2, 'O[:, -2, :] = 0; O[:, -2, -1] = 1'),),
        transform=last_axis, opaque=q(N + 'from_node', K + 'update_T_end', K + 'update_O_wait',
                      K + 'update_R_end', 'lib.pomdp.POMDP.__init__'),
        pick=watch('update_T', 'update_O', 'update_R', K + 'update_T_end',
                   K + 'update_O_wait', K + 'update_R_end', writes=False))


@rule('C09')
@rule('C10')
def bring_parents(ctx):
    N = B + '_NodeToPOMDP.'
    L, Q, A, Pa = [B + n for n in ('_LeafToPOMDP.', '_SequenceToPOMDP.',
                                   '_AlternativesToPOMDP.',
                                   '_ParentNodeToPOMDP.')]
    up = dict(pick=watch('update_T', 'update_O', 'update_R', writes=False),
              val=False)
    for n, extra in (('T', ', s_next_probas'), ('O', ''), ('R', '')):
        equiv(ctx, 'sequence', Q + 'update_' + n, """
            def f(self, M, builder, s_start, s_next%s):
                nexts = self._next_init_children(s_start, s_next)
                probas = [c.start for c in self.children[1:]]
                %s
                for i, c in enumerate(self.children):
                    c.update_%s(M, builder, self.s_indices[i] + s_start,
                                nexts[i]%s)
            """ % (extra, 'probas = probas + [s_next_probas]' if extra
                   else '', n, ', probas[i]' if extra else ''),
            opaque=q(Q + '_next_init_children'), **up)
        equiv(ctx, 'alternatives', A + 'update_' + n, """
            def f(self, M, builder, s_start, s_next%s):
                for i, c in enumerate(self.children):
                    c.update_%s(M, builder, self.s_indices[i] + s_start,
                                s_next%s)
            """ % (extra, n, extra), **up)
    equiv(ctx, 'parents', Pa + '__init__', """
        def __init__(self, node):
            self.node = node
            self.children = [self.from_node(n) for n in node.children]
            self.s_indices = _start_indices_from(
                [c.states for c in self.children])
            self.states = concatenate([c.states for c in self.children])
        """, opaque=q(N + 'from_node', H + '_start_indices_from'),
        fields=('node', 'children', 's_indices', 'states'))
    equiv(ctx, 'leaf', L + '__init__', """
        def __init__(self, leaf):
            self.leaf = leaf
            self.states = ['before-' + _name_radix(leaf.action)]
            self.get = 'get-' + leaf.action.obj
            self.ask = 'ask-' + leaf.action.obj
        """, opaque=q(H + '_name_radix'),
        fields=('leaf', 'states', 'get', 'ask'))
    equiv(ctx, 'kinds of nodes', N + 'from_node', """
        def from_node(node):
            if isinstance(node, ParallelCombination):
                node = node.to_alternative()
            if isinstance(node, LeafCombination):
                cls = _LeafToPOMDP
            elif isinstance(node, SequentialCombination):
                cls = _SequenceToPOMDP
            elif isinstance(node, AlternativeCombination):
                cls = _AlternativesToPOMDP
            else:
                raise ValueError()
            return cls(node)
        """, opaque=q(L + '__init__', Pa + '__init__', Q + '__init__',
                      A + '__init__',
                      'task.ParallelCombination.to_alternative'),
        hints=HINTS)


@rule('C09')
@rule('C10')
def bring_models(ctx):
    N, K = B + '_NodeToPOMDP.', B + 'HTMToPOMDP.'
    equiv(ctx, 'builder', K + '__init__', """
        def __init__(self, t_com, t_get, t_err, objects, end_reward=10.,
                     discount=None, loop=True, no_answer=False):
            self.cost_com, self.cost_get, self.cost_err = t_com, t_get, t_err
            self.end_reward = end_reward
            if discount is not None:
                self.discount = discount
            elif loop:
                self.discount = .9
            else:
                self.discount = 1.
            n = len(objects)
            self.get = ['get-' + o for o in objects]
            self.ask = ['ask-' + o for o in objects]
            self.actions = (['get-' + o for o in objects] +
                            ['ask-' + o for o in objects])
            self.get_indices = list(range(n))
            self.ask_indices = [n + i for i in range(n)]
            self.action_indices = {}
            for i, a in enumerate(self.actions):
                self.action_indices[a] = i
            self.flags = set()
            if no_answer:
                self.flags.add('no-ans')
            if loop:
                self.flags.add('loop')
        """, fields=('cost_com', 'cost_get', 'cost_err', 'end_reward',
                     'discount', 'actions', 'get_indices', 'ask_indices',
                     'action_indices', 'flags'))
    equiv(ctx, 'model', K + 'task_to_pomdp', """
        def task_to_pomdp(self, task):
            n2p = _NodeToPOMDP.from_node(task.root)
            states = list(n2p.states) + ['end']
            n_s, n_a, n_o = (len(states), len(self.actions),
                             len(n2p.observations))
            start = np.zeros(n_s)
            start[n2p.init] = n2p.start
            T = np.zeros((n_a, n_s, n_s))
            n2p.update_T(T, self, 0, [n_s - 1], [1.])
            self.update_T_end(T, n2p.init)
            O = np.zeros((n_a, n_s, n_o))
            self.init_O(O)
            n2p.update_O(O, self, 0, [n_s - 1])
            R = np.zeros((n_a, n_s, n_s, n_o))
            self.init_R(R)
            n2p.update_R(R, self, 0, [n_s - 1])
            self.update_R_end(R)
            return POMDP(T, O, R, start, discount=self.discount,
                         states=states, actions=self.actions,
                         observations=n2p.observations, values='cost')
        """, opaque=q(N + 'from_node', K + 'update_T_end', K + 'init_O',
                      K + 'init_R', K + 'update_R_end',
                      'lib.pomdp.POMDP.__init__'),
        pick=watch('update_T', 'update_O', 'update_R', K + 'update_T_end',
                   K + 'init_O', K + 'init_R', K + 'update_R_end',
                   writes=False))
    in_order(ctx, 'model', K + 'task_to_pomdp', [
        ('init_R', 'update_R'), ('update_R', 'update_R_end'),
        ('init_O', 'update_O')], opaque=q(
            N + 'from_node', K + 'update_T_end', K + 'init_O',
            K + 'init_R', K + 'update_R_end', 'lib.pomdp.POMDP.__init__'))


@rule('C09')
def randomized(ctx):
    equiv(ctx, 'randomised rows', 'lib.pomdp.POMDP.randomize', """
        def randomize(self, p_unexpected=1.e-3):
            t = self.T + p_unexpected
            self.T = t / t.sum(axis=-1)[..., None]
            o = self.O + p_unexpected
            self.O = o / o.sum(axis=-1)[..., None]
        """, fields=('T', 'O'), ops=('slc',), calls=('.max', '.min', '.mean'))
