"""Rules for the online planner (task_models/lib/pomcp.py, lib/belief.py)."""

import ast

from .. import terms as T
from ..terms import mk, const
from ..rule import callee, equiv, law, plain, sources, watch
from ..world import AnchorError, lock_call
from . import rule

M = 'lib.pomcp.'
TREE = M + '_SearchTree.'
ONODE = M + '_SearchObservationNode.'
NODE = M + '_SearchNode.'
B = 'lib.belief.'


def q(*names):
    return set('task_models.' + n for n in names)


UPDATE = NODE + 'update'
SIM = TREE + '_simulate_from_node'
ROLL = TREE + 'rollout_from_node'
ROLL1 = TREE + '_one_rollout_from_node'
CHILD = ONODE + 'safe_get_child'
NEW = TREE + '_observation_node_for_belief'
BEST = ONODE + 'get_best_action'

HINTS = {('_SearchTree', 'root'): M + '_SearchObservationNode',
         ('return', 'task_models.' + NEW): M + '_SearchObservationNode',
         ('return', 'task_models.' + CHILD): M + '_SearchActionNode',
         ('_SearchActionNode', 'children', 'elem'):
         M + '_SearchObservationNode',
         ('_SearchObservationNode', 'children', 'elem'):
         M + '_SearchActionNode'}
HINTS2 = {k: v for k, v in HINTS.items() if k[0] != '_SearchObservationNode'}
TYPES = {'node': M + '_SearchObservationNode'}


# ---------------------------------------------------------- visit accounting

@rule('C05')
def averages(ctx):
    A = M + '_ValueAverage.'
    equiv(ctx, 'average', A + '__init__', '''
        def __init__(self, alpha=0):
            assert(0 <= alpha <= 1)
            self.n_simulations = 0
            self.total_value = 0.
            self.alpha = alpha
        ''', fields=('n_simulations', 'total_value', 'alpha'))
    equiv(ctx, 'average', A + 'value', '''
        def value(self):
            if self.n_simulations == 0:
                return 0.
            return self.total_value / self.n_simulations
        ''')
    equiv(ctx, 'average', A + 'update', '''
        def update(self, value):
            self.total_value = (self.alpha * (self.n_simulations + 1) * value +
                                (1 - self.alpha) * (self.total_value + value))
            self.n_simulations = self.n_simulations + 1
        ''', fields=('n_simulations', 'total_value', 'alpha'))
    for p in ('value', 'n_simulations'):
        equiv(ctx, 'average', NODE + p, '''
            def get(self):
                return self._avg.%s
            ''' % p, opaque=q(A + 'value'))
    equiv(ctx, 'average', UPDATE, '''
        def update(self, value):
            self._avg.update(value)
        ''', opaque=q(A + 'update'), pick=watch(A + 'update'))


@rule('C05')
@rule('C06')
@rule('C27')
def simulation(ctx):
    """Visits and values recorded by a simulation."""
    ops = q(UPDATE, ROLL, SIM, CHILD, NEW, BEST)
    equiv(ctx, 'simulation', SIM, '''
        def _simulate_from_node(self, node, state, horizon, a=None):
            if horizon.is_reached():
                return node.value
            if a is None:
                a = node.get_best_action(exploration=self.exploration,
                                         relative_exploration=
                                         self.relative_explo)
            child = node.safe_get_child(a)
            new_s, o, r = self.model.sample_transition(a, state)
            horizon.decrement(a, state, new_s, o)
            if o in child.children:
                future = self._simulate_from_node(child.children[o], new_s,
                                                  horizon)
            else:
                try:
                    n = self._observation_node_for_belief(
                        node.belief.successor(self.model, a, o))
                    child.children[o] = n
                    future = self.rollout_from_node(n, horizon)
                except MaxSamplesReached:
                    self.log('Maximum number of samples reached, skipping.')
                    future = 0.
            total = r + self.model.discount * future
            child.update(total)
            node.update(total)
            return total
        ''', opaque=ops | q(ROLL1), types=TYPES, hints=HINTS2,
        calls=('.sample', 'task_models.' + ROLL1, 'task_models.' + ROLL),
        pick=watch(UPDATE, 'decrement', 'sample_transition', CHILD, NEW,
                   ROLL, SIM, 'successor'))
    equiv(ctx, 'simulation', TREE + 'simulate_from_node', '''
        def simulate_from_node(self, node, action=None):
            s = node.belief.sample()
            self._simulate_from_node(node, s, self.horizon_gen(), a=action)
        ''', opaque=ops, types=TYPES, pick=watch(SIM, UPDATE, 'sample'))
    equiv(ctx, 'rollout', ROLL, '''
        def rollout_from_node(self, node, horizon):
            if horizon.is_reached():
                return 0
            total = sum([self._one_rollout_from_node(node.belief.sample(),
                                                     horizon.copy())
                         for _ in range(self.rollout_it)], 0.)
            mean = total / self.rollout_it
            node.update(mean)
            return mean
        ''', opaque=q(UPDATE, ROLL1), types=TYPES,
        pick=watch(UPDATE, ROLL1, 'copy', 'sample'))


@rule('C05')
@rule('C17')
def rollout(ctx):
    equiv(ctx, 'discounted return', ROLL1, '''
        def _one_rollout_from_node(self, state, horizon):
            factor = 1.
            total = 0.
            while not horizon.is_reached():
                a = self.random_action()
                new, o, r = self.model.sample_transition(a, state)
                horizon.decrement(a, state, new, o)
                total = total + factor * r
                factor = factor * self.model.discount
                state = new
            return total
        ''', opaque=q(TREE + 'random_action'),
        pick=watch('decrement', 'sample_transition'))


@rule('C05')
def actions(ctx):
    equiv(ctx, 'children', CHILD, '''
        def safe_get_child(self, a):
            if self.children[a] is None:
                self.children[a] = _SearchActionNode(
                    alpha=self._children_alpha)
            return self.children[a]
        ''', conts=(mk('fld', mk('sym', 'self'), 'children'),))
    equiv(ctx, 'children', ONODE + '__init__', '''
        def __init__(self, belief, n_actions, alpha=.001):
            self._avg = _ValueAverage(alpha=alpha)
            self.children = [None] * n_actions
            self.belief = belief
            self._children_alpha = alpha
        ''', fields=('belief', 'children', '_children_alpha', '_avg'))


# ------------------------------------------------------ beliefs of the edges

@rule('C06')
def posterior(ctx):
    equiv(ctx, 'posterior', 'lib.pomdp.POMDP.belief_update', '''
        def belief_update(self, a, o, b):
            joint = b.dot(self.T[a, ...]) * self.O[a, :, o]
            total = joint.sum()
            if total == 0.:
                raise Impossible()
            return joint / total
        ''', calls=('builtins.max', 'builtins.min', 'numpy.maximum'))
    equiv(ctx, 'posterior', B + 'ArrayBelief.successor', '''
        def successor(self, model, a, o):
            return ArrayBelief(model.belief_update(a, o, self.array))
        ''', opaque=q(B + 'ArrayBelief.__init__'))
    equiv(ctx, 'posterior', B + 'ArrayBelief.__init__', '''
        def __init__(self, probabilities):
            self.array = np.asarray(probabilities)
            assert_normal(self.array, name='probabilities')
        ''', fields=('array',), opaque=q('lib.utils.assert_normal'),
        pick=watch('lib.utils.assert_normal', writes=False))


@rule('C06')
def nodes(ctx):
    ops = q(CHILD, NEW)
    equiv(ctx, 'node of a history', TREE + 'get_node', '''
        def get_node(self, history):
            node = self.root
            b = node.belief
            for i, h in enumerate(history):
                if isinstance(node, _SearchActionNode):
                    if h not in node.children:
                        node.children[h] = self._observation_node_for_belief(
                            b.successor(self.model, history[i - 1], h))
                    node = node.children[h]
                else:
                    b = node.belief
                    node = node.safe_get_child(h)
            return node
        ''', opaque=ops, pick=watch(CHILD, NEW, 'successor'))
    for n in range(5):
        h = ', '.join('h%d' % i for i in range(n))
        law(ctx, 'node of a history', TREE + 'get_node', '''
            def f(self%s):
                return self.get_node([%s])
            ''' % (', ' + h if h else '', h), '''
            def f(self%s):
                node = self.root
                b = node.belief
                done = []
                for h in [%s]:
                    if isinstance(node, _SearchActionNode):
                        if h not in node.children:
                            node.children[h] = \\
                                self._observation_node_for_belief(
                                    b.successor(self.model, done[-1], h))
                        node = node.children[h]
                    else:
                        b = node.belief
                        node = node.safe_get_child(h)
                    done.append(h)
                return node
            ''' % (', ' + h if h else '', h),
            'node of a history of %d steps' % n, opaque=q(NEW), hints=HINTS)
    equiv(ctx, 'new node', NEW, '''
        def _observation_node_for_belief(self, b):
            return _SearchObservationNode(b, self.model.n_actions,
                                          **self._node_params)
        ''', opaque=q(ONODE + '__init__'))
    L = M + '_ObservationLookupSearchTree.'
    s = mk('sym', 'self')
    equiv(ctx, 'shared nodes', L + '_observation_node_for_belief', '''
        def _observation_node_for_belief(self, b):
            if b not in self._obs_nodes:
                self._obs_nodes[b] = _SearchObservationNode(
                    b, self.model.n_actions, **self._node_params)
            return self._obs_nodes[b]
        ''', opaque=q(ONODE + '__init__'),
        conts=(mk('fld', s, '_obs_nodes'),))
    equiv(ctx, 'initial belief', TREE + '_belief_start', '''
        def _belief_start(self):
            if self._belief == 'array':
                return ArrayBelief(self.model.start, **self._belief_params)
            if self._belief == 'particle':
                return ParticleBelief(self.model.sample_start,
                                      self.model.n_states,
                                      **self._belief_params)
            raise ValueError()
        ''', opaque=q(B + 'ArrayBelief.__init__',
                      B + 'ParticleBelief.__init__'))
    equiv(ctx, 'settings', TREE + '__init__', '''
        def __init__(self, model, horizon_generator, exploration,
                     relative_exploration=False, rollout_it=1, belief='array',
                     belief_params={}, node_params={}, logger=None):
            self._belief = belief
            self._belief_params = belief_params
            self._node_params = node_params
            self.model = model
            self.root = self._observation_node_for_belief(
                self._belief_start())
            self.horizon_gen = horizon_generator
            self.exploration = exploration
            self.relative_explo = relative_exploration
            self.rollout_it = rollout_it
        ''', fields=('_belief', '_belief_params', '_node_params', 'model',
                     'root', 'horizon_gen', 'exploration', 'relative_explo',
                     'rollout_it'), opaque=q(NEW, TREE + '_belief_start'))


# ------------------------------------------------------------------ choices

@rule('C27')
def choice(ctx):
    equiv(ctx, 'unexplored actions', ONODE + '_not_init_children', '''
        def _not_init_children(self):
            return [i for i, c in enumerate(self.children)
                    if c is None or c.n_simulations == 0]
        ''')
    equiv(ctx, 'choice', BEST, '''
        def get_best_action(self, exploration=0, relative_exploration=False):
            new = self._not_init_children()
            if len(new) > 0:
                return np.random.choice(new)
            assert(self.n_simulations > 0)
            return np.argmax([self.augmented_values(
                exploration=exploration, relative=relative_exploration)])
        ''', opaque=q(ONODE + '_not_init_children',
                      ONODE + 'augmented_values'))
    equiv(ctx, 'values', ONODE + 'augmented_values', '''
        def augmented_values(self, exploration=0, relative=False):
            if exploration > 0 and relative:
                vals = [c.value if c is not None else np.nan
                        for c in self.children]
                exploration = exploration * (np.nanmax(vals) -
                                             np.nanmin(vals))
            l = np.log(self.n_simulations)
            return [np.nan if c is None else
                    c.value + exploration * np.sqrt(l / c.n_simulations)
                    for c in self.children]
        ''')
    equiv(ctx, 'random action', TREE + 'random_action', '''
        def random_action(self):
            return np.random.randint(self.model.n_actions)
        ''')


# ----------------------------------------------------------------- horizons

@rule('C28')
def horizons(ctx):
    N = M + 'NTransitionsHorizon.'
    equiv(ctx, 'number of transitions', N + '__init__', '''
        def __init__(self, n):
            self.n = n
        ''', fields=('n',))
    equiv(ctx, 'number of transitions', N + 'is_reached', '''
        def is_reached(self):
            return self.n <= 0
        ''', fields=('n',))
    equiv(ctx, 'number of transitions', N + 'decrement', '''
        def decrement(self, a, s, new_s, o):
            self.n = self.n - 1
        ''', fields=('n',))
    equiv(ctx, 'number of transitions', N + 'copy', '''
        def copy(self):
            return NTransitionsHorizon(self.n)
        ''', fields=('n',))
    law(ctx, 'number of transitions', N + 'copy', '''
        def f(cls, model, n):
            h = NTransitionsHorizon.generator(model, n=n)()
            return (type(h), h.n)
        ''', '''
        def f(cls, model, n):
            return (NTransitionsHorizon, n)
        ''', 'generator(model, n)()')


# --------------------------------------------------------------- particles

def any_bound(t):
    """How many samples are tried is a matter of tuning."""
    m = {}
    for x in T.subterms(t):
        if isinstance(x, T.Term) and x.op == 'new':
            for p in x.args[1]:
                if isinstance(p, tuple) and p[0] == 'max_samples' and \
                        p[1].op != 'const' and not T.free(p[1]):
                    m[x] = mk('new', x.args[0], tuple(
                        (n, mk('sym', 'bound') if n == 'max_samples' else v)
                        for n, v in x.args[1]))
    return T.subst(t, m)


def drawn(ctx, S):
    """Transitions are never simulated from the outcome of another one."""
    what = 'states given to the simulator in ' + S + '__call__'
    try:
        r = ctx.run(S + '__call__', opaque=q(S + '_sample'))
    except (AnchorError, T.Limit, RecursionError) as e:
        return ctx.unknown('rejection', what, str(e))
    found = [e for e in r.events if e.kind == 'call' and
             e.d.get('name') == 'sample_transition']
    for e in found:
        s = dict(e.d.get('kw') or {}).get('s')
        if s is None and len(e.args) > 1:
            s = e.args[1]
        if s is None:
            return ctx.unknown('rejection', what, 'state not found')
        for x in sources(r.interp, s):
            if any(y.op == 'icall' and callee(y) == '.sample_transition'
                   for y in T.subterms(x) if isinstance(y, T.Term)):
                return ctx.bad('rejection', what, 'the state is %s' %
                               T.show(x, 6), e.where)
            if x.op != 'rcall' or not x.args[0].endswith('._sample'):
                return ctx.unknown('rejection', what, T.show(x, 6))
    if found:
        ctx.ok('rejection', what)
    else:
        ctx.unknown('rejection', what, 'no call of the simulator')


@rule('C26')
def particles(ctx):
    S = B + '_SuccessorSampler.'
    P = B + 'ParticleBelief.'
    equiv(ctx, 'sampling', S + '_sample', '''
        def _sample(self):
            self.n_sampled = self.n_sampled + 1
            if self.n_sampled > self.max_samples:
                raise MaxSamplesReached(self.a, self.o, self.belief)
            return self.belief.sample()
        ''', fields=('n_sampled',), accept=['''
        def _sample(self):
            full = self.n_sampled >= self.max_samples
            self.n_sampled = self.n_sampled + 1
            if full:
                raise MaxSamplesReached(self.a, self.o, self.belief)
            return self.belief.sample()
        ''', '''
        def _sample(self):
            if self.n_sampled >= self.max_samples:
                raise MaxSamplesReached(self.a, self.o, self.belief)
            self.n_sampled = self.n_sampled + 1
            return self.belief.sample()
        '''])
    equiv(ctx, 'sampling', S + '__init__', '''
        def __init__(self, model, belief, a, o, max_samples=1000):
            self.n_sampled = 0
            self.model = model
            self.belief = belief
            self.a = a
            self.o = o
            self.max_samples = max_samples
        ''', fields=('n_sampled', 'model', 'belief', 'a', 'o', 'max_samples'))
    drawn(ctx, S)
    equiv(ctx, 'rejection', S + '__call__', '''
        def __call__(self):
            seen = None
            while seen != self.o:
                s, seen, _ = self.model.sample_transition(self.a,
                                                          self._sample())
            return s
        ''', opaque=q(S + '_sample'), pick=watch(S + '_sample',
                                                 'sample_transition'),
        ops=('mu', 'lres'), accept=['''
        def __call__(self):
            while True:
                s, o, _ = self.model.sample_transition(self.a, self._sample())
                if o == self.o:
                    return s
        ''', '''
        def __call__(self):
            s, o, _ = self.model.sample_transition(self.a, self._sample())
            while o != self.o:
                s, o, _ = self.model.sample_transition(self.a, self._sample())
            return s
        '''])
    equiv(ctx, 'particles', P + '__init__', '''
        def __init__(self, sampler, n_states, n_particles=100):
            self.n_states = n_states
            self.n_particles = n_particles
            self.part_states = []
            self._populate(sampler)
        ''', fields=('n_states', 'n_particles', 'part_states'),
        opaque=q(P + '_populate'), pick=watch(P + '_populate', writes=False))
    populate = '''
        def _populate(self, sampler):
            try:
                %s:
                    self.part_states.append(sampler())
            except MaxSamplesReached as e:
                n = %s
                if len(self.part_states) == 0:
                    e.msg = "Impossible to sample any particle."
                    raise e

                def again():
                    return self.sample(_max_index=n)

                self._populate(again)
        '''
    filled = [populate % (loop, n) for n in (
        'len(self.part_states)',
        'min(len(self.part_states), self.n_particles)') for loop in (
            'while len(self.part_states) < self.n_particles',
            'for _ in range(self.n_particles - len(self.part_states))')]
    equiv(ctx, 'particles', P + '_populate', filled[0],
          opaque=q(P + '_populate'), pick=watch(P + '_populate'),
          ops=('mu', 'lres'), calls=('builtins.min', 'builtins.max'),
          accept=filled[1:])
    sample = '''
        def sample(self, _max_index=None):
            n = %s if _max_index is None else _max_index
            return %s
        '''
    among = [sample % (n, x) for x in (
        'self.part_states[np.random.choice(n)]',
        'np.random.choice(self.part_states[:n])')
        for n in ('self.n_particles', 'len(self.part_states)')]
    equiv(ctx, 'particles', P + 'sample', among[0], accept=among[1:])
    equiv(ctx, 'particles', P + 'successor', '''
        def successor(self, model, a, o):
            f = _SuccessorSampler(model, self, a, o,
                                  max_samples=100 * self.n_particles)
            return ParticleBelief(f, self.n_states, self.n_particles)
        ''', opaque=q(P + '__init__') | q(P + '_populate'),
        transform=any_bound)
    count = '''
        def array(self):
            a = np.zeros((self.n_states))
            for i in self.part_states:
                a[i] = a[i] + %s
            return %s
        '''
    equiv(ctx, 'frequencies', P + 'array',
          count % ('1', 'a / (a.sum() or 1.)'), ops=('updall',), accept=[
              count % ('1 / len(self.part_states)', 'a'),
              count % ('1', 'a / len(self.part_states)'),
              count % ('1', 'a / max(len(self.part_states), 1)')])


# ------------------------------------------------------------------ exports

@rule('C31')
def exports(ctx):
    ND = NODE + 'to_dict'
    equiv(ctx, 'exported values', ND, '''
        def to_dict(self, model, as_policy=False, exclude_visited=None,
                    recursive=True):
            return {'value': self.value, 'visits': self.n_simulations,
                    'node': None}
        ''')
    equiv(ctx, 'exported tree', M + '_SearchActionNode.to_dict', '''
        def to_dict(self, model, as_policy=False, exclude_visited=None,
                    recursive=True):
            if as_policy:
                raise NotImplementedError
            return {'value': self.value, 'visits': self.n_simulations,
                    'node': None,
                    'observations': [model.observations[o]
                                     for o in self.children],
                    'children': [self.children[o].to_dict(
                        model, as_policy=as_policy,
                        exclude_visited=exclude_visited)
                        for o in self.children]}
        ''')
    equiv(ctx, 'exported tree', ONODE + 'to_dict', '''
        def to_dict(self, model, as_policy=False, observed=None,
                    exclude_visited=None, recursive=True):
            follow = recursive
            if exclude_visited is not None:
                if self.belief in exclude_visited:
                    follow = False
                else:
                    exclude_visited.add(self.belief)
            d = {'value': self.value, 'visits': self.n_simulations,
                 'node': None, 'belief': self.belief.to_list()}
            if as_policy:
                a = self.get_best_action()
                nexts = {}
                if self.children[a] is not None:
                    nexts = self.children[a].children
                d['action'] = model.actions[a]
                d['observed'] = observed
                d['values'] = [None if math.isnan(v) else v
                               for v in self.augmented_values()]
                d['exploration_terms'] = [
                    np.sqrt(np.log(self.n_simulations) / c.n_simulations)
                    if c is not None and c.n_simulations > 0 else None
                    for c in self.children]
                d['child_visits'] = [c.n_simulations if c is not None else 0
                                     for c in self.children]
                if follow:
                    d['observations'] = [model.observations[o]
                                         for o in nexts]
                    d['children'] = [
                        nexts[o].to_dict(model, as_policy=as_policy,
                                         observed=i,
                                         exclude_visited=exclude_visited)
                        for i, o in enumerate(nexts)]
            elif follow:
                d['actions'] = [model.actions[i]
                                for i, c in enumerate(self.children)
                                if c is not None]
                d['children'] = [c.to_dict(model, as_policy=as_policy,
                                           exclude_visited=exclude_visited)
                                 for c in self.children if c is not None]
            else:
                d['actions'] = []
                d['children'] = []
            return d
        ''', opaque=q(BEST, CHILD, ONODE + 'augmented_values'),
        conts=('exclude_visited',))


# ------------------------------------------------------------------- runner

R = M + 'POMCPPolicyRunner.'
SIMULATE = TREE + 'simulate_from_node'


@rule('C24')
def runner(ctx):
    s = mk('sym', 'self')
    state = ('history', '_node', '_last_action')
    equiv(ctx, 'online runner', R + '_reset', '''
        def _reset(self, belief=None):
            if belief is not None:
                raise NotImplementedError
            self.history = []
            self._node = self.tree.root
            self._last_action = None
        ''', fields=state)
    equiv(ctx, 'online runner', R + 'reset', '''
        def reset(self, belief=None):
            self._reset(belief=belief)
        ''', fields=state)
    equiv(ctx, 'online runner', R + 'step', '''
        def step(self, observation):
            if self._last_action is None:
                raise ValueError()
            o = self.observations.index(observation)
            h = self.history + [self._last_action, o]
            self._node = self.tree.get_node(h)
            self.history = h
        ''', fields=state, pick=watch(TREE + 'get_node'),
        opaque=q(TREE + 'get_node'))
    equiv(ctx, 'online runner', R + 'get_action', '''
        def get_action(self, iterations=None):
            n = self.iterations if iterations is None else iterations
            for _ in range(n):
                self.tree.simulate_from_node(self._node)
            self._last_action = self._node.get_best_action()
            return self.actions[self._last_action]
        ''', fields=state, pick=watch(SIMULATE, BEST),
        opaque=q(SIMULATE, BEST))
    equiv(ctx, 'online runner', R + 'belief', '''
        def belief(self):
            return self._node.belief
        ''')


# ------------------------------------------------------- asynchronous runner

AR = M + 'AsyncPOMCPPolicyRunner.'
TH = AR + '_Thread.'


def locked(*names, **opts):
    """Effects on the shared state, with the locks held."""
    callbacks = opts.pop('callbacks', False)
    inner = watch(*names, **opts)

    def pick(e):
        d = inner(e)
        if d is None and e.kind == 'enter_with':
            d = (const('acquire'), e.val)
        if d is None and e.kind in ('call', 'pcall') and \
                e.d.get('name') == 'join':
            d = (const('join'), plainrecv(e),
                 plain((tuple(e.args or ()), tuple(
                     sorted((e.d.get('kw') or {}).items())))))
        if d is None and callbacks and e.kind == 'call' and \
                e.d.get('name') is None:
            d = (const('called'),)
        if d is None:
            return None
        if e.kind == 'write' and not is_shared(e.base):
            return None     # private to the runner
        return d + (mk('locks', *[w for w in e.withs]),)
    return pick


def plainrecv(e):
    return e.recv if isinstance(e.recv, T.Term) else const('?')


def is_shared(base):
    s = mk('sym', 'self')
    return base is not s or base is None


def manual_locks(ctx, rule, name, r):
    """Locks taken by hand are not followed."""
    for e in r.events:
        if e.kind == 'call' and e.d.get('name') in ('acquire', 'release'):
            return True
    return False


def kept_locks(ctx):
    """Locks taken by hand are released when what is done while they are held
    fails."""
    n = 'lock released'
    for fi in ctx.world.functions.values():
        if not fi.qualname.startswith('task_models.' + AR):
            continue
        bad = None
        for node in ast.walk(fi.node):
            for field in ('body', 'orelse', 'finalbody'):
                stmts = getattr(node, field, None)
                if not isinstance(stmts, list):
                    continue
                for i, s in enumerate(stmts):
                    lock = lock_call(s, 'acquire')
                    ends = [j for j in range(i + 1, len(stmts))
                            if lock_call(stmts[j], 'release') == lock]
                    if not lock or not ends:
                        continue
                    between = stmts[i + 1:ends[0]]
                    if any(isinstance(x, (ast.Call, ast.Raise, ast.Return))
                           for y in between for x in ast.walk(y)) and \
                            not any(isinstance(x, ast.Try)
                                    for y in between for x in ast.walk(y)):
                        bad = bad or (lock, s)
        if bad:
            ctx.bad(n, fi.qualname, 'the lock %s stays taken when what '
                    'follows fails' % bad[0], '%s:%s' % (
                        fi.module.path.split('/repo/')[-1], bad[1].lineno))
        else:
            ctx.ok(n, fi.qualname)


def async_equiv(ctx, rule, qn, src, own=False, **run):
    try:
        fi = ctx.world.fn(qn)
    except Exception:
        ctx.unknown(rule, qn, 'no such function')
        return
    probe = ctx.run(fi, **{k: v for k, v in run.items()
                           if k in ('opaque', 'types')})
    if manual_locks(ctx, rule, qn, probe):
        ctx.unknown(rule, qn, 'locks taken by hand')
        return
    names = ('simulate_from_node', 'get_node', 'get_best_action',
             'time.sleep', 'is_alive', 'start', TREE + 'get_node', SIMULATE,
             BEST, 'threading.Thread.start')
    pick = locked(*names)
    if own:
        inner = watch(*names)

        def pick(e):
            d = inner(e)
            if d is None and e.kind == 'enter_with':
                d = (const('acquire'), e.val)
            if d is None:
                return None
            return d + (mk('locks', *[w for w in e.withs]),)
    equiv(ctx, rule, qn, src, pick=pick, ops=('locks',), **run)
    for e in probe.events:
        if e.kind == 'enter_with' and e.val in e.withs:
            ctx.bad('lock taken twice', qn, 'the lock %s is already held' %
                    T.show(e.val), e.where)
            return
    ctx.ok('lock taken twice', qn)


# What explorations change.
EXPLORED = ('children', '_avg', '_obs_nodes')


def used_by_both(ctx):
    """The tree is only read or changed while the lock is held."""
    n = 'tree used under the lock'
    for f in ('step', 'get_action', 'reset', 'stop', '_Thread.run'):
        try:
            fi = ctx.world.fn(AR + f)
        except Exception:
            ctx.unknown(n, f, 'no such function')
            continue

        def setup(I, st):
            I.reads = EXPLORED
        try:
            r = ctx.run(fi, opaque=q(TREE + 'get_node', SIMULATE, BEST),
                        setup=setup)
        except (T.Limit, RecursionError) as e:
            ctx.unknown(n, f, 'analysis limit: %s' % e)
            continue
        if manual_locks(ctx, n, f, r):
            ctx.unknown(n, f, 'locks taken by hand')
            continue
        for e in r.events:
            what = None
            if e.kind == 'read':
                what = e.attr
            elif e.kind == 'call' and str(e.d.get('name')).split(
                    '.')[-1] in ('get_node', 'simulate_from_node',
                                 'get_best_action'):
                what = e.name
            if what and not e.withs and e.pc is not T.FALSE:
                ctx.bad(n, f, '%s is used without holding the lock' %
                        str(what).split('.')[-1], e.where)
                break
        else:
            ctx.ok(n, f)


@rule('C04')
def exclusion(ctx):
    used_by_both(ctx)
    kept_locks(ctx)
    ops = q(TREE + 'get_node', SIMULATE, BEST)
    state = ('history', '_node', '_last_action')
    rule_ = 'exclusion'
    async_equiv(ctx, rule_, AR + 'step', '''
        def step(self, observation):
            with self.thread._lock:
                if self._last_action is None:
                    raise ValueError()
                o = self.observations.index(observation)
                h = self.history + [self._last_action, o]
                self._node = self.tree.get_node(h)
                self.history = h
            with self.thread._lock:
                self.thread._node = self._node
                self.thread._action = None
        ''', fields=state, opaque=ops)
    async_equiv(ctx, rule_, AR + 'get_action', '''
        def get_action(self, iterations=None):
            with self.thread._lock:
                n = self.iterations if iterations is None else iterations
                for _ in range(n):
                    self.tree.simulate_from_node(self._node)
                self._last_action = self._node.get_best_action()
                a = self.actions[self._last_action]
            with self.thread._lock:
                self.thread._action = self._last_action
            return a
        ''', fields=state, opaque=ops)
    async_equiv(ctx, rule_, AR + 'reset', '''
        def reset(self, belief=None):
            if belief is not None:
                raise NotImplementedError
            self.history = []
            self._node = self.tree.root
            self._last_action = None
            with self.thread._lock:
                self.thread._node = self.tree.root
                self.thread._action = None
        ''', fields=state, opaque=ops)
    async_equiv(ctx, 'stop', AR + 'stop', '''
        def stop(self):
            with self.thread._lock:
                self.thread._done = True
            if self.thread.is_alive():
                self.thread.join()
        ''', opaque=ops, accept=('''
        def stop(self):
            if self.thread.is_alive():
                with self.thread._lock:
                    self.thread._done = True
                self.thread.join()
        ''', '''
        def stop(self):
            with self.thread._lock:
                self.thread._done = True
            self.thread.join()
        '''))
    law(ctx, 'exclusion', AR + 'execute', '''
        def f(self, fun, x, y):
            return self.execute(fun, x, y=y)
        ''', '''
        def f(self, fun, x, y):
            with self.thread._lock:
                return fun(x, y=y)
        ''', 'execute of a runner', pick=locked(callbacks=True),
        ops=('locks',), opaque=ops)
    async_equiv(ctx, 'exploration', TH + 'run', '''
        def run(self):
            done = False
            while not done:
                with self._lock:
                    self.tree.simulate_from_node(self._node,
                                                 action=self._action)
                    done = self._done
                time.sleep(.01)
        ''', own=True, opaque=ops)
    law(ctx, 'exclusion', TH + 'execute', '''
        def f(self, fun, x, y):
            return self.execute(fun, x, y=y)
        ''', '''
        def f(self, fun, x, y):
            with self._lock:
                return fun(x, y=y)
        ''', 'execute of a thread', pick=locked(callbacks=True),
        ops=('locks',), opaque=ops)
    equiv(ctx, 'exploration', TH + '__init__', '''
        def __init__(self, tree):
            super(AsyncPOMCPPolicyRunner._Thread, self).__init__()
            self.tree = tree
            self._node = tree.root
            self._action = None
            self._done = False
        ''', fields=('tree', '_node', '_action', '_done'))
    equiv(ctx, 'exploration', AR + '__init__', '''
        def __init__(self, *args, **kwargs):
            super(AsyncPOMCPPolicyRunner, self).__init__(*args, **kwargs)
            t = self._Thread(self.tree)
            self.thread = t
            t.start()
        ''', pick=watch('start', 'threading.Thread.start', TH + '__init__',
                        R + '__init__', writes=False),
        opaque=q(R + '__init__', TH + '__init__'))


@rule('C05')
@rule('C27')
def settings(ctx):
    equiv(ctx, 'settings of a tree', TREE + '__init__', '''
        def __init__(self, model, horizon_generator, exploration,
                     relative_exploration=False, rollout_it=1, belief='array',
                     belief_params={}, node_params={}, logger=None):
            self.exploration = exploration
            self.relative_explo = relative_exploration
            self.rollout_it = rollout_it
            self.horizon_gen = horizon_generator
            self.model = model
            self._belief = belief
            self._belief_params = belief_params
            self._node_params = node_params
            self.root = self._observation_node_for_belief(
                self._belief_start())
        ''', fields=('exploration', 'relative_explo', 'rollout_it',
                     'horizon_gen', 'model', '_node_params'),
        opaque=q(ONODE + '__init__', B + 'ParticleBelief.__init__',
                 B + 'ArrayBelief.__init__'))


@rule('C27')
def choices(ctx):
    equiv(ctx, 'choice of the runner', R + 'get_action', '''
        def get_action(self, iterations=None):
            n = self.iterations if iterations is None else iterations
            for _ in range(n):
                self.tree.simulate_from_node(self._node)
            self._last_action = self._node.get_best_action()
            return self.actions[self._last_action]
        ''', opaque=q(SIMULATE, BEST), pick=watch(SIMULATE, BEST))


@rule('C24')
@rule('C06')
@rule('C27')
def construction(ctx):
    LT = M + '_ObservationLookupSearchTree.'
    equiv(ctx, 'settings', R + '__init__', '''
        def __init__(self, model, particles=20, iterations=100, horizon=100,
                     exploration=None, relative_exploration=False,
                     rollout_it=1, belief_values=False, belief='array',
                     belief_params={}, logger=None):
            if isinstance(horizon, Horizon._Generator):
                g = horizon
            elif isinstance(horizon, Integral):
                g = NTransitionsHorizon.generator(model, n=horizon)
            else:
                raise ValueError()
            if exploration is None:
                exploration = 1. if relative_exploration else 100
            if logger is None:
                from logging import warning as logger
            if belief_values:
                self.tree = _ObservationLookupSearchTree(
                    model, g, exploration,
                    relative_exploration=relative_exploration,
                    rollout_it=rollout_it, belief=belief,
                    belief_params=belief_params, logger=logger)
            else:
                self.tree = _SearchTree(
                    model, g, exploration,
                    relative_exploration=relative_exploration,
                    rollout_it=rollout_it, belief=belief,
                    belief_params=belief_params, logger=logger)
            self.iterations = iterations
            if iterations < model.n_actions:
                logger('small')
            self._reset()
        ''', opaque=q(TREE + '__init__', LT + '__init__'),
        fields=('tree', 'iterations', 'history', '_last_action'))
    equiv(ctx, 'settings', LT + '__init__', '''
        def __init__(self, model, horizon, exploration,
                     relative_exploration=False, belief='array', rollout_it=1,
                     belief_params={}, node_params={}, logger=None):
            self._obs_nodes = {}
            if belief == 'particle':
                raise ValueError()
            super(_ObservationLookupSearchTree, self).__init__(
                model, horizon, exploration,
                relative_exploration=relative_exploration, belief=belief,
                rollout_it=rollout_it, belief_params={},
                node_params=node_params, logger=logger)
        ''', opaque=q(TREE + '__init__'),
        pick=watch(TREE + '__init__', writes=False))


@rule('C24')
def episodes(ctx):
    equiv(ctx, 'episodes', R + 'run_trajectory', '''
        def run_trajectory(self, logger=None):
            model = self.tree.model
            self.reset()
            state = model.sample_start()
            while True:
                if model.is_final(state):
                    break
                number = model.actions.index(self.get_action())
                following, obs, reward = model.sample_transition(number,
                                                                 state)
                self.step(model.observations[obs])
                encoding = model._int_to_state()
                encoding.belief_quotient(self.belief.array)
                encoding.belief_preferences(self.belief.array)
                state = following
        ''', opaque=q(R + 'reset', R + 'step', R + 'get_action'),
        pick=watch(R + 'reset', R + 'step', R + 'get_action', 'sample_start',
                   'sample_transition',
                   once=(R + 'reset', R + 'step', R + 'get_action')))


@rule('C31')
def tree_export(ctx):
    LT = M + '_ObservationLookupSearchTree.'
    ops = q(ONODE + 'to_dict', M + '_SearchActionNode.to_dict',
            NODE + 'to_dict')
    equiv(ctx, 'exported tree', TREE + 'to_dict', '''
        def to_dict(self, as_policy=False):
            return self.root.to_dict(self.model, as_policy=as_policy)
        ''', opaque=ops)
    equiv(ctx, 'exported tree', LT + 'to_dict', '''
        def to_dict(self, as_policy=False):
            return self.root.to_dict(self.model, as_policy=as_policy,
                                     exclude_visited=set())
        ''', opaque=ops)
    equiv(ctx, 'exported tree', R + 'trajectory_trees_from_starts', '''
        def trajectory_trees_from_starts(self, qvalue=False):
            return {'graphs': [self.tree.to_dict(as_policy=not qvalue)]}
        ''', opaque=q(TREE + 'to_dict', LT + 'to_dict'))
    equiv(ctx, 'traversal', TREE + 'map', '''
        def map(self, fun, join_children=_children_to_dict):
            return self.root._map(fun, join_children)
        ''', opaque=q(NODE + '_map'))
    equiv(ctx, 'traversal', M + '_children_to_dict', '''
        def _children_to_dict(d, children):
            d['children'] = children
            return d
        ''', conts=('d',))
    for c, src in (('_SearchObservationNode',
                    '[c for c in self.children if c is not None]'),
                   ('_SearchActionNode', 'list(self.children.values())')):
        law(ctx, 'traversal', NODE + '_map', '''
            def f(self, fun, join):
                r = fun(self)
                return join(r, [c for c in self._iterate_children()])
            ''', '''
            def f(self, fun, join):
                r = fun(self)
                return join(r, %s)
            ''' % src, 'children of ' + c, cls=M + c)
    equiv(ctx, 'traversal', NODE + '_map', '''
        def _map(self, fun, join_children):
            r = fun(self)
            return join_children(r, [c._map(fun, join_children)
                                     for c in self._iterate_children()])
        ''', opaque=q(NODE + '_iterate_children',
                      ONODE + '_iterate_children'))
    equiv(ctx, 'named children', ONODE + 'children_dict', '''
        def children_dict(self, model):
            return {model.actions[a]: c
                    for a, c in enumerate(self.children) if c is not None}
        ''')


@rule('C31')
def file_export(ctx):
    equiv(ctx, 'exported file', M + 'export_pomcp', '''
        def export_pomcp(policy, destination, belief_as_quotient=False):
            model = policy.tree.model
            if belief_as_quotient:
                FLAG = '####'

                def node_dict(node):
                    if isinstance(node, _SearchObservationNode):
                        d = node.to_dict(model, as_policy=True,
                                         recursive=False)
                        q = model._int_to_state().belief_quotient
                        d['belief'] = list(q(np.array(d['belief'])))
                        a = model.actions.index(d['action'])
                        d['ACTION_IDX'] = sum([c is not None
                                               for c in node.children[:a]])
                        return d
                    return {'observations': [model.observations[o]
                                             for o in node.children],
                            FLAG: True}

                def join(d, children):
                    if d.get(FLAG, False):
                        d.pop(FLAG)
                        d['children'] = children
                    else:
                        child = children[d.pop('ACTION_IDX')]
                        d['observations'] = child['observations']
                        d['children'] = child['children']
                        for n, c in enumerate(d['children']):
                            c['observed'] = n
                    return d

                out = {'graphs': [policy.tree.map(node_dict, join)],
                       'states': model.htm_names}
            else:
                out = policy.trajectory_trees_from_starts()
                out['states'] = model.states
            out['actions'] = model.actions
            out['exploration'] = policy.tree.exploration
            out['relative_exploration'] = policy.tree.relative_explo
            with open(destination, 'w') as f:
                json.dump(out, f, indent=2)
        ''', opaque=q(ONODE + 'to_dict'),
        pick=watch('json.dump', 'open', writes=False))
