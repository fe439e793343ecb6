"""Rules for the finite model, its solver, policies (lib/pomdp.py, policy.py,
lib/utils.py)."""

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, law, watch
from . import rule

P = 'lib.pomdp.'
M = P + 'POMDP.'
GP = P + 'GraphPolicy.'


def q(*names):
    return set('task_models.' + n for n in names)


NORMAL = 'lib.utils.assert_normal'


# --------------------------------------------------------------- validation

@rule('C07')
def validation(ctx):
    checks = q(M + '_assert_shapes', M + '_assert_normal',
               M + '_assert_unique')
    source = '''
        def __init__(self, T, O, R, start, discount, states=None,
                     actions=None, observations=None, values='reward',
                     solver_path=None):
            na, ns, no = O.shape
            self._s = {s} if states is None else list(states)
            self._a = {a} if actions is None else list(actions)
            self._o = {o} if observations is None else list(observations)
            self.T = T
            self.O = O
            if values == 'cost':
                self.R = -R
            elif values == 'reward':
                self.R = R
            else:
                raise ValueError()
            self.start = start
            self._assert_shapes()
            self._assert_normal()
            self._assert_unique()
            if not (0 <= discount <= 1):
                raise ValueError()
            self.discount = discount
            exe = spawn.find_executable(SOLVER_NAME, path=solver_path)
            self._solver_path = exe
            if exe is None:
                raise ImportError()
        '''
    n = dict(s='ns', a='na', o='no')
    # numbers of states... may be kept or the ranges of them
    ls = {k: 'list(range(%s))' % v for k, v in n.items()}
    equiv(ctx, 'constructor', M + '__init__', source.format(**n), accept=[
        source.format(**dict(n, **{k: ls[k] for k in ks}))
        for ks in ('sao', 's', 'a', 'o')],
        fields=('_s', '_a', '_o', 'T', 'O', 'R', 'start', 'discount',
                '_solver_path'),
        opaque=checks,
        pick=watch(*sorted(checks), writes=False),
        calls=('.max', '.min', '.sum', 'builtins.abs'))
    equiv(ctx, 'shapes', M + '_assert_shapes', '''
        def _assert_shapes(self):
            ns, na, no = self.n_states, self.n_actions, self.n_observations
            if (self.start.shape != (ns,) or self.T.shape != (na, ns, ns) or
                    self.O.shape != (na, ns, no) or
                    self.R.shape != (na, ns, ns, no)):
                raise ValueError()
        ''', opaque=q(M + 'n_states', M + 'n_actions', M + 'n_observations'))
    equiv(ctx, 'normalised', M + '_assert_normal', '''
        def _assert_normal(self):
            assert_normal(self.start, name='start')
            assert_normal(self.T, name='T')
            assert_normal(self.O, name='O')
        ''', opaque=q(NORMAL), pick=watch(NORMAL, writes=False))
    equiv(ctx, 'unique names', M + '_assert_unique', '''
        def _assert_unique(self):
            for names in (self.states, self.actions, self.observations):
                if len(set(names)) != len(names):
                    raise ValueError()
        ''', opaque=q(M + 'states', M + 'actions', M + 'observations'))
    equiv(ctx, 'normalised', NORMAL, '''
        def assert_normal(array, name='array'):
            if (array < 0).any():
                raise ValueError()
            if not np.allclose(1. * array.sum(-1), 1.):
                raise ValueError()
        ''')
    for n, f in (('states', '_s'), ('actions', '_a'), ('observations', '_o')):
        law(ctx, 'names', M + n, '''
            def f(self):
                return (self.%s, self.n_%s)
            ''' % (n, n), '''
            def f(self):
                names = self.%s
                if isinstance(names, int):
                    names = list(range(names))
                return (names, len(names))
            ''' % f, 'POMDP.' + n, calls=('builtins.str',))


# -------------------------------------------------------- tables and exports

@rule('C11')
def tables(ctx):
    equiv(ctx, 'table indices', M + 'sample_transition', '''
        def sample_transition(self, a, s):
            n = np.random.choice(self.n_states, p=self.T[a, s])
            o = np.random.choice(self.n_observations, p=self.O[a, n])
            return n, o, self.R[a, s, n, o]
        ''', opaque=q(M + 'n_states', M + 'n_actions', M + 'n_observations'))
    equiv(ctx, 'table indices', M + 'sample_start', '''
        def sample_start(self):
            return np.random.choice(self.n_states, p=self.start)
        ''', opaque=q(M + 'n_states'))
    equiv(ctx, 'table indices', M + 'belief_update', '''
        def belief_update(self, a, o, b):
            joint = b.dot(self.T[a]) * self.O[a, :, o]
            total = joint.sum()
            if total == 0.:
                raise Impossible()
            return joint / total
        ''', calls=('builtins.max', 'builtins.min', 'numpy.maximum'))
    equiv(ctx, 'dump', M + 'dump', '''
        def dump(self):
            names = [_dump_list_or_count(x)
                     for x in (self._s, self._a, self._o)]
            head = ('discount: {}\\nvalues: reward\\nstates: {}\\n'
                    'actions: {}\\nobservations: {}\\n').format(
                        self.discount, *names)
            parts = [head, 'start: ' + _dump_1d_array(np.asarray(self.start)),
                     _dump_3d_array(self.T, 'T', self.actions),
                     _dump_3d_array(self.O, 'O', self.actions),
                     _dump_4d_array(self.R, 'R', self.actions, self.states)]
            return '\\n\\n'.join(parts)
        ''', opaque=q(P + '_dump_1d_array', P + '_dump_3d_array',
                      P + '_dump_4d_array', P + '_dump_list_or_count'),
        calls=('.any', '.all', '.swapaxes', '.transpose'), ops=('join',))
    equiv(ctx, 'dump', P + '_dump_2d_array', '''
        def _dump_2d_array(a):
            return '\\n'.join([_dump_1d_array(row) for row in a])
        ''', opaque=q(P + '_dump_1d_array'))
    equiv(ctx, 'dump', P + '_dump_3d_array', '''
        def _dump_3d_array(a, name, xs):
            return '\\n'.join([name + ' : {}'.format(x) + '\\n' +
                              _dump_2d_array(a[i, :, :])
                              for i, x in enumerate(xs)])
        ''', opaque=q(P + '_dump_2d_array'))
    equiv(ctx, 'dump', P + '_dump_4d_array', '''
        def _dump_4d_array(a, name, xs, ys):
            return '\\n'.join([
                _dump_3d_array(a[i, :, :, :], name,
                               ['{} : {}'.format(x, y) for y in ys])
                for i, x in enumerate(xs)])
        ''', opaque=q(P + '_dump_3d_array'))
    equiv(ctx, 'dump', P + '_dump_list_or_count', '''
        def _dump_list_or_count(names):
            if isinstance(names, int):
                return str(names)
            return ' '.join([str(x) for x in names])
        ''')
    equiv(ctx, 'dump', P + '_dump_1d_array', '''
        def _dump_1d_array(a):
            total = np.around(a.sum(), decimals=DECIMALS)
            r = np.around(a, decimals=DECIMALS)
            i = np.argmax(r)
            r[i] = r[i] + (total - r.sum())
            return ' '.join([NUMBER_FORMAT.format(x) for x in r])
        ''')


def complete(t):
    """Only what was written by to_dict is read: nothing is missing."""
    return T.subst(t, {x: T.TRUE for x in T.subterms(t)
                       if isinstance(x, T.Term) and x.op == 'in' and
                       T.is_str(x.args[0])})


@rule('C11')
@rule('C32')
def json_models(ctx):
    equiv(ctx, 'json', M + 'to_dict', '''
        def to_dict(self):
            return {'T': self.T.tolist(), 'O': self.O.tolist(),
                    'R': self.R.tolist(), 'start': self.start.tolist(),
                    'discount': self.discount, 'states': self.states,
                    'actions': self.actions,
                    'observations': self.observations}
        ''', opaque=q(M + 'states', M + 'actions', M + 'observations'))
    equiv(ctx, 'json', M + 'from_dict', '''
        def from_dict(cls, d):
            return cls(np.asarray(d['T']), np.asarray(d['O']),
                       np.asarray(d['R']), np.asarray(d['start']),
                       d['discount'], states=d['states'],
                       actions=d['actions'], observations=d['observations'],
                       values='reward')
        ''', opaque=q(M + '__init__'), transform=complete)
    for c, init in ((M, M + '__init__'), (GP, GP + '__init__')):
        ops = q(c + 'from_dict', c + 'to_dict')
        equiv(ctx, 'json', c + 'from_json', '''
            def from_json(cls, s):
                return cls.from_dict(json.loads(s))
            ''', opaque=ops)
        equiv(ctx, 'json', c + 'load_from_json', '''
            def load_from_json(cls, path):
                with open(path) as f:
                    d = json.load(f)
                return cls.from_dict(d)
            ''', opaque=ops)
    equiv(ctx, 'json', M + 'as_json', '''
        def as_json(self):
            return json.dumps(self.to_dict())
        ''', opaque=q(M + 'to_dict'))
    equiv(ctx, 'json', M + 'save_as_json', '''
        def save_as_json(self, path):
            with open(path, 'w') as f:
                json.dump(self.to_dict(), f)
        ''', accept=('''
        def save_as_json(self, path):
            with open(path, 'w') as f:
                f.write(json.dumps(self.to_dict()))
        ''',), opaque=q(M + 'to_dict'),
        pick=watch('json.dump', 'write', writes=False))
    equiv(ctx, 'json', GP + 'to_json', '''
        def to_json(self, indent=None):
            return json.dumps(self.to_dict(), indent=indent)
        ''', opaque=q(GP + 'to_dict'))
    equiv(ctx, 'json', GP + 'save_as_json', '''
        def save_as_json(self, path, indent=None):
            with open(path, 'w') as f:
                json.dump(self.to_dict(), f, indent=indent)
        ''', accept=('''
        def save_as_json(self, path, indent=None):
            with open(path, 'w') as f:
                f.write(json.dumps(self.to_dict(), indent=indent))
        ''',), opaque=q(GP + 'to_dict'),
        pick=watch('json.dump', 'write', writes=False))
    equiv(ctx, 'json', GP + 'to_dict', '''
        def to_dict(self):
            return {'actions': self.actions,
                    'observations': self.observations,
                    'transitions': self.transitions.tolist(),
                    'values': self.values.tolist(),
                    'initial': str(self.init)}
        ''')
    equiv(ctx, 'json', GP + 'from_dict', '''
        def from_dict(cls, d):
            return cls(d['actions'], d['observations'], d['transitions'],
                       d['values'], init=int(d['initial']))
        ''', opaque=q(GP + '__init__'), transform=complete)


# ------------------------------------------------------------------- solver

def inside(ctx, rule, qn, manager, names):
    """The calls are made while the context is open."""
    r = ctx.run(qn, opaque=q(*names))
    entered = [e.val for e in r.events if e.kind == 'enter_with' and
               manager.split('.')[-1] in T.show(e.val, 3)]
    full = set(names) | set('task_models.' + n for n in names)
    for n in names:
        calls = [e for e in r.events if e.kind == 'call' and
                 e.d.get('name') in (n, 'task_models.' + n)]
        if not entered or not calls:
            ctx.unknown(rule, qn, 'context %s not recognised' % manager)
            return
        for e in calls:
            if not any(w in entered for w in e.withs):
                ctx.bad(rule, '%s: %s in context' % (qn, n),
                        '%s is called after the end of the context %s' % (
                            n, manager), e.where)
                return
    ctx.ok(rule, '%s: calls in context' % qn)


@rule('C12')
def solver(ctx):
    source = '''
        def solve(self, timeout=None, n_iterations=None, method='incprune',
                  grid_type=None, seed=None, verbose=False):
            args = []
            if timeout is not None:
                args = args + ['-time_limit', str(timeout)]
            if n_iterations is not None:
                args = args + ['-horizon', str(n_iterations)]
            if seed is None:
                seed = np.random.randint(1.e10)
            args = args + ['-rand_seed', str(seed)]
            if method == 'grid':
                args = args + ['-method', method, '-fg_type',
                               'simplex' if grid_type is None else grid_type]
            with TemporaryDirectory() as tmpdir:
                f = self.dump_to(tmpdir, 'tosolve')
                args = args + ['-o', 'tosolve', '-pomdp', f]
                with open(os.devnull, 'w') as DEVNULL:
                    subprocess.check_call(
                        [self._solver_path] + args, cwd=tmpdir,
                        stdout=None if verbose else DEVNULL)
                return self.load_policy_from(tmpdir, 'tosolve')
        '''
    equiv(ctx, 'solver', M + 'solve', source,
        # the solver reads its options in any order
        accept=(source.replace("'-o', 'tosolve', '-pomdp', f",
                               "'-pomdp', f, '-o', 'tosolve'"),),
        opaque=q(M + 'dump_to', M + 'load_policy_from'),
        pick=watch('subprocess.check_call', 'subprocess.call',
                   'subprocess.run', 'subprocess.Popen', 'os.system',
                   M + 'dump_to', M + 'load_policy_from'))
    equiv(ctx, 'solver input', M + 'dump_to', '''
        def dump_to(self, path, name):
            p = os.path.join(path, name + '.pomdp')
            with open(p, 'w') as f:
                f.write(self.dump())
            return p
        ''', opaque=q(M + 'dump'), pick=watch('open', 'builtins.open',
                                              'write', writes=False))
    source = '''
        def load_policy_from(self, path, name):
            with open(os.path.join(path, name + '.alpha'), 'r') as f:
                a, v = parse_value_function(f)
            with open(os.path.join(path, name + '.pg'), 'r') as f:
                b, g = parse_policy_graph(f)
            assert(a == b)
            assert(max(a) < len(self.actions))
            assert(all([t < len(g) for ts in g for t in ts if t is not None]))
            return GraphPolicy([self.actions[x] for x in a],
                               self.observations, g, v, start=self.start)
        '''
    forms = [source]
    for old, new in (
            ('max(a) < len(self.actions)',
             'all([x < len(self.actions) for x in a])'),
            ('if t is not None', 'if t'),  # the first node is always there
            ('return GraphPolicy([self.actions[x]',
             'names = self.actions; return GraphPolicy([names[x]')):
        forms += [x.replace(old, new) for x in forms]
    equiv(ctx, 'solver output', M + 'load_policy_from', source,
        accept=forms[1:], opaque=q(P + 'parse_value_function', P + 'parse_policy_graph',
                      GP + '__init__', M + 'actions', M + 'observations'))
    inside(ctx, 'solver', M + 'solve', 'tempfile.TemporaryDirectory',
           (M + 'dump_to', 'subprocess.check_call', M + 'load_policy_from'))
    inside(ctx, 'solver output', M + 'load_policy_from', 'builtins.open',
           (P + 'parse_value_function', P + 'parse_policy_graph'))
    for n in range(4):
        lines = ', '.join('l%d' % i for i in range(n))
        law(ctx, 'policy graph', P + 'parse_policy_graph', '''
            def f(%s):
                return parse_policy_graph([%s])
            ''' % (lines, lines), '''
            def f(%s):
                a = []
                t = []
                for i, l in enumerate([%s]):
                    l = l.rstrip()
                    cells = l.split(' ')
                    if int(cells[0]) != i:
                        raise AssertionError()
                    a.append(int(cells[1]))
                    t.append([None if x == '-' else int(x)
                              for x in cells[3:]])
                return a, t
            ''' % (lines, lines), 'policy graph of %d lines' % n)
    for n in range(5):
        lines = ', '.join('l%d' % i for i in range(n))
        want = '''
            def f(%s):
                full = [l for l in [%s] if not l.isspace()]
                a = []
                v = []
                pending = False
                for l in full:
                    if pending:
                        v.append(np.fromstring(l, sep=' '))
                    else:
                        a.append(int(l))
                    pending = not pending
                if pending:
                    raise ValueFunctionParseError()
                return a, np.vstack(v)
            ''' % (lines, lines)
        law(ctx, 'value function', P + 'parse_value_function', '''
            def f(%s):
                return parse_value_function([%s])
            ''' % (lines, lines), want, 'value function of %d lines' % n,
            accept=(want.replace('np.vstack', 'np.array'),))


# ------------------------------------------------------------------ policies

@rule('C24')
def graph_policy(ctx):
    equiv(ctx, 'policy', GP + '__init__', '''
        def __init__(self, actions, observations, transitions, values,
                     start=None, init=None):
            self.actions = actions
            self.observations = observations
            self.transitions = np.asarray(transitions)
            assert(self.transitions.shape == (len(actions),
                                              len(observations)))
            self.values = np.asarray(values)
            if init is not None:
                assert(init < len(actions))
                self.init = init
            elif start is not None:
                self.init = self.get_node_from_belief(start)
            else:
                raise ValueError()
        ''', opaque=q(GP + 'get_node_from_belief'),
        fields=('actions', 'observations', 'transitions', 'values', 'init'))
    equiv(ctx, 'policy', GP + 'get_node_from_belief', '''
        def get_node_from_belief(self, b):
            return self.values.dot(b[:, np.newaxis]).argmax()
        ''')
    equiv(ctx, 'policy', GP + 'get_action', '''
        def get_action(self, current):
            return self.actions[current]
        ''')
    equiv(ctx, 'policy', GP + 'next', '''
        def next(self, current, observation):
            return self.transitions[current,
                                    self.observations.index(observation)]
        ''')


@rule('C24')
def graph_runners(ctx):
    R = P + 'GraphPolicyRunner.'
    B = P + 'GraphPolicyBeliefRunner.'
    gp = q(GP + 'get_node_from_belief', GP + 'get_action', GP + 'next')
    equiv(ctx, 'graph runner', R + '__init__', '''
        def __init__(self, graph_policy):
            self.gp = graph_policy
            self.reset()
        ''', fields=('gp', 'current'))
    equiv(ctx, 'graph runner', R + 'reset', '''
        def reset(self, belief=None):
            if belief is None:
                self.current = self.gp.init
            else:
                self.current = self.gp.get_node_from_belief(belief)
        ''', fields=('current',))
    equiv(ctx, 'graph runner', R + 'get_action', '''
        def get_action(self):
            return self.gp.get_action(self.current)
        ''', fields=('current',))
    equiv(ctx, 'graph runner', R + 'step', '''
        def step(self, observation):
            n = self.gp.next(self.current, observation)
            if n is None:
                raise Impossible()
            self.current = n
        ''', fields=('current',))
    fs = ('current_belief', 'current')
    equiv(ctx, 'belief runner', B + 'reset', '''
        def reset(self, belief=None):
            if belief is None:
                belief = self.pomdp.start
            super(GraphPolicyBeliefRunner, self).reset(belief=belief)
            self.current_belief = belief
        ''', fields=fs)
    equiv(ctx, 'belief runner', B + '__init__', '''
        def __init__(self, graph_policy, pomdp):
            self.gp = graph_policy
            self.pomdp = pomdp
            self.reset()
        ''', fields=fs + ('gp', 'pomdp'))
    equiv(ctx, 'belief runner', B + 'step', '''
        def step(self, observation):
            a = self.pomdp.actions.index(self.get_action())
            o = self.pomdp.observations.index(observation)
            b = self.pomdp.belief_update(a, o, self.current_belief)
            self.reset(belief=b)
        ''', fields=fs, accept=('''
        def step(self, observation):
            a = self.pomdp.actions.index(self.get_action())
            o = self.pomdp.observations.index(observation)
            b = self.pomdp.belief_update(a, o, self.current_belief)
            self.current = self.gp.get_node_from_belief(b)
            self.current_belief = b
        ''',))
    ops = q(B + 'step', B + 'reset', B + 'trajectory_tree', R + 'get_action',
            B + '_rec_trajectory_tree')
    equiv(ctx, 'trajectories', B + '_rec_trajectory_tree', '''
        def _rec_trajectory_tree(self, obs, horizon):
            if horizon < 0:
                return None
            b = self.current_belief
            try:
                self.step(obs)
                t = self.trajectory_tree(horizon)
                self.reset(belief=b)
            except Impossible:
                return None
            return t
        ''', opaque=ops, pick=watch(B + 'step', B + 'reset',
                                    B + 'trajectory_tree'))
    equiv(ctx, 'trajectories', B + 'trajectory_tree', '''
        def trajectory_tree(self, horizon):
            kids = [(o, self._rec_trajectory_tree(o, horizon - 1))
                    for o in self.pomdp.observations]
            return {'belief': self.current_belief.tolist(),
                    'action': self.get_action(),
                    'node': int(self.current),
                    'observations': [o for o, k in kids if k is not None],
                    'children': [k for o, k in kids if k is not None]}
        ''', opaque=ops)
    equiv(ctx, 'trajectories', B + 'trajectory_trees_from_starts', '''
        def trajectory_trees_from_starts(self, horizon=5):
            trees = []
            for s in self.pomdp.start.nonzero()[0]:
                b = np.zeros(self.pomdp.start.shape)
                b[s] = 1.
                self.reset(belief=b)
                trees.append(self.trajectory_tree(horizon))
            return {'graphs': trees}
        ''', opaque=ops, pick=watch(B + 'reset', writes=False))
    equiv(ctx, 'trajectories', B + 'save_trajectories_from_starts', '''
        def save_trajectories_from_starts(self, dest, horizon=5, indent=None):
            with open(dest, 'w') as f:
                json.dump(self.trajectory_trees_from_starts(horizon=horizon),
                          f, indent=indent)
        ''', opaque=q(B + 'trajectory_trees_from_starts'),
        pick=watch('json.dump', writes=False))


@rule('C24')
def policy_runner(ctx):
    R = 'policy.PolicyRunner.'
    S = 'policy.PolicyLongSupportiveSequence.'
    equiv(ctx, 'runner', R + 'reset', '''
        def reset(self):
            self.history = []
        ''', fields=('history',))
    equiv(ctx, 'runner', R + 'step', '''
        def step(self, observation):
            if self._last_action is None:
                raise ValueError()
            o = self.observations.index(observation)
            self.history.append(self._last_action)
            self.history.append(o)
        ''', fields=('history', '_last_action'))
    fs = ('_to_bring', '_to_clean', '_needs_leg', '_last_action', '_n_done')
    equiv(ctx, 'sequence', S + '__init__', '''
        def __init__(self, model):
            super(PolicyLongSupportiveSequence, self).__init__(model)
            self._a_wait = model.actions.index('wait')
            self._o_none = model.observations.index('none')
            self.n_tasks = model.n_htm_states - 2
            self.tools = ['screws', 'screwdriver', 'joints']
            self._a_next_list = [model.actions.index('hold H')]
            self.reset()
        ''', opaque=q(S + 'reset'), pick=watch(S + 'reset', writes=False),
        fields=('_a_wait', 'n_tasks', 'tools', '_a_next_list'))
    equiv(ctx, 'sequence', S + 'reset', '''
        def reset(self):
            self.history = []
            self._to_bring = [self.actions.index('bring ' + o)
                              for o in self.tools]
            self._to_clean = [self.actions.index('clear ' + o)
                              for o in self.tools]
            self._needs_leg = True
            self._last_action = None
            self._n_done = 0
        ''', fields=fs + ('history',))
    choose = '''
        def get_action(self, iterations=None):
            if len(self._to_bring) > 0:
                a = self._to_bring[0]
            elif self._n_done %s self.n_tasks:
                a = (self.actions.index('bring leg') if self._needs_leg
                     else np.random.choice(self._a_next_list))
            elif len(self._to_clean) > 0:
                a = self._to_clean[0]
            else:
                a = self._a_wait
            self._last_action = a
            return self.actions[a]
        '''
    equiv(ctx, 'sequence', S + 'get_action', choose % '<',
          fields=('_last_action',), accept=[choose % '!='])
    step = '''
        def step(self, observation):
            if not (observation == 'fail' or observation == 'none' or
                    observation == 'not-found' and
                    self._last_action not in self._a_next_list):
                raise self.UnexpectedObservation()
            a = self._last_action
            super(PolicyLongSupportiveSequence, self).step(observation)
            if observation != 'fail':
                if a in self._to_bring:
                    self._to_bring.remove(a)
                elif a in self._to_clean:
                    self._to_clean.remove(a)
                elif a == self.actions.index('bring leg'):
                    self._needs_leg = False
                elif a in self._a_next_list:
                    self._n_done = self._n_done + 1
                    self._needs_leg = True
        '''
    others = [step]
    for n in ('_to_bring', '_to_clean'):
        others += [x.replace('self.%s.remove(a)' % n,
                             'self.%s = [x for x in self.%s if x != a]' % (
                                 n, n)) for x in others]
    equiv(ctx, 'sequence', S + 'step', step, fields=fs, opaque=q(R + 'step'),
          ops=('deleted', 'slc'), accept=others[1:],
          pick=watch(R + 'step', writes=False))


@rule('C24')
def visiting(ctx):
    A = P + '_Aux.'
    B = P + 'GraphPolicyBeliefRunner.'
    s = mk('sym', 'self')
    conts = tuple(mk('fld', s, n) for n in ('nodes', 'trans', 'actions'))
    def same_observations(I, st):
        # (read again, they are the same)
        I.overrides['task_models.' + A + 'observations'] = \
            lambda I, st, a, k: mk('fld', a[0], 'observations')
    equiv(ctx, 'extracted policy', A + 'observations', '''
        def observations(self):
            return self.pr.pomdp.observations
        ''')
    equiv(ctx, 'extracted policy', A + 'closest', '''
        def closest(self, b):
            if not self.nodes:
                return -1, np.inf
            d = np.sqrt(((np.vstack(self.nodes) - b) ** 2).sum(-1))
            i = d.argmin()
            return i, d[i]
        ''')
    source = '''
        def index(self, b):
            i, d = self.closest(b)
            if d < self.tol:
                return i
            n = len(self.nodes)
            self.nodes.append(b)
            self.trans.append([None for _ in self.observations])
            self.pr.reset(np.array(b))
            self.actions.append(self.pr.get_action())
            self.queue.put(n)
            return n
        '''
    equiv(ctx, 'extracted policy', A + 'index', source,
          accept=(source.replace('d < self.tol', 'd <= self.tol'),),
          opaque=q(A + 'closest'), setup=same_observations, conts=conts,
          pick=watch('put', 'reset', writes=False))
    explored = '''
        def visit(self):
            self.index(self.pr.pomdp.start)
            while not self.queue.empty() and \\
                    len(self.nodes) <= self.max_nodes:
                i = self.queue.get()
                for io, o in enumerate(self.observations):
                    try:
                        self.pr.reset(belief=np.array(self.nodes[i]))
                        self.pr.step(o)
                        j = self.index(self.pr.current_belief)
                        self.trans[i][io] = int(j)
                    except Impossible:
                        pass
        '''
    # (the beliefs that are stepped from, then all that is done)
    for names in (('reset',), (A + 'index', 'reset', 'step', 'put')):
        equiv(ctx, 'extracted policy', A + 'visit', explored,
              opaque=q(A + 'index'), setup=same_observations,
              pick=watch(*names, writes=len(names) > 1))
    equiv(ctx, 'extracted policy', B + 'visit', '''
        def visit(self, max_states=100):
            v = _Aux(self, max_nodes=max_states)
            v.visit()
            return GraphPolicy(v.actions, v.observations,
                               np.asarray(v.trans), np.vstack(v.nodes),
                               init=0)
        ''', opaque=q(A + 'visit', GP + '__init__', A + '__init__'))
