"""Rules for the supportive domain (task_models/supportive.py)."""

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, Canon, event_table, compare_effects
from . import rule

S = 'supportive._SupportivePOMDPState.'
P = 'supportive.SupportivePOMDP.'


# ------------------------------------------------------------ state encoding

def _is_bit(x):
    return x.op == 'mod' and x.args[1] is const(2)


def bit_values(t):
    """A bit is zero or one."""
    m = {}
    for x in T.subterms(t):
        if not isinstance(x, T.Term):
            continue
        if x.op == 'truth':
            (y,) = x.args
            if y.op == 'poly' and len(y.args) == 1:
                bits = [a for a, k in y.args[0][0] if _is_bit(a) and k == 1]
                rest = T.ONE
                for a, k in y.args[0][0]:
                    if not _is_bit(a):
                        rest = T.mul(rest, T.power(a, const(k)))
                if len(bits) == 1 and T.two(rest):
                    m[x] = T.eq(T.ONE, bits[0])
    t = T.subst(t, m) if m else t
    m = {x: T.ite(T.eq(T.ONE, x), T.ONE, T.ZERO)
         for x in T.subterms(t) if isinstance(x, T.Term) and _is_bit(x)}
    return T.subst(t, m) if m else t


@rule('C25')
def encoding(ctx):
    layout = ('_shift_body', '_shift_pref', '_shift_htm', '_final_htm', 's')
    equiv(ctx, 'layout', S + '__init__', '''
        def __init__(self, n_htm_states, n_preferences, n_body_features,
                     n_objects, s=0):
            self._shift_body = n_objects
            self._shift_pref = n_objects + n_body_features
            self._shift_htm = n_objects + n_body_features + n_preferences
            self._final_htm = n_htm_states - 1
            self.s = s
        ''', fields=layout)
    equiv(ctx, 'layout', P + '_int_to_state', '''
        def _int_to_state(self, s=0):
            return _SupportivePOMDPState(len(self.htm_nodes) + 2,
                                         len(self.preferences), 1,
                                         len(self.objects), s=s)
        ''', args={'s': mk('sym', 's')})
    tables(ctx, ('n_states',))
    equiv(ctx, 'layout', S + 'to_int', '''
        def to_int(self):
            return self.s
        ''')
    for q, expr in (('n_objects', 'self._shift_body'),
                    ('n_body_features', 'self._shift_pref - self._shift_body'),
                    ('n_preferences', 'self._shift_htm - self._shift_pref'),
                    ('n_htm', 'self._final_htm + 1'),
                    ('n_states',
                     '(self._final_htm + 1) * 2 ** self._shift_htm'),
                    ('is_final',
                     'self.s // 2 ** self._shift_htm == self._final_htm'),
                    ('htm', 'self.s // 2 ** self._shift_htm')):
        equiv(ctx, 'size', S + q, '''
            def get(self):
                return %s
            ''' % expr, fields=('s',))
    equiv(ctx, 'size', P + 'is_final', '''
        def is_final(self, s):
            return s // 2 ** (len(self.objects) + 1 + len(self.preferences)) \\
                == len(self.htm_nodes) + 1
        ''')
    equiv(ctx, 'write step', S + 'htm.setter', '''
        def htm(self, n):
            k = 2 ** self._shift_htm
            self.s = self.s + k * (n - self.s // k)
        ''', fields=('s',))
    equiv(ctx, 'copy', S + 'copy', '''
        def copy(self):
            return _SupportivePOMDPState(
                self._final_htm + 1, self._shift_htm - self._shift_pref,
                self._shift_pref - self._shift_body, self._shift_body, self.s)
        ''')
    source = """
        def belief_quotient(self, array):
            n = 2 ** self._shift_htm
            assert array.shape[0] == (self._final_htm + 1) * n
            return array.reshape((self._final_htm + 1, n)).sum(axis=1)
        """
    equiv(ctx, 'marginal', S + 'belief_quotient', source,
          accept=(source.replace('+ 1, n)', '+ 1, -1)'),), raises=False,
          calls=('.max', '.min', '.mean'))
    source = """
        def belief_preferences(self, array):
            n = 2 ** self._shift_pref
            k = self._shift_htm - self._shift_pref
            assert array.shape[0] == (self._final_htm + 1) * 2 ** k * n
            pp = array.reshape([self._final_htm + 1] + [2 for _ in range(k)]
                               + [n]).sum(axis=-1).sum(axis=0)

            def marginal(j):
                sel = [slice(None) for _ in pp.shape]
                sel[j] = LAST
                return pp[tuple(sel)].sum()
            return [marginal(i) for i, _ in enumerate(PREFERENCES)]
        """
    # (each axis has two places)
    forms = [source.replace('LAST', i).replace('PREFERENCES', n)
             for i in ('-1', '1') for n in ('pp.shape', 'range(k)')]
    equiv(ctx, 'marginal', S + 'belief_preferences', forms[0],
          accept=forms[1:], raises=False)
    for name, shift, n in (
            ('random_object_changes', '0', 'self._shift_body'),
            ('random_preference_changes', 'self._shift_pref',
             '(self._shift_htm - self._shift_pref)')):
        equiv(ctx, 'random flips', S + name, '''
            def flip(self, p):
                for i in (np.random.random((%s)) < p).nonzero()[0]:
                    k = 2 ** (%s + i)
                    b = (self.s // k) %% 2
                    self.s = self.s + k * (1 - b - b)
            ''' % (n, shift), fields=('s',), transform=bit_values)
    for name, bit in (('has_preference', 'self._shift_pref + i'),
                      ('has_body_feature', 'self._shift_body + i'),
                      ('has_object', 'i')):
        equiv(ctx, 'read bit', S + name, '''
            def get(self, i):
                return (self.s // 2 ** (%s)) %% 2
            ''' % bit, transform=bit_values)
    for name, bit, b in (('set_preference', 'self._shift_pref + i', 'pref'),
                         ('set_body_feature', 'self._shift_body + i', 'b'),
                         ('set_object', 'i', 'b')):
        for v in (0, 1):
            equiv(ctx, 'write bit', S + name, '''
                def set(self, i, %s):
                    k = 2 ** (%s)
                    self.s = self.s + k * (%s - (self.s // k) %% 2)
                ''' % (b, bit, b), fields=('s',), args={b: const(v)},
                construct='%s: bit %d' % (S + name, v), transform=bit_values)


# ---------------------------------------------------- abstract state records
#
# In the rules below, an encoded state is a record of a task step and a vector
# of bits (C25 shows that the encoding behaves like one).

CLS = 'task_models.supportive._SupportivePOMDPState.'


def _H(s):
    if s.op == 'ite':
        return T.ite_map(s, _H)
    if s.op == 'call' and s.args[0] == 'state':
        return s.args[1][0]
    if s is T.ZERO:
        return T.ZERO
    return mk('call', 'H', (s,), ())


def _B(s):
    if s.op == 'ite':
        return T.ite_map(s, _B)
    if s.op == 'call' and s.args[0] == 'state':
        return s.args[1][1]
    return mk('call', 'B', (s,), ())


def _state(h, b):
    def f(h, b):
        if h.op == 'call' and h.args[0] == 'H' and b.op == 'call' and \
                b.args[0] == 'B' and h.args[1] == b.args[1]:
            return h.args[1][0]
        return mk('call', 'state', (h, b), ())
    return T.lift(f, h, b)


def _zero_bits(t):
    z = mk('call', 'B', (T.ZERO,), ())
    m = {x: T.ZERO for x in T.subterms(t)
         if x.op == 'idx' and x.args[0] is z}
    return T.subst(t, m) if m else t


def state_record(I, st):
    """Overrides the accessors of encoded states."""
    def cur(st, o):
        return st.fields.get((o, 's'), mk('fld', o, 's'))

    def put(I, st, o, v):
        st.fields[(o, 's')] = v

    def getter(I, st, args, kw):
        return _H(I.val(st, cur(st, args[0])))

    def setter(I, st, args, kw):
        o, n = args
        s = I.val(st, cur(st, o))
        put(I, st, o, _state(I.val(st, n), _B(s)))
        return T.NONE

    def get_bit(I, st, args, kw):
        if kw or len(args) != 2:
            return None
        o, i = args
        return T.ite_map(
            _zero_bits(T.idx(_B(I.val(st, cur(st, o))), I.val(st, i))),
            lambda x: x if x.op == 'const' else T.ite(T.eq(T.ONE, x),
                                                      T.ONE, T.ZERO))

    def set_bit(I, st, args, kw):
        if kw or len(args) != 3:
            return None
        o, i, b = args
        s = I.val(st, cur(st, o))
        put(I, st, o, _state(_H(s), T.upd(_B(s), I.val(st, i), I.val(st, b))))
        return T.NONE

    def noise(name):
        def f(I, st, args, kw):
            o = args[0]
            s = I.val(st, cur(st, o))
            p = list(args[1:]) + list(kw.values())
            put(I, st, o, _state(_H(s), mk(
                'call', name, (_B(s),) + tuple(I.val(st, x) for x in p), ())))
            return T.NONE
        return f
    I.overrides.update({
        CLS + 'htm': getter, CLS + 'htm.setter': setter,
        CLS + '_get_bit': get_bit, CLS + '_set_bit': set_bit,
        CLS + 'random_object_changes': noise('object_noise'),
        CLS + 'random_preference_changes': noise('preference_noise')})


def raw_state_access(r):
    """Whether the run writes encoded states other than through the
    accessors (then the record abstraction says nothing)."""
    return [e for e in r.events if e.kind == 'write' and e.attr == 's' and
            not any(x.endswith('.__init__') for x in e.stack)]


BASIC = ('A_WAIT', 'A_HOLD_H', 'A_HOLD_V', 'A_ASK')

SPEC_TRANSITION = '''
def sample_transition(self, a, s, random=True):
    old = self._int_to_state(s)
    if random:
        old.random_object_changes(self.p_changed_by_human)
        old.random_preference_changes(self.p_change_preference)
    new = self._int_to_state(old.to_int())

    def noise():
        return random and np.random.random() < 1

    def apply(c, o):
        cost = 0. if new.has_object(o) else -self.cost_get
        if c == CONSUMES:
            new.set_object(o, 0)
        elif c == CONSUMES_SOME:
            new.set_object(o, 0 if np.random.random() < self.p_consume_all else 1)
        elif c == USES:
            new.set_object(o, 1)
        return cost

    def advance(r):
        new.htm = np.random.choice(self.htm_succs[old.htm])
        r = r + sum([apply(c, o) for c, o in self.htm_conditions[old.htm]])
        r = r + self.r_subtask
        if self.reward_independent_preference and not old.has_preference(0):
            r = r + self.r_preference - self.cost_hold
        return r
    if a == self.A_ASK:
        if old.has_preference(0):
            if not random or np.random.random() < .9:
                obs = 3
            else:
                obs = 0
        else:
            if not random or np.random.random() < .95:
                obs = 4
            else:
                obs = 0
        return (new.to_int(), obs, -self.cost_intrinsic)
    if a == self.A_WAIT or a == self.A_HOLD_H or a == self.A_HOLD_V:
        hold = a != self.A_WAIT
        r = -self.cost_hold if hold else 0
        if old.htm == len(self.htm_nodes) + 1:
            return (new.to_int(), 0, r)
        if old.htm == len(self.htm_nodes):
            if hold:
                return (new.to_int(), 1, r)
            new.htm = len(self.htm_nodes) + 1
            for o, _ in enumerate(self.objects):
                r -= self.cost_get * old.has_object(o)
            return (new.to_int(), 0, r + self.r_final)
        needs = self.htm_nodes[old.htm].action.hold
        helped = old.has_preference(0) and (
            (needs == 'h' and a == self.A_HOLD_H) or
            (needs == 'v' and a == self.A_HOLD_V))
        if helped:
            return (0, 0, advance(r + self.r_preference))[0:0] or finish(advance(r + self.r_preference))
        if hold and (not random or np.random.random() < .98):
            return (new.to_int(), 1, r)
        return finish(advance(r))
    obj = self._obj_from_action(a)
    bring = 1 if self._is_bring(a) else 0
    if old.has_object(obj) == bring:
        return (new.to_int(), 2, -self.cost_intrinsic)
    if random and np.random.random() < self.p_fail:
        return (new.to_int(), 1, -self.cost_intrinsic)
    new.set_object(obj, bring)
    return (new.to_int(), 0, -self.cost_intrinsic)
'''.replace('''            return (0, 0, advance(r + self.r_preference))[0:0] or finish(advance(r + self.r_preference))
''', '''            r = advance(r + self.r_preference)
            return (new.to_int(), 0, r)
''').replace('''        return finish(advance(r))
''', '''        r = advance(r)
        return (new.to_int(), 0, r)
''')


def anonymous_noise(t):
    """Forgets the probabilities of random events."""
    m = {}
    for x in T.subterms(t):
        if x.op == 'lt' and any(y.op == 'icall' and
                                y.args[2] == 'numpy.random.random'
                                for y in x.args):
            c = [y for y in x.args if y.op == 'icall' and
                 y.args[2] == 'numpy.random.random'][0]
            # (draws are independent: which one it is does not matter)
            m[x] = T.cond(mk('noise', len(c.args[6])))
    return kinds(T.subst(t, m) if m else t)


def kinds(t):
    """The kind of a condition is one of three."""
    m = {}
    two = const(2)
    for x in T.subterms(t):
        if isinstance(x, T.Term) and x.op == 'eq' and two in x.args:
            y = x.args[0] if x.args[1] is two else x.args[1]
            if y.op == 'idx' and y.args[1] is T.ZERO and any(
                    z.op == 'fld' and z.args[1] in ('htm_conditions',
                                                    'conditions')
                    for z in T.subterms(y) if isinstance(z, T.Term)):
                m[x] = T.and_(T.not_(T.eq(y, T.ZERO)),
                              T.not_(T.eq(y, T.ONE)))
    return T.subst(t, m) if m else t


# ------------------------------------------------- dynamics and observations

def simulate(ctx, parts, **kw):
    """Compares sample_transition with its specification, for each kind of
    action (parts: which of new state, observation and reward)."""
    fi = ctx.world.fn(P + 'sample_transition')
    for name, rnd, same in [
            (name, rnd, same) for name in BASIC + (None,)
            for rnd in (False, True) for same in (False, True)
            if not same or name in ('A_WAIT', 'A_HOLD_H', 'A_HOLD_V')]:
        def setup(I, st):
            state_record(I, st)
            # (the default, or set for a model)
            if same:
                st.fields[(mk('sym', 'self'),
                           'reward_independent_preference')] = T.TRUE
            if name is None:
                a = mk('sym', 'a')
                st.pc = T.lt(max([value(ctx, n) for n in BASIC], key=T.num),
                             a)
        args = {'random': const(rnd)}
        if name is not None:
            args['a'] = value(ctx, name)
        what = '%s, %s%s' % (name or 'object action',
                             'random' if rnd else 'deterministic',
                             ', same total' if same else '')
        r = equiv(ctx, 'transition', fi, SPEC_TRANSITION, args=args,
                  setup=setup, transform=anonymous_noise, parts=parts,
                  construct='sample_transition (%s)' % what,
                  calls=('builtins.min', 'builtins.max'), **kw)
        if r is not None and raw_state_access(r[0]):
            ctx.unknown('transition', what, 'raw access to the state')


def value(ctx, name):
    """Value of a class constant."""
    r = ctx.run(ctx.spec('def f(self):\n    return self.%s' % name,
                         like=P + 'sample_transition'), spec=True)
    if r.val.op != 'const':
        raise T.Limit('%s is not a constant' % name)
    return r.val


@rule('C14')
def dynamics(ctx):
    simulate(ctx, {0: 'new state'})
    tables(ctx, ('htm_conditions', 'objects'))


@rule('C15')
def feedback(ctx):
    simulate(ctx, {1: 'observation', 2: 'reward'})
    equiv(ctx, 'constants', ctx.spec('''
        def names(self):
            return [self.observations[o] for o in
                    (self.O_NONE, self.O_FAIL, self.O_NOT_FOUND, self.O_YES,
                     self.O_NO)] + [self.n_observations,
                                    self.preferences[self.PREF_HOLD]]
        ''', like=P + 'sample_transition'), '''
        def names(self):
            return ['none', 'fail', 'not-found', 'yes', 'no', 5, 'hold']
        ''', construct='names of observations')


@rule('C14')
def start(ctx):
    def setup(I, st):
        state_record(I, st)
    equiv(ctx, 'start', P + 'sample_start', '''
        def sample_start(self):
            first = np.random.choice(self.htm_init)
            s = self._int_to_state()
            s.htm = first
            for i, p in enumerate(self.p_preferences):
                s.set_preference(i, 1 if np.random.random() < p else 0)
            s.random_object_changes(self.p_changed_by_human)
            return s.to_int()
        ''', setup=setup)


# ----------------------------------------------------------- action numbering

TABLES = ('discount', 'htm_nodes', 'htm_succs', 'htm_init', 'objects',
          'clearable', 'htm_conditions', 'n_states', '_a_bring', '_a_clear',
          'n_actions')

SPEC_INIT = '''
def __init__(self, htm, discount=1.):
    self.discount = discount
    dag = _HTMToDAG(htm)
    self.htm_nodes = dag.nodes
    self.htm_succs = [x if len(x) > 0 else [len(dag.nodes)] for x in dag.succs]
    self.htm_init = dag.init
    self.objects = []
    self.clearable = []
    self.htm_conditions = [[] for _ in self.htm_nodes]
    for n, conditions in zip(self.htm_nodes, self.htm_conditions):
        for c, o in n.action.conditions:
            if o not in self.objects:
                self.objects.append(o)
                self.clearable.append(False)
            i = self.objects.index(o)
            if c == USES or c == CONSUMES_SOME:
                self.clearable[i] = True
            conditions.append((c, i))
    self.n_states = (len(self.htm_nodes) + 2) * 2 ** (
        len(self.preferences) + 1 + len(self.objects))
    self._a_bring = [None for _ in self.objects]
    self._a_clear = [None for _ in self.objects]
    j = 4
    for o, c in enumerate(self.clearable):
        self._a_bring[o] = j
        j += 1
        if c:
            self._a_clear[o] = j
            j += 1
    self.n_actions = 4 + len(self.objects) + sum(self.clearable)
'''
DAG = 'task_models.supportive._HTMToDAG.'


def tables(ctx, names):
    equiv(ctx, 'model tables', P + '__init__', SPEC_INIT, fields=names,
          opaque={DAG + '__init__', DAG + 'get_initial_final'}, val=False,
          transform=kinds)


@rule('C16')
def numbering(ctx):
    tables(ctx, ('objects', 'clearable', '_a_bring', '_a_clear', 'n_actions'))
    equiv(ctx, 'action names', P + 'actions', '''
        def actions(self):
            names = ['wait', 'hold H', 'hold V', 'ask hold']
            for o, c in zip(self.objects, self.clearable):
                names.append('bring ' + o)
                if c:
                    names.append('clear ' + o)
            return names
        ''')
    equiv(ctx, 'action codes', ctx.spec('''
        def codes(self):
            return [self.A_WAIT, self.A_HOLD_H, self.A_HOLD_V, self.A_ASK]
        ''', like=P + 'sample_transition'), '''
        def codes(self):
            return [0, 1, 2, 3]
        ''', construct='codes of the first actions')
    equiv(ctx, 'action of object', P + '_bring', '''
        def _bring(self, obj):
            return self._a_bring[obj]
        ''')
    equiv(ctx, 'action of object', P + '_clear', '''
        def _clear(self, obj):
            if self._a_clear[obj] is None:
                raise ValueError()
            return self._a_clear[obj]
        ''')
    equiv(ctx, 'object of action', P + '_obj_from_action', '''
        def _obj_from_action(self, a):
            if a in self._a_bring:
                return self._a_bring.index(a)
            if a in self._a_clear:
                return self._a_clear.index(a)
            raise ValueError()
        ''')
    equiv(ctx, 'object of action', P + '_is_bring', '''
        def _is_bring(self, a):
            return a in self._a_bring
        ''')
    equiv(ctx, 'names', P + 'features', '''
        def features(self):
            return (['HTM'] + [p + '-preference' for p in self.preferences] +
                    ['holding'] + self.objects)
        ''')
    equiv(ctx, 'names', P + 'htm_names', '''
        def htm_names(self):
            return [n.name for n in self.htm_nodes] + ['clean', 'final']
        ''')


# -------------------------------------------------- flattening of tasks

def unordered(t):
    """The order of the elements of a set does not matter; as many lists of
    successors as leaves."""
    m = {x: mk('elts', x.args[0]) for x in T.subterms(t)
         if x.op == 'sorted' and len(x.args) == 1 and x.args[0].op == 'set'}
    m.update({x: x.args[0] for x in T.subterms(t)
              if x.op == 'sorted' and len(x.args) == 1 and
              x.args[0].op == 'elts'})
    for x in T.subterms(t):
        y = without_duplicates(x)
        if y is not None:
            m[x] = mk('elts', mk('set', ('s', y)))
        if x.op == 'len' and x.args[0].op == 'fld' and \
                x.args[0].args[1] == 'succs':
            m[x] = mk('len', mk('fld', x.args[0].args[0], 'nodes'))
    return T.subst(t, m) if m else t


def without_duplicates(x):
    """The sequence of which the term lists the different items."""
    if x.op == 'keys' and x.args[0].op == 'dict' and \
            len(x.args[0].args) == 1 and x.args[0].args[0][0] == 'm':
        # dict.fromkeys
        _, dom, b = x.args[0].args[0]
        iv = T.fresh_iv()
        body = T.open_bind(b, iv)
        lit = T.seq_literal(body) if body.op == 'seq' else None
        k = lit[0] if lit and len(lit) == 2 else None
    elif x.op == 'seq' and len(x.args) == 1 and x.args[0][0] == 'm':
        # those that are not among the previous ones
        _, dom, b = x.args[0]
        iv = T.fresh_iv()
        body = T.open_bind(b, iv)
        if body.op != 'ite' or body.args[0].op != 'in':
            return None
        k, seen = body.args[0].args
        if body.args[1] is not T.seq() or \
                body.args[2] is not T.seq_elems(k) or \
                seen is not T.slice_(k.args[0], T.ZERO, iv):
            return None
    else:
        return None
    if k is not None and k.op == 'idx' and k.args[1] is iv and \
            T.length(k.args[0]) is dom:
        return k.args[0]
    return None


@rule('C18')
def flattening(ctx):
    q = 'supportive._HTMToDAG.get_initial_final'
    s = mk('sym', 'self')
    equiv(ctx, 'chaining', q, '''
        def get_initial_final(self, node):
            if isinstance(node, LeafCombination):
                self.nodes.append(node)
                self.succs.append([])
                i = len(self.nodes) - 1
                return ([i], [i])
            if isinstance(node, ParallelCombination):
                node = node.to_alternative()
            first, last = zip(*[self.get_initial_final(c)
                                for c in node.children])
            if isinstance(node, SequentialCombination):
                for k in range(len(last) - 1):
                    for l in last[k]:
                        self.succs[l] = first[k + 1]
                return (first[0], last[-1])
            if isinstance(node, AlternativeCombination):
                return (list(set(chain(*first))), list(set(chain(*last))))
            raise ValueError()
        ''', opaque={DAG + 'get_initial_final'}, transform=unordered,
          ops=('indexof',), conts=(mk('fld', s, 'nodes'), mk('fld', s, 'succs')))
    equiv(ctx, 'entry', 'supportive._HTMToDAG.__init__', '''
        def __init__(self, node):
            self.nodes = []
            self.succs = []
            self.init = self.get_initial_final(node)[0]
        ''', fields=('init', 'nodes', 'succs'),
          opaque={DAG + 'get_initial_final'})
    tables(ctx, ('htm_nodes', 'htm_succs', 'htm_init'))
    equiv(ctx, 'states of the task', P + 'n_htm_states', '''
        def n(self):
            return len(self.htm_nodes) + 2
        ''')
    equiv(ctx, 'states of the task', P + 'htm_clean', '''
        def n(self):
            return len(self.htm_nodes)
        ''')
    equiv(ctx, 'states of the task', P + 'htm_final', '''
        def n(self):
            return len(self.htm_nodes) + 1
        ''')
