"""Rules for actions, states and tasks (action.py, state.py, task.py)."""

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, law, defaults
from . import rule

G = 'task.BaseGraph.'
GQ = 'task_models.' + G


# ------------------------------------------------------------- task graphs

def graph_record(I, st):
    """Abstracts graphs to the transitions added to and removed from them (the
    laws below show that they behave like sets of transitions)."""
    def record(name):
        def f(I, st, args, kw):
            if kw or len(args) != 4:
                return None
            I.log('graph', st, name=name, base=args[0],
                  val=tuple(I.val(st, a) for a in args[1:]))
            return T.NONE
        return f
    I.overrides[GQ + 'add_transition'] = record('add')
    I.overrides[GQ + 'remove_transition'] = record('remove')


def graph_effects(e):
    if e.kind == 'graph':
        return (const(e.name),) + tuple(e.val)
    if e.kind in ('setitem', 'mutate', 'write', 'delitem'):
        for x in (e.d.get('base'),):
            if x is not None and any(
                    y.op == 'fld' and y.args[1] == 'transitions'
                    for y in T.subterms(x)):
                return (mk('raw access to transitions'),)
    return None


def has_source(I, st):
    # a transition from s was added before
    t = mk('fld', mk('sym', 'self'), 'transitions')
    st.pc = I.contains(st, const('s'), t)


@rule('C20')
def graphs(ctx):
    like = G + 'has_transition'
    for op, others in (('add', True), ('remove', True)):
        for probe in (('s', 'l', 'd'), ('t', 'l', 'd'), ('s', 'm', 'd'),
                      ('s', 'l', 'e'), ('d', 'l', 's')):
            same = probe == ('s', 'l', 'd')
            want = ('True' if op == 'add' else 'False') if same else \
                'x in self.transitions and (y, z) in self.transitions[x]'
            if same and op == 'remove':
                want = 'False'
            law(ctx, 'set of transitions', like, '''
                def f(self, a, b, c, x, y, z):
                    self.%s_transition(a, b, c)
                    return self.has_transition(x, y, z)
                ''' % op, '''
                def f(self, a, b, c, x, y, z):
                    return %s
                ''' % want,
                '%s_transition(s, l, d) then has_transition%s' % (
                    op, str(probe).replace("'", '')),
                args=dict(zip('abcxyz', [const(v) for v in
                                         ('s', 'l', 'd') + probe])),
                setup=has_source if op == 'remove' else None)
    equiv(ctx, 'set of transitions', like, '''
        def has_transition(self, source, label, destination):
            return source in self.transitions and \\
                (label, destination) in self.transitions[source]
        ''')
    equiv(ctx, 'set of transitions', G + 'all_transitions', '''
        def all_transitions(self):
            for s, out in self.transitions.items():
                for (l, d) in out:
                    yield (s, l, d)
        ''')
    equiv(ctx, 'set of transitions', G + 'all_nodes', '''
        def all_nodes(self):
            return set([n for s, out in self.transitions.items()
                        for (l, d) in out for n in (s, d)])
        ''')


@rule('C20')
def paths(ctx):
    equiv(ctx, 'valid path', 'task.check_path', '''
        def check_path(path):
            if len(path) == 0:
                return True
            if not isinstance(path[0], State):
                return False
            if len(path) == 1:
                return True
            return (isinstance(path[1], Action) and len(path) > 2 and
                    isinstance(path[2], State) and
                    path[1].check(path[0], path[2]) and
                    check_path(path[2:]))
        ''', opaque={'task_models.task.check_path'})
    equiv(ctx, 'steps of a path', 'task.split_path', '''
        def split_path(path):
            return [(path[i], path[i + 1], path[i + 2])
                    for i in range(0, len(path) - 2, 2)]
        ''')
    equiv(ctx, 'accepted path', 'task.TaskGraph.has_path', '''
        def has_path(self, path):
            if not check_path(path):
                raise ValueError()
            return (len(path) == 0 or
                    path[0] in self.initial and path[-1] in self.terminal and
                    all([self.has_transition(a, b, c)
                         for a, b, c in split_path(path)]))
        ''', opaque={'task_models.task.check_path'})
    s = mk('sym', 'self')
    equiv(ctx, 'recorded path', 'task.TaskGraph.add_path', '''
        def add_path(self, path):
            if not check_path(path):
                raise ValueError()
            for a, b, c in split_path(path):
                self.add_transition(a, b, c)
            if len(path) > 0:
                self.initial.add(path[0])
                self.terminal.add(path[-1])
        ''', opaque={'task_models.task.check_path'}, setup=graph_record,
        pick=graph_effects, conts=(mk('fld', s, 'initial'),
                                   mk('fld', s, 'terminal')))


@rule('C20')
def conjugate(ctx):
    t = 'task.TaskGraph.check_only_deterministic_transitions'
    equiv(ctx, 'determinism', t + '_from_state', '''
        def check(self, s):
            seen = set()
            for (a, sn) in self.transitions[s]:
                if a in seen:
                    raise ValueError()
                seen.add(a)
        ''', accept=('''
        def check(self, s):
            seen = [a for a, _ in self.transitions[s]]
            if len(set(seen)) != len(seen):
                raise ValueError()
        ''',))
    equiv(ctx, 'determinism', t, '''
        def check(self):
            for s in self.transitions:
                self.check_only_deterministic_transitions_from_state(s)
        ''', opaque={'task_models.' + t + '_from_state'}, pick=calls_of(
            t + '_from_state'))
    C = 'task.ConjugateTaskGraph.'
    equiv(ctx, 'conjugate', C + 'from_task_graph', '''
        def from_task_graph(cls, tg):
            g = cls()
            tg.check_only_deterministic_transitions()
            for s in tg.initial:
                for (a, _) in tg.transitions.get(s, ()):
                    g.add_transition(g.initial, s, a)
            for s, out in tg.transitions.items():
                for (a, s1) in out:
                    if s1 in tg.terminal:
                        g.add_transition(a, s1, g.terminal)
                    for (b, _) in tg.transitions.get(s1, ()):
                        g.add_transition(a, s1, b)
            return g
        ''', setup=graph_record, pick=graph_effects,
        types={'tg': 'task.TaskGraph'},
        opaque={'task_models.' + t})
    equiv(ctx, 'only tasks without ambiguity', C + 'from_task_graph', '''
        def from_task_graph(cls, tg):
            for s in tg.transitions:
                seen = set()
                for (a, sn) in tg.transitions[s]:
                    if a in seen:
                        raise ValueError()
                    seen.add(a)
        ''', setup=graph_record, val=False, types={'tg': 'task.TaskGraph'},
        accept=('''
        def from_task_graph(cls, tg):
            for s in tg.transitions:
                seen = [a for a, _ in tg.transitions[s]]
                if len(set(seen)) != len(seen):
                    raise ValueError()
        ''',))
    equiv(ctx, 'conjugate', 'task.TaskGraph.conjugate', '''
        def conjugate(self):
            return ConjugateTaskGraph.from_task_graph(self)
        ''', opaque={'task_models.' + C + 'from_task_graph'})
    for q, extra in ((G + 'compact', ''), (C + 'compact', '''
            if self.initial in nodes:
                self.initial = new_node
            if self.terminal in nodes:
                self.terminal = new_node
            ''')):
        equiv(ctx, 'compaction', q, '''
        def compact(self, nodes, new_node):
            inside = set(nodes)
            for (s, l, d) in list(self.all_transitions()):
                a, b = s in inside, d in inside
                if a or b:
                    self.remove_transition(s, l, d)
                    if not a:
                        self.add_transition(s, '', new_node)
                    elif not b:
                        self.add_transition(new_node, '', d)
''' + extra, setup=graph_record, pick=graph_effects,
              fields=('initial', 'terminal'))


def calls_of(*names):
    """Effects: calls of some functions."""
    names = ['task_models.' + n for n in names]

    def pick(e):
        if e.kind == 'call' and e.d.get('name') in names:
            return (const(e.name),) + tuple(e.args)
    return pick


@rule('C20')
def exported(ctx):
    """The description of a graph numbers its nodes, and gives its transitions
    between these numbers."""
    equiv(ctx, 'exported graph', 'task.BaseGraph.as_dictionary', '''
        def as_dictionary(self, name=''):
            nodes = self.all_nodes()
            numbers = {n: i for i, n in enumerate(nodes)}
            return {'name': name,
                    'nodes': [{'id': i, 'value': {'label': str(n)}}
                              for i, n in enumerate(nodes)],
                    'links': [{'u': numbers[u], 'v': numbers[v],
                               'value': {'label': str(l)}}
                              for u, l, v in self.all_transitions()]}
        ''', opaque={'task_models.task.BaseGraph.all_nodes',
                    'task_models.task.BaseGraph.all_transitions'},
          transform=unsorted)


def unsorted(t):
    """Nodes of a graph can be numbered in any order."""
    m = {x: x.args[0] for x in T.subterms(t)
         if isinstance(x, T.Term) and x.op == 'sorted'}
    return T.subst(t, m) if m else t


# ------------------------------------------------------ saved and loaded tasks

AD = set('task_models.task.%s.as_dictionary' % c for c in (
    'Combination', 'LeafCombination'))
B = 'json_to_htm.build_htm'


@rule('C08')
def saved(ctx):
    for k in ('Sequential', 'Parallel', 'Alternative'):
        equiv(ctx, 'saved node', 'task.Combination.as_dictionary', '''
            def as_dictionary(self, parent_id, id_generator):
                i = next(id_generator)
                return {'name': self.name, 'id': i, 'parent': parent_id,
                        'combination': '%s',
                        'attributes': (['highlighted'] if self.highlighted
                                       else []),
                        'children': [c.as_dictionary(i, id_generator)
                                     for c in self.children]}
            ''' % k, cls='task.%sCombination' % k,
            construct='as_dictionary of %s nodes' % k, pick=next_id)
    equiv(ctx, 'saved node', 'task.LeafCombination.as_dictionary', '''
        def as_dictionary(self, parent_id, id_generator):
            i = next(id_generator)
            return {'name': self.action.name, 'id': i, 'parent': parent_id,
                    'combination': None,
                    'attributes': ((['highlighted'] if self.highlighted
                                    else []) +
                                   ([self.action.agent] if
                                    self.action.agent != 'None' else []))}
        ''', pick=next_id)
    equiv(ctx, 'saved tree', 'task.HierarchicalTask.as_dictionary', '''
        def as_dictionary(self, name=None):
            if name is None:
                name = 'Hierarchical task tree'
            if self.root is None:
                return {'name': name, 'nodes': None}
            return {'name': name,
                    'nodes': self.root.as_dictionary(None, int_generator())}
        ''')


@rule('C08')
def numbers(ctx):
    """Identifiers are all different."""
    r = ctx.run('task.int_generator')
    ys = [e for e in r.events if e.kind == 'yield']
    if not ys or r.interp.unsupported:
        ctx.unknown('numbering', 'task.int_generator', 'not understood')
        return
    for e in ys:
        ivs = [x for x in T.subterms(e.val) if isinstance(x, T.Term) and
               x.op == 'iv']
        known = {x.op for x in T.subterms(e.val) if isinstance(x, T.Term)} <= {
            'const', 'poly', 'iv'}
        if e.loops and all(l.dom is not None and T.is_num(l.dom)
                           for l in e.loops):
            ctx.bad('numbering', 'task.int_generator: enough of them',
                    'there are at most %s identifiers' % ' times '.join(
                        T.show(l.dom) for l in e.loops), e.where)
        ctx.decide('numbering', 'task.int_generator',
                   None if not known or len(ys) > 1 else bool(ivs),
                   'all nodes get the same identifier: %s' % T.show(e.val),
                   '%s:%d' % (r.fi.module.path, r.fi.node.lineno))


def next_id(e):
    """Identifiers drawn: one for each node."""
    if e.kind in ('call', 'next') and e.d.get('name') == 'builtins.next':
        return (const('next id'),)


@rule('C08')
def loaded(ctx):
    equiv(ctx, 'loaded node', B, '''
        def build_htm(node):
            light = 'highlighted' in node['attributes']
            if 'children' not in node:
                agents = [a for a in node['attributes'] if a != 'highlighted']
                if len(agents) > 0:
                    action = Action(node['name'], agents[0])
                else:
                    action = Action(node['name'])
                return LeafCombination(action, node['id'], node['parent'],
                                       light)
            return COMBINATION_CLASSES[node['combination']](
                [build_htm(c) for c in node['children']], name=node['name'],
                idx=node['id'], parent=node['parent'], highlighted=light)
        ''', opaque={'task_models.' + B})
    equiv(ctx, 'loaded tree', 'json_to_htm.json_to_htm', '''
        def json_to_htm(json_path):
            with open(json_path, 'r', encoding='utf-8') as f:
                return HierarchicalTask(build_htm(json.load(f)['nodes']))
        ''', opaque={'task_models.' + B})
    equiv(ctx, 'loaded tree', ctx.spec('''
        def classes():
            return [COMBINATION_CLASSES[k]
                    for k in ('Sequential', 'Parallel', 'Alternative')]
        ''', like=B), '''
        def classes():
            return [SequentialCombination, ParallelCombination,
                    AlternativeCombination]
        ''', construct='kinds of combinations')


@rule('C08')
def built(ctx):
    for c in ('BaseCombination', 'Combination', 'LeafCombination'):
        defaults(ctx, 'new node', 'task.%s.__init__' % c, idx=None,
                 parent=None, highlighted=False, probabilities=None)


@rule('C08')
def round_trip(ctx):
    """Loading what was saved gives the same node, provided that it holds for
    its children."""
    fields = '(type(n), n.kind, n.name, n.idx, n.parent, n.highlighted, '
    for k in ('Sequential', 'Parallel', 'Alternative'):
        law(ctx, 'round trip', B, '''
            def f(node, p, gen):
                n = build_htm(node.as_dictionary(p, gen))
                return %s n.children)
            ''' % fields, '''
            def f(node, p, gen):
                i = next(gen)
                return (%sCombination, '%s', node.name, i, p,
                        True if node.highlighted else False,
                        [build_htm(c.as_dictionary(i, gen))
                         for c in node.children])
            ''' % (k, k), 'load(save(%s node))' % k,
            types={'node': 'task.%sCombination' % k},
            raises=False, want_run={'opaque': {'task_models.' + B}})
    a = mk('fld', mk('fld', mk('sym', 'node'), 'action'), 'agent')

    def setup(I, st):
        st.pc = T.not_(T.eq(a, const('highlighted')))
    law(ctx, 'round trip', B, '''
        def f(node, p, gen):
            n = build_htm(node.as_dictionary(p, gen))
            return %s n.action.name, n.action.agent)
        ''' % fields, '''
        def f(node, p, gen):
            i = next(gen)
            return (LeafCombination, None, node.action.name, i, p,
                    True if node.highlighted else False,
                    node.action.name, node.action.agent)
        ''', 'load(save(leaf))', types={'node': 'task.LeafCombination'},
        setup=setup, raises=False)


# ------------------------------------------------------- chains and cliques

def any_pivot(t):
    """Any of the candidates, or of the excluded nodes, can be the pivot."""
    p, x = mk('sym', 'p'), mk('sym', 'x')
    return T.subst(t, {
        c: mk('sym', 'pivot') for c in T.subterms(t) if c.op == 'call' and
        c.args[0] in ('builtins.max', 'builtins.min') and
        c.args[1] in ((p,), (T.setunion(('s', p), ('s', x)),))})


@rule('C19')
def cliques(ctx):
    equiv(ctx, 'clique search', 'task._bron_kerbosch', '''
        def _bron_kerbosch(graph, r, p, x):
            if len(p) == 0:
                if len(x) == 0:
                    yield r
            else:
                pivot = max(p, key=lambda u: len(graph[u].intersection(p)))
                for u in p.difference(graph[pivot]):
                    for clique in _bron_kerbosch(
                            graph, r.union([u]), p.intersection(graph[u]),
                            x.intersection(graph[u])):
                        yield clique
                    p.remove(u)
                    x.add(u)
        ''', types={'p': 'set', 'r': 'set', 'x': 'set'}, transform=any_pivot)
    equiv(ctx, 'clique search', 'task.max_cliques', '''
        def max_cliques(graph):
            for c in _bron_kerbosch(graph, set(), set(graph), set()):
                if len(c) > 1:
                    yield c
        ''', opaque={'task_models.task._bron_kerbosch'})
    equiv(ctx, 'symmetric graph', 'task.ConjugateTaskGraph.get_max_cliques',
          '''
          def get_max_cliques(self):
              edges = set([(s, d) for (s, _, d) in self.all_transitions()])
              near = {n: set() for n in self.all_nodes()}
              for s, d in edges:
                  if (d, s) in edges and not d == s:
                      near[s].add(d)
                      near[d].add(s)
              return max_cliques(near)
          ''', opaque={'task_models.task.max_cliques', GQ + 'all_transitions',
                       GQ + 'all_nodes'}, accept=['''
          def get_max_cliques(self):
              edges = set([(s, d) for (s, _, d) in self.all_transitions()])
              near = {n: set() for n in self.all_nodes()}
              for s, d in edges:
                  if (d, s) in edges and not d == s:
                      %s
              return max_cliques(near)
          ''' % x for x in ('near[s].add(d)', 'near[d].add(s)')])


@rule('C19')
def chains(ctx):
    equiv(ctx, 'chain search', 'task.ConjugateTaskGraph.get_max_chains', '''
        def get_max_chains(self, exclude=[]):
            in_degree = {}
            unique_transitions = {n: set() for n in self.all_nodes()}
            for (s, l, d) in self.all_transitions():
                if d not in unique_transitions[s]:
                    in_degree[d] = in_degree.get(d, 0) + 1
                unique_transitions[s].add(d)
            to_explore = set([self.initial])
            explored = set()
            chain = None
            while len(to_explore) > 0 or chain is not None:
                if chain is None:
                    node = to_explore.pop()
                    explored.add(node)
                    if len(unique_transitions[node]) == 1:
                        chain = [node]
                    else:
                        to_explore.update(
                            unique_transitions[node].difference(explored))
                else:
                    node = chain[-1]
                    if len(unique_transitions[node]) != 1:
                        raise AssertionError()
                    next_node = list(unique_transitions[node])[0]
                    done = False
                    if in_degree[next_node] == 1 and next_node not in explored:
                        chain.append(next_node)
                        explored.add(next_node)
                        if len(unique_transitions[next_node]) != 1:
                            done = True
                            to_explore.update(
                                unique_transitions[next_node].difference(
                                    explored))
                    else:
                        to_explore.update({next_node}.difference(explored))
                        done = True
                    if done:
                        if len(chain) > 1:
                            yield chain
                        chain = None
        ''', opaque={GQ + 'all_transitions', GQ + 'all_nodes'})


# -------------------------------------------------- searching a task tree

H = 'task.HierarchicalTask.'


LOOKUPS = (
    ('parent', 'find_parent_node', '''
        def find_parent_node(self, node, idx):
            if node.kind is None:
                return None
            for c in node.children:
                if idx == c.idx:
                    return node
                r = self.find_parent_node(c, idx)
                if r is not None:
                    return r
        '''),
    ('next human action', 'find_next_human_action', '''
        def find_next_human_action(self, node, curr_idx):
            if node.kind is None:
                return None
            for c in node.children:
                if c.kind is None and c.idx > curr_idx and \\
                        c.action.agent == 'human':
                    return c
                r = self.find_next_human_action(c, curr_idx)
                if r is not None:
                    return r
        '''),
    ('node by name', 'find_node_by_name', '''
        def find_node_by_name(self, node, name):
            if node.kind is None:
                return None
            for c in node.children:
                if name in c.name.lower():
                    return c
                r = self.find_node_by_name(c, name)
                if r is not None:
                    return r
        '''),
)


@rule('C30')
def lookups(ctx):
    """Nodes and actions are always true."""
    for what, q, source in LOOKUPS:
        equiv(ctx, what, H + q, source, accept=(
            source.replace('r is not None', 'r'),))
    equiv(ctx, 'empty tree', H + 'is_empty', '''
        def is_empty(self):
            return self.root is None
        ''')


@rule('C30')
def meta_actions(ctx):
    q = 'task.MetaAction.to_combination'
    equiv(ctx, 'conversion', q, '''
        def to_combination(self):
            children = []
            for a in self.actions:
                if isinstance(a, MetaAction):
                    children.append(a.to_combination())
                else:
                    children.append(LeafCombination(a))
            return {'sequence': SequentialCombination,
                    'parallel': ParallelCombination,
                    'alternative': AlternativeCombination}[self.kind](children)
        ''', opaque={'task_models.' + q})
    for k, sep in (('sequence', '→'), ('parallel', '||'),
                   ('alternative', '∨')):
        law(ctx, 'conversion', q, '''
            def f(actions):
                m = MetaAction('%s', actions)
                return (m.kind, m.actions, m.name)
            ''' % k, '''
            def f(actions):
                return ('%s', actions,
                        '(' + '%s'.join([a.name for a in actions]) + ')')
            ''' % (k, sep), 'meta-action of kind ' + k)
        law(ctx, 'conversion', q, '''
            def f(actions):
                return MetaAction('%s', actions).to_combination()
            ''' % k, '''
            def f(actions):
                children = []
                for a in actions:
                    if isinstance(a, MetaAction):
                        children.append(a.to_combination())
                    else:
                        children.append(LeafCombination(a))
                return %s(children)
            ''' % {'sequence': 'SequentialCombination',
                   'parallel': 'ParallelCombination',
                   'alternative': 'AlternativeCombination'}[k],
            'tree of a meta-action of kind ' + k,
            want_run={'opaque': {'task_models.' + q}},
            calls=('.to_combination', 'task_models.' + q))
