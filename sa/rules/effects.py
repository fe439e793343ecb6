"""What operations leave unchanged: objects that refused an operation, objects
that were only asked something; and how failures are signalled."""

import ast

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, name_of
from ..world import AnchorError, ClassInfo
from . import rule


def outside(x):
    """Objects that exist before the call."""
    return isinstance(x, T.Term) and not T.any_op(
        x, 'ref', 'obj', 'new', 'exc', 'excv') \
        and x.op not in ('ref', 'obj', 'const', 'cls', 'fn', 'ext')


def root(x):
    while x.op in ('fld', 'idx', 'elt', 'key', 'slice') and x.args:
        x = x.args[0]
    return x


# fields of models and policies that are arrays, the first of which have
# several dimensions
ARRAYS = ('T', 'O', 'R', 'start', 'values')


def is_view(x):
    """Part of an array, that shares its memory."""
    if x.op == 'fld' and x.args[1] in ARRAYS:
        return True
    if x.op == 'idx' and x.args[0].op == 'fld' and \
            x.args[0].args[1] in ARRAYS[:3] and not T.any_op(x.args[1], 'seq'):
        return True
    return x.op == 'idx' and len(x.args) > 1 and \
        any(T.any_op(j, 'slc') for j in x.args[1:])


def target(e, I=None):
    """What the event changes, when it existed before the call."""
    if e.kind in ('write', 'setitem', 'mutate', 'augarray') and \
            isinstance(e.base, T.Term):
        x = root(e.base)
        if x.op in ('rec', 'loopout'):
            loc = None if I is None or x not in I.loop_of_rec else \
                I.loop_of_rec[x][1]
            if loc is None or loc[0] == 'vars' or loc[1].op in ('ref', 'obj'):
                return None
        elif x.op not in ('sym', 'global', 'cls'):
            return None
    if e.kind == 'write' and outside(e.base):
        if e.d.get('val') is mk('fld', e.base, e.attr):
            return None
        return mk('fld', e.base, e.attr)
    if e.kind in ('setitem', 'mutate', 'augarray') and outside(e.base):
        return e.base
    return None


def analysed(ctx, rule_, q, **kw):
    try:
        fi = ctx.world.fn(q)
    except AnchorError:
        ctx.unknown(rule_, q, 'no such function')
        return None
    try:
        r = ctx.run(fi, **kw)
    except (T.Limit, RecursionError) as e:
        ctx.unknown(rule_, q, 'analysis limit: %s' % e)
        return None
    return r


def params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# --------------------------------------------------------- refused operations

# operations that may be refused, and the functions they call that may do so
REFUSE = {
    'task.TaskGraph.add_path': ('check_path',),
    'task.AlternativeCombination.proba.setter': (),
    'task.BaseGraph.remove_transition': (),
    'policy.PolicyRunner.step': (),
    'policy.PolicyRunner.model.setter': (),
    'policy.PolicyLongSupportiveSequence.step': (),
    'lib.pomdp.GraphPolicyRunner.step': ('next',),
    'lib.pomdp.GraphPolicyBeliefRunner.step': ('next', 'belief_update'),
    'lib.pomdp.POMDP.belief_update': (),
    'lib.pomcp.POMCPPolicyRunner.step': ('get_node',),
    'lib.pomcp.POMCPPolicyRunner._reset': (),
    'lib.pomcp.POMCPPolicyRunner.reset': (),
    'supportive._SupportivePOMDPState.random_object_changes': (),
}
# what an operation may do although it is refused
MAY_CHANGE = {
}


@rule('C03')
def refused(ctx):
    for q, risky in sorted(REFUSE.items()):
        r = analysed(ctx, 'unchanged when refused', q)
        if r is None:
            continue
        raised(ctx, q, r)
        late(ctx, q, r, risky)


# when they are refused
WHEN = {
    'task.TaskGraph.add_path': '''
        def add_path(self, path):
            if not check_path(path):
                raise ValueError()
        ''',
    'task.TaskGraph.has_path': '''
        def has_path(self, path):
            if not check_path(path):
                raise ValueError()
        ''',
    'task.AlternativeCombination.proba.setter': '''
        def proba(self, probabilities):
            if probabilities is not None:
                if np.min(probabilities) < 0 or np.max(probabilities) > 1 or \
                        not np.isclose(np.sum(probabilities), 1):
                    raise ValueError()
        ''',
    'task.LeafCombination.children': '''
        def children(self):
            raise ValueError()
        ''',
    'policy.PolicyRunner.step': '''
        def step(self, observation):
            if self._last_action is None:
                raise ValueError()
        ''',
    'policy.PolicyLongSupportiveSequence.step': '''
        def step(self, observation):
            known = observation == 'none' or observation == 'fail'
            if observation == 'not-found':
                known = self._last_action not in self._a_next_list
            if not known:
                raise self.UnexpectedObservation()
            if self._last_action is None:
                raise ValueError()
        ''',
    'lib.pomdp.GraphPolicyRunner.step': '''
        def step(self, observation):
            if self.gp.next(self.current, observation) is None:
                raise Impossible()
        ''',
    'lib.pomcp.POMCPPolicyRunner.step': '''
        def step(self, observation):
            if self._last_action is None:
                raise ValueError()
            self.tree.get_node(None)
        ''',
    'lib.pomcp.POMCPPolicyRunner.reset': '''
        def reset(self, belief=None):
            if belief is not None:
                raise NotImplementedError()
        ''',
    'lib.pomdp.POMDP.belief_update': '''
        def belief_update(self, a, o, b):
            new = b.dot(self.T[a, ...]) * self.O[a, :, o]
            if new.sum() == 0:
                raise Impossible()
        ''',
}


@rule('C03')
def when(ctx):
    for q, source in sorted(WHEN.items()):
        others = []
        if 'np.min' in source:
            others = [source.replace(a, x).replace(b, y).replace('np.sum', z)
                      for a in ('np.min(probabilities) < 0',)
                      for x in (a, 'min(probabilities) < 0',
                                'any([p < 0 for p in probabilities])')
                      for b in ('np.max(probabilities) > 1',)
                      for y in (b, 'max(probabilities) > 1',
                                'any([p > 1 for p in probabilities])')
                      for z in ('np.sum', 'sum')]
        equiv(ctx, 'refused', q, source, val=False, accept=others,
              opaque=set(['task_models.task.check_path']))


def raised(ctx, q, r):
    """State of the existing objects where an exception leaves."""
    n = 'unchanged when refused'
    I = r.interp
    for k, (b, exc) in enumerate(r.raises):
        what = '%s: raises %s (%d)' % (q, str(I.exc_name(exc)), k)
        bad = None
        for (base, attr), v in b.fields.items():
            if not outside(base):
                continue
            v = T.constrain(I.val(b, v), b.pc)
            if v is not mk('fld', base, attr):
                bad = '%s.%s is changed to %s' % (
                    T.show(base, 4), attr, T.show(v, 5)[:300])
        for base, v in b.cont.items():
            if not outside(base):
                continue
            v = T.constrain(v, b.pc)
            if v is not base and v.op != 'rec':
                bad = 'the content of %s is changed to %s' % (
                    T.show(base, 4), T.show(v, 5)[:300])
        if bad:
            ctx.bad(n, what, bad + ' although the operation is refused',
                    r.fi.module.path if hasattr(r, 'fi') else '')
        else:
            ctx.ok(n, what)


def late(ctx, q, r, risky):
    """Nothing is changed before a step that may refuse the operation."""
    n = 'checked before any change'
    changes = []
    found = None
    given = set(params(r.fi)) - {'self'}
    guarded = any(e.kind == 'handler' for e in r.events)
    for e in r.events:
        t = target(e, r.interp)
        if t is not None:
            changes.append((e, t))
            continue
        risk = None
        if e.kind == 'index' and outside(e.d.get('seq')) and any(
                x.op == 'sym' and x.args[0] in given
                for a in e.args for x in T.subterms(a)):
            risk = 'the search of %s in %s' % (
                T.show(e.args[0], 4), T.show(e.d['seq'], 4))
        elif e.kind == 'call' and str(e.d.get('name')).split('.')[-1] in risky:
            risk = 'the call of %s' % e.name
        if risk:
            for c, t in changes:
                if T.and_(c.pc, e.pc) is not T.FALSE:
                    found = (c, '%s is changed before %s, which may fail' % (
                        T.show(t, 4), risk))
    if found is None:
        ctx.ok(n, q)
    elif guarded:
        ctx.unknown(n, q, found[1])
    else:
        ctx.bad(n, q, found[1], found[0].where)


# -------------------------------------------------------------------- queries

# questions and exports, with their arguments that are lists, sets or arrays
QUERIES = {
    'action.Condition.check': ('state',),
    'action.Condition.__eq__': (), 'action.Condition.__hash__': (),
    'action.MatchAllCondition.check': ('state',),
    'action.Action.check': (), 'action.Action.copy': (),
    'action.PrePostConditionAction.__eq__': (),
    'action.PrePostConditionAction.check': (),
    'action.PrePostConditionAction.__hash__': (),
    'state.NDimensionalState.get_features': (),
    'state.NDimensionalState.__eq__': (),
    'state.NDimensionalState.__hash__': (),
    'snap_circuit.SnapCircuitState.get_features': (),
    'snap_circuit.SnapCircuitState.features': (),
    'snap_circuit.SnapCircuitState.__eq__': (),
    'snap_circuit.SnapCircuitState.__hash__': (),
    'snap_circuit.SnapCircuitState.__str__': (),
    'task.check_path': ('path',), 'task.split_path': ('path',),
    'task.max_cliques': ('graph',),
    'task.BaseGraph.__eq__': (), 'task.BaseGraph.has_transition': (),
    'task.BaseGraph.all_transitions': (), 'task.BaseGraph.all_nodes': (),
    'task.BaseGraph.as_dictionary': (),
    'task.TaskGraph.__eq__': (), 'task.TaskGraph.has_path': ('path',),
    'task.TaskGraph.conjugate': (),
    'task.TaskGraph.check_only_deterministic_transitions': (),
    'task.TaskGraph.check_only_deterministic_transitions_from_state': (),
    'task.ConjugateTaskGraph.from_task_graph': (),
    'task.ConjugateTaskGraph.get_max_chains': (),
    'task.ConjugateTaskGraph.get_max_cliques': (),
    'task.MetaAction.__eq__': (), 'task.MetaAction.__hash__': (),
    'task.MetaAction.to_combination': (),
    'task.BaseCombination._meta_dictionary': (),
    'task.Combination.as_dictionary': (),
    'task.Combination._deep_copy_children': (),
    'task.LeafCombination.as_dictionary': (),
    'task.LeafCombination.deep_copy': (),
    'task.SequentialCombination.deep_copy': (),
    'task.ParallelCombination.deep_copy': (),
    'task.ParallelCombination.to_alternative': (),
    'task.AlternativeCombination.deep_copy': (),
    'task.HierarchicalTask.as_dictionary': (),
    'task.HierarchicalTask.find_next_human_action': (),
    'task.HierarchicalTask.find_node_by_name': (),
    'task.HierarchicalTask.find_parent_node': (),
    'task.HierarchicalTask.is_empty': (),
    'lib.utils.assert_normal': ('array',),
    'lib.belief.BaseBelief.to_list': (),
    'lib.belief.ArrayBelief.sample': (),
    'lib.belief.ArrayBelief.successor': (),
    'lib.belief.ArrayBelief.__eq__': (), 'lib.belief.ArrayBelief.__hash__': (),
    'lib.belief.ParticleBelief.sample': (),
    'lib.belief.ParticleBelief.successor': (),
    'lib.belief.ParticleBelief.array': (),
    'lib.belief.format_belief_array': ('b',),
    'lib.pomdp.POMDP.belief_update': ('b',),
    'lib.pomdp.POMDP.sample_start': (),
    'lib.pomdp.POMDP.sample_transition': (),
    'lib.pomdp.POMDP.dump': (), 'lib.pomdp.POMDP.to_dict': (),
    'lib.pomdp.POMDP.as_json': (), 'lib.pomdp.POMDP.dump_to': (),
    'lib.pomdp.POMDP.save_as_json': (),
    'lib.pomdp.POMDP._assert_normal': (), 'lib.pomdp.POMDP._assert_shapes': (),
    'lib.pomdp.POMDP._assert_unique': (),
    'lib.pomdp.GraphPolicy.get_action': (),
    'lib.pomdp.GraphPolicy.next': (),
    'lib.pomdp.GraphPolicy.get_node_from_belief': ('belief',),
    'lib.pomdp.GraphPolicy.to_dict': (), 'lib.pomdp.GraphPolicy.to_json': (),
    'lib.pomdp.GraphPolicy.save_as_json': (),
    'lib.pomdp.GraphPolicyRunner.get_action': (),
    'lib.pomcp._SearchNode.to_dict': (),
    'lib.pomcp._SearchNode.value': (), 'lib.pomcp._SearchNode.__str__': (),
    'lib.pomcp._SearchNode._map': (),
    'lib.pomcp._SearchActionNode.to_dict': (),
    'lib.pomcp._SearchObservationNode.to_dict': (),
    'lib.pomcp._SearchObservationNode.children_dict': (),
    'lib.pomcp._SearchObservationNode.augmented_values': (),
    'lib.pomcp._SearchObservationNode.get_best_action': (),
    'lib.pomcp._SearchObservationNode._not_init_children': (),
    'lib.pomcp._SearchTree.to_dict': (),
    'lib.pomcp._SearchTree.random_action': (),
    'lib.pomcp._SearchTree._one_rollout_from_node': (),
    'lib.pomcp._ObservationLookupSearchTree.to_dict': (),
    'lib.pomcp.export_pomcp': (),
    'lib.pomcp.POMCPPolicyRunner.trajectory_trees_from_starts': (),
    'lib.pomcp.NTransitionsHorizon.copy': (),
    'lib.pomcp.NTransitionsHorizon.is_reached': (),
    'evaluation.FinishedOrNTransitionsHorizon.copy': (),
    'evaluation.FinishedOrNTransitionsHorizon.is_reached': (),
    'supportive.NHTMHorizon.copy': (), 'supportive.NHTMHorizon.is_reached': (),
    'evaluation.episode_summary': ('h_s', 'h_a', 'h_o', 'h_r'),
    'supportive._SupportivePOMDPState.copy': (),
    'supportive._SupportivePOMDPState.to_int': (),
    'supportive._SupportivePOMDPState.__str__': (),
    'supportive._SupportivePOMDPState.is_final': (),
    'supportive._SupportivePOMDPState.has_body_feature': (),
    'supportive._SupportivePOMDPState.has_preference': (),
    'supportive._SupportivePOMDPState.belief_quotient': ('array',),
    'supportive._SupportivePOMDPState.belief_preferences': ('array',),
    'supportive.SupportivePOMDP.sample_start': (),
    'supportive.SupportivePOMDP.sample_transition': (),
    'supportive.SupportivePOMDP.is_final': (),
    'supportive.SupportivePOMDP.features': (),
    'supportive.SupportivePOMDP.states': (),
    'supportive.SupportivePOMDP.start': (),
    'supportive.SupportivePOMDP.belief_update': ('belief',),
    'task_to_pomdp._NodeToPOMDP.durations': (),
    'json_to_htm.build_htm': ('data',),
}
# Counters that questions are allowed to change.
COUNTERS = {'n_simulator_calls'}
# Records of what was visited, that recursive calls hand down.
HANDED = {'exclude_visited'}


def private(ctx, attr, fi):
    """Whether an attribute is only used by one function and set by
    constructors: nothing else can tell that it changes."""
    for g in ctx.world.functions.values():
        if g is fi or g.outer is not None or g.node.name == '__init__':
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and x.attr == attr or \
                    isinstance(x, ast.Constant) and x.value == attr:
                return False
    return attr.startswith('_')


@rule('C13')
def queries(ctx):
    n = 'questions change nothing'
    for q, held in sorted(QUERIES.items()):
        r = analysed(ctx, n, q)
        if r is None:
            continue
        found = None
        for e in r.events:
            t = target(e, r.interp)
            if t is None and e.kind == 'aug' and outside(e.base) and \
                    e.base.op == 'sym' and e.base.args[0] in held:
                t = e.base
            if t is None and e.kind == 'aug' and is_view(e.base) and \
                    outside(root(e.base)):
                t = root(e.base)
            if t is None or e.pc is T.FALSE:
                continue
            if t.op == 'fld' and t.args[1] in COUNTERS or \
                    t.op == 'sym' and t.args[0] in HANDED:
                continue
            if t.op == 'fld' and private(ctx, t.args[1], r.fi):
                ctx.unknown(n, q, 'keeps %s for itself' % t.args[1])
                continue
            found = (e, '%s is changed (%s)' % (T.show(t, 5), e.kind))
            break
        if found is None:
            ctx.ok(n, q)
        else:
            ctx.bad(n, q, found[1], found[0].where)


@rule('C13')
def shared(ctx):
    """Nothing that all objects of a class, or all calls of a function, share
    is changed in place."""
    n = 'nothing shared is changed'
    names = set()
    for c in ctx.world.classes.values():
        for x in c.node.body:
            if isinstance(x, ast.Assign) and isinstance(x.value, (
                    ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                    ast.SetComp, ast.Call, ast.BinOp)):
                names.update(t.id for t in x.targets
                             if isinstance(t, ast.Name))
    # nodes of task graphs are many; those that build them are run apart
    apart = [q for q, fi in ctx.world.functions.items()
             if fi.outer is None and (
                 q.endswith('.POMDP.__init__') or
                 q.split('.')[-1].startswith(('update_', 'init_')))]
    for q, fi in sorted(ctx.world.functions.items()):
        if fi.outer is not None or not any(
                isinstance(x, ast.Attribute) and x.attr in names
                for x in ast.walk(fi.node)):
            continue
        try:
            r = ctx.run(q, opaque=[x for x in apart if x != q])
        except AnchorError:
            continue
        found = None
        held = r.interp.shared
        for e in r.events:
            b = e.d.get('base')
            if e.kind not in ('setitem', 'mutate', 'augarray', 'aug') or \
                    b not in held or e.pc is T.FALSE:
                continue
            what = held[b]
            if what.rpartition('.')[2].startswith('_'):
                ctx.unknown(n, q, 'keeps something in %s' % what)
                continue
            found = e, '%s, which all objects share, is changed (%s)' % (
                what, e.kind)
            break
        if found is None:
            ctx.ok(n, q)
        else:
            ctx.bad(n, q, found[1], found[0].where)
