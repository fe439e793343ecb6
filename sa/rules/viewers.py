"""Contract between the exports of the models and their viewers (JavaScript).

The syntax trees of the viewers give the fields that they read of the records
they load; those of the exporters, the keys that they write."""

import ast
import json
import os
import subprocess

from .. import terms as T
from ..rule import Canon, event_table, watch
from ..world import AnchorError, World
from . import rule

READER = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'js', 'reads.js')

# Set by the layouts of d3, or properties of arrays
LAYOUT = {'x', 'y', 'depth', 'parent', 'source', 'target', 'data', 'length',
          'height'}

TREE = (('task.HierarchicalTask.as_dictionary',),
        ('task.Combination.as_dictionary',
         'task.LeafCombination.as_dictionary'))
NODES = ('lib.pomcp._SearchObservationNode.to_dict',)
STARTS = '.trajectory_trees_from_starts'

# viewer -> the ways in which its data is written: functions that write the
# whole of it, and those that write its records
VIEWERS = {
    'htm/htm.js': {'hierarchical tasks': TREE},
    'htm-ros-subscriber/htm-ros-subscriber.js': {'hierarchical tasks': TREE},
    'policy/policy.js': {
        'graph policies': (('lib.pomdp.GraphPolicy.to_dict',), ())},
    'trajectories/trajectories.js': {
        'trajectories': (
            ('lib.pomdp.GraphPolicyBeliefRunner' + STARTS,),
            ('lib.pomdp.GraphPolicyBeliefRunner.trajectory_tree',))},
    'pomcp/pomcp.js': {
        'search trees': (
            ('lib.pomcp.export_pomcp', 'lib.pomcp.POMCPPolicyRunner' + STARTS),
            ('lib.pomcp.export_pomcp',) + NODES),
        'search trees of the sample': (
            ('samples/pomcp.py', 'lib.pomcp.POMCPPolicyRunner' + STARTS),
            NODES)},
    }


def program(ctx):
    """The package and the sample scripts."""
    w = getattr(ctx, 'sources', None)
    if w is None:
        w = ctx.sources = World(ctx.world.root, ('task_models', 'samples'))
    return w


class Keys(object):
    """Keys of the dictionaries written by a function and its helpers."""

    def __init__(self, world, top):
        self.world = world
        self.whole = set()
        self.top = top     # only what the functions themselves write
        self.keys = set()
        self.open = False
        self.done = set()

    def function(self, fi):
        if fi in self.done:
            return
        self.done.add(fi)
        consts, over = {}, {}
        self.tree(fi.node, fi.module, fi.cls, consts, over)

    def tree(self, node, module, cls, consts, over):
        for x in ast.walk(node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name):
                consts.setdefault(x.targets[0].id, []).append(x.value)
            if isinstance(x, (ast.comprehension, ast.For)) and isinstance(
                    x.target, ast.Name):
                over.setdefault(x.target.id, []).append(x.iter)
        self.module, self.cls, self.consts, self.over = \
            module, cls, consts, over
        for x in self.walk(node):
            self.expr(x)
            if isinstance(x, ast.Call):
                f = self.callee(x, module, cls)
                if f is not None:
                    saved = self.module, self.cls, self.consts, self.over
                    self.function(f)
                    self.module, self.cls, self.consts, self.over = saved

    def walk(self, node):
        nested = (ast.FunctionDef, ast.Lambda)
        if node in self.whole:
            # the records are written by the functions in it
            return [y for x in ast.walk(node) if isinstance(x, nested) and
                    x is not node for y in ast.walk(x)]
        inner = {}     # functions that it contains
        for x in ast.walk(node):
            if isinstance(x, ast.FunctionDef) and x is not node:
                inner.setdefault(x.name, []).append(x)
            elif isinstance(x, ast.Assign) and isinstance(
                    x.value, ast.Lambda):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        inner.setdefault(t.id, []).append(x.value)
        out, todo, seen = [], [node], set()
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            todo.extend(c for c in ast.iter_child_nodes(x)
                        if not (self.top and isinstance(c, nested)))
            if self.top and isinstance(x, ast.Call):
                # those that are called
                if isinstance(x.func, ast.Lambda):
                    todo.append(x.func)
                elif isinstance(x.func, ast.Name):
                    todo.extend(inner.get(x.func.id, ()))
        return out

    def callee(self, call, module, cls):
        f = call.func
        if isinstance(f, ast.Name):
            g = self.world.resolve_static(module, f.id) \
                if f.id in module.defs else None
            return g if g in self.world.functions.values() else None
        if isinstance(f, ast.Attribute) and cls is not None:
            base = f.value
            if isinstance(base, ast.Name) and base.id in ('self', 'cls'):
                owner = cls.find(f.attr)
            elif isinstance(base, ast.Call) and isinstance(
                    base.func, ast.Name) and base.func.id == 'super':
                owner = cls.find(f.attr, after=cls)
            else:
                return None
            return owner.fns.get(f.attr) if owner is not None else None
        return None

    def values(self, x):
        """The strings an expression may be, None if not known."""
        if isinstance(x, ast.Constant):
            return {x.value}
        if isinstance(x, ast.Name):
            if x.id in self.consts:
                vs = [self.values(v) for v in self.consts[x.id]
                      if not (isinstance(v, ast.Name) and v.id == x.id)]
                return None if None in vs or not vs else set().union(*vs)
            if x.id in self.over:
                out = set()
                for it in self.over[x.id]:
                    if not isinstance(it, (ast.Tuple, ast.List, ast.Set)):
                        return None
                    for e in it.elts:
                        if not isinstance(e, ast.Constant):
                            return None
                        out.add(e.value)
                return out
            if x.id in self.module.defs:
                sts = self.module.defs[x.id]
                vs = [self.values(s.value) for s in sts
                      if isinstance(s, ast.Assign)]
                if vs and len(vs) == len(sts) and None not in vs:
                    return set().union(*vs)
        return None

    def positions(self, x):
        """A list or an array, which has no keys."""
        def known(v):
            return isinstance(v, (ast.List, ast.ListComp)) or (
                isinstance(v, ast.Call) and
                isinstance(v.func, ast.Attribute) and
                isinstance(v.func.value, ast.Name) and
                v.func.value.id in ('np', 'numpy'))
        vs = self.consts.get(x.id, ()) if isinstance(x, ast.Name) else ()
        return bool(vs) and all(known(v) for v in vs)

    def key(self, x):
        vs = self.values(x) if x is not None else None
        if vs is None:
            self.open = True
        else:
            self.keys |= {v for v in vs if isinstance(v, str)}

    def expr(self, x):
        if isinstance(x, ast.Dict):
            for k in x.keys:
                if k is not None:
                    self.key(k)
                else:
                    self.open = True
        elif isinstance(x, ast.DictComp):
            self.key(x.key)
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            if not self.positions(x.value):
                self.key(x.slice)
        elif isinstance(x, ast.Call):
            f = x.func
            name = f.attr if isinstance(f, ast.Attribute) else \
                f.id if isinstance(f, ast.Name) else ''
            if name == 'setdefault' and x.args:
                self.key(x.args[0])
            elif name in ('dict', 'update'):
                for k in x.keywords:
                    if k.arg is None:
                        self.open = True
                    else:
                        self.keys.add(k.arg)
                for a in x.args:
                    if not isinstance(a, (ast.Dict, ast.DictComp)):
                        self.open = True
            elif name == 'fromkeys':
                self.open = True


def viewers(ctx):
    """What each viewer reads, {} if their syntax cannot be analysed."""
    if hasattr(ctx, 'viewers'):
        return ctx.viewers
    ctx.viewers = {}
    base = os.path.join(ctx.world.root, 'visualization')
    paths = {v: os.path.join(base, *v.split('/')) for v in VIEWERS}
    for v, p in paths.items():
        if not os.path.exists(p):
            raise AnchorError('viewer %s is missing' % v)
    try:
        out = subprocess.run(
            ['node', READER] + [paths[v] for v in VIEWERS],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        found = json.loads(out.stdout.decode())
    except (OSError, ValueError, subprocess.SubprocessError):
        ctx.unknown('viewers', 'visualization', 'no syntax trees')
        return {}
    ctx.viewers = dict(zip(VIEWERS, found))
    return ctx.viewers


def writer(ctx, world, name, keys, whole):
    if name.endswith('.py'):
        path = os.path.join(ctx.world.root, *name.split('/'))
        for m in world.modules.values():
            if m.path == path:
                keys.tree(m.tree, m, None, {}, {})
                return True
        return False
    fi = world.functions.get('task_models.' + name)
    if fi is None:
        cls = world.classes.get('task_models.' + name.rsplit('.', 1)[0])
        owner = cls.find(name.rsplit('.', 1)[1]) if cls is not None else None
        fi = owner.fns.get(name.rsplit('.', 1)[1]) if owner else None
    if fi is None:
        return False
    ctx.functions.add(fi.qualname)
    if not keys.top and name in whole:
        keys.whole.add(fi.node)
    keys.function(fi)
    return True


def written(ctx, world, names, top, whole=()):
    keys = Keys(world, top)
    for n in names:
        if not writer(ctx, world, n, keys, whole):
            keys.open = True
    return keys


def own(view):
    """Names of fields that the viewer adds to the records."""
    return {w['name'] for w in view['writes'] if not w.get('kept')} | {'_children'}


@rule('C43')
def fields(ctx):
    world = program(ctx)
    for v, view in viewers(ctx).items():
        added = own(view)
        reads = {}
        for r in view['reads']:
            n = r['name']
            if n not in LAYOUT and (r['top'] or n not in added):
                reads.setdefault((n, r['top']), r)
        for way, writers in VIEWERS[v].items():
            tables = [written(ctx, world, names, top, writers[0])
                      for names, top in zip(writers, (True, False))]
            for (n, top), r in sorted(reads.items(), key=str):
                if not top and not writers[1]:
                    continue
                # (either when it is not known what it is read of)
                asked = tables if top is None else [tables[0 if top else 1]]
                what = '%s: %s of %s%s' % (v, n, way, ' (file)' if top else '')
                if any(n in k.keys for k in asked):
                    ctx.ok('fields', what)
                elif any(k.open for k in asked):
                    ctx.unknown('fields', what, 'computed keys')
                else:
                    ctx.bad('fields', what, '%s is read (%s), but it is not '
                            'written by %s' % (n, r['text'], ', '.join(
                                writers[0 if top else 1])),
                            'visualization/%s:%d' % (v, r['line']))


def keys_of(t, pc):
    """[(condition, keys or None if not known)] of a dictionary."""
    out = []
    for c, x in T.cases(t, pc):
        ks = None
        if x.op == 'dict' and all(
                isinstance(a, tuple) and a[0] == 'e' and
                isinstance(a[1], T.Term) and a[1].op == 'const'
                for a in x.args):
            ks = {a[1].args[1] for a in x.args}
        out.append((c, ks))
    return out


def records(ctx, q, as_policy):
    """Keys of each form of what a function returns or writes to a file."""
    types = {'policy': 'lib.pomcp.POMCPPolicyRunner'} \
        if q.endswith('export_pomcp') else {}
    args = {'as_policy': T.mk('const', 'bool', True)} if as_policy else {}
    r = ctx.run(q, args=args, types=types)
    if r.interp.unsupported or r.st.dead:
        return [(T.TRUE, None)]
    canon = Canon(r.interp)
    if not types:
        return keys_of(canon(r.val), T.TRUE)
    out = []
    for k, c in event_table(r, watch('json.dump', writes=False),
                            canon).items():
        if isinstance(k, T.Term) and k.op == 'ev':
            out += keys_of(k.args[1].args[0], c)
    return out


# Records at the end of trees have none of these
BRANCHES = ('children', 'observations')


@rule('C43')
def always(ctx):
    """The fields that are read are written in all cases."""
    for v, view in viewers(ctx).items():
        added = own(view)
        for way, writers in VIEWERS[v].items():
            for top, qs in zip((True, False), writers):
                needs = {r['name'] for r in view['reads']
                         if r['top'] in (top, None) and
                         r['name'] not in LAYOUT and
                         (top or r['name'] not in added)}
                for q in qs:
                    if q.endswith('.py') or q.endswith('export_pomcp') and \
                            not top or q in ALONE and top:
                        continue
                    every(ctx, '%s: %s' % (v, way), q, needs)


# (completed by others)
ALONE = {'lib.pomcp.POMCPPolicyRunner' + STARTS}


def every(ctx, construct, q, needs):
    try:
        cases = records(ctx, q, q in NODES)
    except AnchorError:
        return ctx.unknown('always', construct, 'no ' + q)
    known = [ks for _, ks in cases if ks is not None]
    if not known or len(known) < len(cases):
        return ctx.unknown('always', '%s by %s' % (construct, q),
                           'computed keys')
    for n in sorted(needs):
        what = '%s: %s always written by %s' % (construct, n, q)
        without = [(c, ks) for c, ks in cases if n not in ks and
                   not (n in BRANCHES and not ks & set(BRANCHES))]
        if not any(n in ks for ks in known) and (
                len(known) == 1 and n in BRANCHES):
            continue
        if without:
            ctx.bad('always', what, '%s is not written under %s' % (
                n, T.show(without[0][0], 6)[:300]), q)
        else:
            ctx.ok('always', what)


@rule('C43')
def labels(ctx):
    """The links of trees carry what leads to their end."""
    for v, view in viewers(ctx).items():
        for x in view['indexed']:
            if x['name'] != 'observations' or 'source' not in x['base']:
                continue
            what = '%s: label %s' % (v, x['text'])
            if 'target' in x['index']:
                ctx.ok('labels', what)
            elif '()' in x['index'] or not (x['params'] or x['index']):
                ctx.unknown('labels', what, 'computed by a function')
            else:
                ctx.bad('labels', what, 'the observation on a link does not '
                        'depend on the end of the link',
                        'visualization/%s:%d' % (v, x['line']))


def attributes(ctx):
    """The attributes that are added to the nodes by name."""
    out = set()
    for q in TREE[1]:
        r = ctx.run(q)
        if r.interp.unsupported or r.st.dead:
            continue
        for _, d in T.cases(Canon(r.interp)(r.val), T.TRUE):
            for e in d.args if d.op == 'dict' else ():
                if e[0] == 'e' and e[1] is T.const('attributes'):
                    for _, v in T.cases(e[2], T.TRUE):
                        items = T.seq_literal(v) if v.op == 'seq' else None
                        out |= {T.cval(x) for y in items or ()
                                for _, x in T.cases(y, T.TRUE)
                                if T.is_str(x)}
    return out


@rule('C43')
def kinds(ctx):
    world = program(ctx)
    base = world.classes.get('task_models.task.BaseCombination')
    if base is None:
        raise AnchorError('no task.BaseCombination')
    names, known = {}, True
    for c in world.classes.values():
        if not c.is_subclass(base) or 'kind' not in c.members:
            continue
        for st in c.members['kind']:
            if isinstance(st, ast.Assign) and isinstance(
                    st.value, ast.Constant):
                names[st.value.value] = c
            else:
                known = False
    for v, view in viewers(ctx).items():
        if not v.startswith('htm'):
            continue
        told = {}
        for c in view['compared']:
            if 'combination' in c['fields'] and c['value']:
                told[c['value']] = c['line']
        for k in sorted(told):
            what = '%s: kind %s' % (v, k)
            if k in names:
                ctx.ok('kinds', what)
            elif not known:
                ctx.unknown('kinds', what, 'computed kinds')
            else:
                ctx.bad('kinds', what, 'no combination is of this kind',
                        'visualization/%s:%d' % (v, told[k]))
        if not told:
            ctx.unknown('kinds', v, 'kinds are not compared')
            continue
        for k in sorted(x for x in names if isinstance(x, str)):
            if k == 'Undefined':
                continue
            what = '%s: combinations %s' % (v, k)
            if k in told:
                ctx.ok('kinds', what)
            else:
                ctx.bad('kinds', what, 'combinations of this kind have no '
                        'sign', 'visualization/%s' % v)
        for a in sorted(attributes(ctx)):
            what = '%s: attribute %s' % (v, a)
            if a in view['strings']:
                ctx.ok('kinds', what)
            else:
                ctx.bad('kinds', what, 'the attribute is not one of those '
                        'that are shown', 'visualization/%s' % v)


@rule('C43')
def folders(ctx):
    """Samples write where the viewers load from."""
    world = program(ctx)
    root = os.path.join(ctx.world.root, 'visualization')
    loads = {v.split('/')[0] for v in VIEWERS}
    for m in world.modules.values():
        rel = os.path.relpath(m.path, ctx.world.root)
        if not rel.startswith('samples'):
            continue
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Constant) or not isinstance(
                    x.value, str) or not x.value.startswith(
                        '../visualization/'):
                continue
            parts = x.value.split('/')
            what = '%s: %s' % (rel, x.value)
            where = '%s:%d' % (rel, x.lineno)
            if parts[2] not in loads or (parts[3:4] != ['json']):
                ctx.bad('folders', what, 'not the folder of the data of a '
                        'viewer', where)
            elif not os.path.isdir(os.path.join(root, parts[2], 'json')):
                ctx.bad('folders', what, 'the folder does not exist', where)
            else:
                ctx.ok('folders', what)
