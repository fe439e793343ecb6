"""Parts that may replace each other offer what is used of any of them."""

import ast

from ..world import AnchorError, ClassInfo
from . import rule
from .names import OBJECT, accepts, at, dotted, program, receiver


class Kind(object):

    def __init__(self, name, classes, names, modules, only=None,
                 elements=None):
        self.name = name
        self.classes = classes     # qualified names, or +base for its leaves
        self.names = names         # what holds them
        self.modules = modules     # where
        self.elements = elements   # attribute with a list of them
        self.only = only           # entry points from which they are used


SEARCH = ('simulate_from_node', 'get_node', 'to_dict', 'get_action', 'step',
          'reset', '__init__', 'map', 'successor', 'sample', '__call__',
          'rollout_from_node', 'trajectory_trees_from_starts')

KINDS = [
    Kind('models that are searched',
         ['lib.pomdp.POMDP', 'supportive.SupportivePOMDP'],
         {'model'}, {'lib.pomcp', 'lib.belief'}, SEARCH),
    Kind('models that are evaluated', ['supportive.SupportivePOMDP'],
         {'model', '_model'},
         {'lib.pomcp', 'evaluation', 'policy', 'supportive'}),
    Kind('horizons',
         ['lib.pomcp.NTransitionsHorizon', 'supportive.NHTMHorizon',
          'evaluation.FinishedOrNTransitionsHorizon'],
         {'horizon'}, {'lib.pomcp', 'evaluation'}),
    Kind('beliefs',
         ['lib.belief.ArrayBelief', 'lib.belief.ParticleBelief'],
         {'belief', 'last_belief'}, {'lib.pomcp', 'lib.belief'}),
    Kind('policies',
         ['lib.pomcp.POMCPPolicyRunner', 'lib.pomcp.AsyncPOMCPPolicyRunner',
          'policy.PolicyLongSupportiveSequence'],
         {'pol', 'policy'}, {'evaluation'}),
    Kind('supported actions', ['+supportive.SupportedAction'],
         {'action'}, {'supportive'}),
    Kind('nodes of a task',
         ['task.LeafCombination', 'task.SequentialCombination',
          'task.AlternativeCombination', 'task.ParallelCombination'],
         {'node', 'root'}, {'task'}, elements='children'),
    Kind('models of the parts of a task', ['+task_to_pomdp._NodeToPOMDP'],
         set(), {'task_to_pomdp'}, elements='children'),
    Kind('models of the parts of a task',
         ['+bring_next_to_pomdp._NodeToPOMDP'],
         set(), {'bring_next_to_pomdp'}, elements='children'),
    ]


def members(w, kind):
    out = []
    for q in kind.classes:
        base = q.lstrip('+')
        c = w.classes.get('task_models.' + base)
        if c is None:
            if q[0] == '+' or base.split('.')[-1][0] == '_':
                continue
            raise AnchorError('class %s is missing' % base)
        if q[0] == '+':
            out += sorted((d for d in w.classes.values()
                           if d is not c and c in d.mro and not any(
                               d in e.mro for e in w.classes.values()
                               if e is not d)), key=lambda d: d.qualname)
        else:
            out.append(c)
    return out


# ------------------------------------------------------- what a class provides

DYNAMIC = ('setattr', 'vars', 'delattr')


def known(c):
    """Whether all the attributes of a class are seen."""
    for x in c.mro:
        if isinstance(x, str):
            if x not in ('object', 'builtins.object'):
                return False
            continue
        if {'__getattr__', '__getattribute__'} & set(x.members) or \
                x.node.decorator_list:
            return False
        for n in ast.walk(x.node):
            if isinstance(n, ast.Name) and n.id in DYNAMIC or \
                    isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return False
    return True


class Set(object):
    """Attributes that a method always sets on its receiver."""

    def __init__(self, cls):
        self.cls = cls
        self.active = set()

    def of(self, f):
        if f in self.active or not f.node.args.args:
            return set()
        self.active.add(f)
        saved = getattr(self, 'me', None), getattr(self, 'fn', None)
        self.me, self.fn = f.node.args.args[0].arg, f
        out = self.block(f.node.body)
        self.me, self.fn = saved
        self.active.discard(f)
        return out

    def block(self, body):
        """Attributes set at all the ends of a function."""
        returns = []
        end = self.seq(body, set(), returns)
        ends = returns + ([end] if end is not None else [])
        return set.intersection(*ends) if ends else set()

    def stmt(self, s, have, returns):
        have = set(have)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return have
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            if isinstance(s, ast.Return):
                if s.value is not None:
                    have |= self.expr(s.value)
                returns.append(have)
                return None
            return have
        if isinstance(s, ast.If):
            have |= self.expr(s.test)
            a = self.seq(s.body, have, returns)
            b = self.seq(s.orelse, have, returns)
            return b if a is None else a if b is None else a & b
        if isinstance(s, (ast.For, ast.While)):
            have |= self.expr(s.iter if isinstance(s, ast.For) else s.test)
            self.seq(s.body, have, returns)
            return self.seq(s.orelse, have, returns)
        if isinstance(s, ast.With):
            for i in s.items:
                have |= self.expr(i.context_expr)
            return self.seq(s.body, have, returns)
        if isinstance(s, ast.Try):
            ends = [self.seq(s.body + s.orelse, have, returns)]
            ends += [self.seq(h.body, have, returns) for h in s.handlers]
            ends = [e for e in ends if e is not None]
            if not ends:
                return None
            return self.seq(s.finalbody, set.intersection(*ends), returns)
        return have | self.expr(s)

    def seq(self, body, have, returns):
        have = set(have)
        for s in body:
            have = self.stmt(s, have, returns)
            if have is None:
                return None
        return have

    def expr(self, x):
        out = set()
        todo = [x]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.IfExp,
                              ast.BoolOp, ast.ListComp, ast.DictComp,
                              ast.SetComp, ast.GeneratorExp)):
                continue
            todo.extend(ast.iter_child_nodes(n))
            if isinstance(n, ast.AugAssign):
                todo.remove(n.target)
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and isinstance(
                    n.value, ast.Name) and n.value.id == self.me:
                out.add(n.attr)
                for c in self.cls.mro:
                    if isinstance(c, ClassInfo) and n.attr in c.setters:
                        out |= self.of(c.setters[n.attr])
                        break
            if isinstance(n, ast.Call):
                g = self.callee(n)
                if g is not None:
                    out |= self.of(g)
        return out

    def callee(self, call):
        f = call.func
        if not isinstance(f, ast.Attribute):
            return None
        if isinstance(f.value, ast.Name) and f.value.id == self.me:
            c = self.cls.find(f.attr)
        elif isinstance(f.value, ast.Call) and isinstance(
                f.value.func, ast.Name) and f.value.func.id == 'super' and \
                self.fn.cls in self.cls.mro:
            c = self.cls.find(f.attr, after=self.fn.cls)
        elif isinstance(f.value, ast.Name):
            # Base.__init__(self, ...)
            c = next((x for x in self.cls.mro if isinstance(x, ClassInfo) and
                      x.name == f.value.id), None)
            c = c and c.find(f.attr)
            if not call.args or dotted(call.args[0]) != self.me:
                return None
        else:
            return None
        return c.fns.get(f.attr) if c is not None else None


def constructed(c):
    """Attributes of new instances of a class."""
    owner = c.find('__init__')
    if owner is None or '__init__' not in owner.fns:
        return set()
    return Set(c).of(owner.fns['__init__'])


def stored(w, name):
    """Whether anything in the program sets an attribute of this name."""
    cache = w.__dict__.setdefault('_stored', {})
    if not cache:
        for m in w.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    cache.setdefault(n.attr, []).append(n)
        cache[''] = []
    return bool(cache.get(name))


def abstract(f):
    """Whether a function only refuses to run."""
    body = [s for s in f.node.body
            if not (isinstance(s, ast.Expr) and isinstance(
                s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Raise) or \
            body[0].exc is None:
        return False
    e = body[0].exc
    return dotted(e.func if isinstance(e, ast.Call) else e) == \
        'NotImplementedError'


def lacks(w, c, attr, call):
    """What is wrong with the use of an attribute of the instances of a class:
    a text, '' (nothing), or None (not known)."""
    if attr in OBJECT:
        return ''
    if not known(c):
        return None
    owner = c.find(attr)
    if owner is None:
        have = constructed(c)
        if attr in have:
            return ''
        inside = {n.attr for x in c.mro if isinstance(x, ClassInfo)
                  for n in stores(x.node)}
        if attr not in inside:
            return 'nothing sets %s' % attr if not stored_outside(
                w, c, attr) else None
        if '__new__' in {k for x in c.mro if isinstance(x, ClassInfo)
                         for k in x.members} or stored_outside(w, c, attr):
            return None
        init = c.find('__init__')
        run, todo = [], [init.fns.get('__init__')] if init else []
        while todo:
            f = todo.pop()
            if f is None or f in run:
                continue
            run.append(f)
            named = {n.attr for n in ast.walk(f.node)
                     if isinstance(n, ast.Attribute)}
            todo += [g for x in c.mro if isinstance(x, ClassInfo)
                     for table in (x.fns, x.setters)
                     for name, g in table.items() if name in named]
        if run and attr in {n.attr for n in stores(run[0].node)}:
            return 'the constructor does not always set %s' % attr
        if any(attr in {n.attr for n in stores(f.node)} for f in run):
            return None
        return 'the constructor does not set %s' % attr
    if attr not in owner.fns:
        return ''
    f = owner.fns[attr]
    if abstract(f) and owner is not c:
        return '%s is not implemented' % attr
    if call is None or f.node.decorator_list and any(
            not (isinstance(d, ast.Name) and d.id in (
                'classmethod', 'staticmethod'))
            for d in f.node.decorator_list):
        return ''
    r = accepts(f, call, True)
    return None if r is None else '' if r is True else '%s %s' % (attr, r)


def stored_outside(w, c, attr):
    """Whether something may set the attribute on instances of the class."""
    return any(n.attr == attr and not (
                   isinstance(n.value, ast.Name) and n.value.id == 'self')
               for m in w.modules.values() for n in stores(m.tree))


def stores(tree):
    """Attributes that are set, and not only changed."""
    changed = {n.target for n in ast.walk(tree)
               if isinstance(n, ast.AugAssign)}
    return [n for n in ast.walk(tree) if isinstance(n, ast.Attribute) and
            isinstance(n.ctx, ast.Store) and n not in changed]


# --------------------------------------------------------------- uses of parts

def local_values(f):
    """What the local variables of a function (and of those around it) may
    be: name -> list of expressions, None when not known."""
    out = {}
    while f is not None:
        mine, known_targets = {}, set()
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            mine[x.arg] = []
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and not (isinstance(d, ast.Constant) and
                                      d.value is None):
                mine[x.arg] = [d]
        for n in body_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                mine.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for t, v in elements(n.target, n.iter):
                    mine.setdefault(t.id, []).append(
                        None if v is None else Element(v))
                    known_targets.add(t)
        for n in body_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                known_targets.add(n.targets[0])
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) \
                    and n not in known_targets:
                mine.setdefault(n.id, []).append(None)
        for k, v in mine.items():
            out.setdefault(k, v)
        f = f.outer
    return out


class Element(object):
    """An element of the value of an expression."""

    def __init__(self, of):
        self.of = of


def elements(target, it):
    """(variable, what it takes its elements from or None)."""
    if isinstance(target, ast.Name):
        return [(target, it)]
    if not isinstance(target, (ast.Tuple, ast.List)):
        return []
    parts = [None] * len(target.elts)
    if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and \
            len(parts) == 2 and it.args:
        parts[1] = it.args[0]
    elif isinstance(it, ast.Call) and dotted(it.func) == 'zip' and \
            len(it.args) == len(parts):
        parts = it.args
    out = []
    for t, p in zip(target.elts, parts):
        if p is not None:
            out += elements(t, p)
        else:
            out += [(n, None) for n in ast.walk(t)
                    if isinstance(n, ast.Name)]
    return out


def body_nodes(fn):
    """Nodes of a function without those of the functions in it."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def is_part(x, kind, values, seen=()):
    if isinstance(x, ast.Attribute):
        return x.attr in kind.names
    if not isinstance(x, ast.Name) or x.id in seen:
        return False
    if x.id in values:
        vs = values[x.id]
        if vs:
            return all(from_part(x.id, v, kind, values, seen) for v in vs)
        return x.id in kind.names
    return False


def from_part(name, v, kind, values, seen):
    if v is None:
        return False
    if isinstance(v, Element):
        return kind.elements is not None and \
            (dotted(v.of) or '').split('.')[-1] == kind.elements
    if isinstance(v, ast.Call):
        # made by a function that makes new ones
        return name in kind.names and isinstance(v.func, ast.Name) and \
            not v.args and not v.keywords
    return is_part(v, kind, values, seen + (name,))


def guarded(f):
    """Expressions whose kind is tested in a function, as text."""
    out = set()
    while f is not None:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and dotted(n.func) in (
                    'isinstance', 'hasattr', 'getattr', 'type', 'callable',
                    'issubclass') and n.args:
                out.add(ast.dump(n.args[0], annotate_fields=False))
            elif isinstance(n, ast.Compare):
                # x.kind is None
                out |= {ast.dump(x.value, annotate_fields=False)
                        for x in [n.left] + n.comparators
                        if isinstance(x, ast.Attribute) and x.attr == 'kind'}
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    names = {dotted(t) for t in (
                        h.type.elts if isinstance(h.type, ast.Tuple)
                        else [h.type])} if h.type is not None else {None}
                    if names & {None, 'AttributeError', 'TypeError',
                                'Exception', 'NotImplementedError'}:
                        out |= {ast.dump(x, annotate_fields=False)
                                for s in n.body for x in ast.walk(s)
                                if isinstance(x, ast.expr)}
        f = f.outer
    return out


def reached(w, modules, entries):
    """Functions of some modules that may run when entry points are called,
    by name."""
    fns = [f for f in w.functions.values()
           if f.module.name.replace('task_models.', '') in modules]
    byname = {}
    for f in fns:
        byname.setdefault(f.node.name, []).append(f)
    done = set()
    todo = [f for f in fns if f.node.name in entries and f.outer is None]
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        used = {n.attr if isinstance(n, ast.Attribute) else n.id
                for n in ast.walk(f.node)
                if isinstance(n, (ast.Attribute, ast.Name))}
        for u in used:
            for g in byname.get(u, ()):
                if g.outer is None or g.outer in done:
                    todo.append(g)
    return done


def uses(w, kind):
    """(function, attribute node, call or None) of a kind of parts."""
    ok = reached(w, kind.modules, kind.only) if kind.only else None
    for f in sorted(w.functions.values(), key=lambda f: f.qualname):
        if f.module.name.replace('task_models.', '') not in kind.modules or \
                ok is not None and f not in ok:
            continue
        values, skip = local_values(f), guarded(f)
        nodes = [n for n in body_nodes(f.node)]
        nodes += [m for n in nodes if isinstance(n, ast.Lambda)
                  for m in ast.walk(n.body)]
        called = {n.func: n for n in nodes if isinstance(n, ast.Call)}
        for n in nodes:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) \
                    and is_part(n.value, kind, values) and ast.dump(
                        n.value, annotate_fields=False) not in skip:
                yield f, n, called.get(n)


@rule('C45')
def offered(ctx):
    """Each class of a kind has what is used of the kind."""
    w = program(ctx)
    for kind in KINDS:
        classes = members(w, kind)
        n = 0
        for f, use, call in uses(w, kind):
            n += 1
            q = f.qualname.replace('task_models.', '')
            ctx.call_sites.add((q, use.lineno, use.col_offset))
            for c in classes:
                r = lacks(w, c, use.attr, call)
                name = '%s.%s' % (c.name, use.attr)
                if r is None:
                    ctx.unknown('offered', name, 'used in %s' % q)
                elif r:
                    ctx.bad('offered', name, '%s, which %s uses of %s' % (
                        r, q, kind.name), at(f.module, use))
                else:
                    ctx.ok('offered', '%s in %s' % (name, q))
        ctx.ok('offered', kind.name, '%d uses' % n)


# --------------------------------------------- classes chosen when it is called

def classes_of(w, f, x, values, depth=0):
    """Classes of the program that an expression may be, None if unknown."""
    if depth > 4:
        return None
    if isinstance(x, ast.IfExp):
        a = classes_of(w, f, x.body, values, depth + 1)
        b = classes_of(w, f, x.orelse, values, depth + 1)
        return None if a is None or b is None else a + b
    if isinstance(x, ast.Name) and x.id in values:
        vs = values[x.id]
        if not vs or None in vs:
            return None
        out = [classes_of(w, f, v, values, depth + 1) for v in vs]
        return None if None in out else [c for o in out for c in o]
    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Dict):
        out = [classes_of(w, f, v, values, depth + 1)
               for v in x.value.values]
        return None if None in out else [c for o in out for c in o]
    d = dotted(x)
    if d is None:
        return None
    try:
        c = w.resolve_static(f.module, d)
    except Exception:
        return None
    return [c] if isinstance(c, ClassInfo) else None


@rule('C45')
def chosen(ctx):
    """Classes that are chosen at run time all accept the call."""
    w = program(ctx)
    for f in sorted(w.functions.values(), key=lambda f: f.qualname):
        values = local_values(f)
        q = f.qualname.replace('task_models.', '')
        for call in body_nodes(f.node):
            if not isinstance(call, ast.Call):
                continue
            cs = classes_of(w, f, call.func, values)
            attr = '__init__'
            if cs is None and isinstance(call.func, ast.Attribute):
                cs = classes_of(w, f, call.func.value, values)
                attr = call.func.attr
            if not cs or len(cs) < 2:
                continue
            ctx.call_sites.add((q, call.lineno, call.col_offset))
            for c in cs:
                owner = c.find(attr)
                g = owner and owner.fns.get(attr)
                if g is None or not known(c):
                    continue
                bound = attr == '__init__' or any(
                    isinstance(d, ast.Name) and d.id == 'classmethod'
                    for d in g.node.decorator_list)
                if abstract(g):
                    ctx.bad('chosen', '%s in %s' % (c.name, q),
                            '%s is not implemented' % attr,
                            at(f.module, call))
                    continue
                r = accepts(g, call, bound)
                if isinstance(r, str):
                    ctx.bad('chosen', '%s in %s' % (c.name, q),
                            '%s.%s %s' % (c.name, attr, r),
                            at(f.module, call))
                elif r:
                    ctx.ok('chosen', '%s.%s in %s' % (c.name, attr, q))


# ------------------------------------------------------------ redefined methods

@rule('C45')
def redefined(ctx):
    """Calls of a method of a hierarchy fit each class that redefines it."""
    w = program(ctx)
    defs = {}
    for c in w.classes.values():
        for name, g in c.fns.items():
            defs.setdefault(name, []).append((c, g))
    groups = {}
    for name, ds in defs.items():
        if name.startswith('__') or len(ds) < 2:
            continue
        cs = [c for c, _ in ds]
        roots = [r for r in w.classes.values()
                 if all(r in c.mro for c in cs)]
        if roots and not stored(w, name):
            groups[name] = ds
    for f in sorted(w.functions.values(), key=lambda f: f.qualname):
        q = f.qualname.replace('task_models.', '')
        top = f
        while top.outer is not None:
            top = top.outer
        me = receiver(top)
        skip = guarded(f)
        for call in body_nodes(f.node):
            if not (isinstance(call, ast.Call) and isinstance(
                    call.func, ast.Attribute) and call.func.attr in groups):
                continue
            recv = call.func.value
            if isinstance(recv, ast.Call) and dotted(recv.func) == 'super' \
                    or ast.dump(recv, annotate_fields=False) in skip:
                continue
            d = dotted(recv)
            try:
                t = d and w.resolve_static(f.module, d)
            except Exception:
                t = None
            if t is not None and d.split('.')[0] not in local_values(f):
                continue
            ds = [(c, g) for c, g in groups[call.func.attr]
                  if not abstract(g)]
            if me is not None and d == me[1]:
                runs = {c.find(call.func.attr) for c in w.classes.values()
                        if me[0] in c.mro}
                ds = [(c, g) for c, g in ds if c in runs]
            if len(ds) < 2:
                continue
            ctx.call_sites.add((q, call.lineno, call.col_offset))
            for c, g in ds:
                bound = not (d == c.name)
                r = accepts(g, call, bound)
                if isinstance(r, str):
                    ctx.bad('redefined', '%s.%s' % (c.name, g.node.name),
                            '%s, as %s calls it' % (r, q),
                            at(f.module, call))
                elif r:
                    ctx.ok('redefined', '%s.%s in %s' % (
                        c.name, g.node.name, q))
