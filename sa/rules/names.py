"""Names, attributes and arguments that the program refers to exist, and
failures are signalled with exceptions that are not lost."""

import ast
import re
import string
import builtins
import symtable

from ..world import AnchorError, ClassInfo, FunctionInfo, Module, World
from . import rule

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
                                 '__class__', '__module__', '__qualname__'}
# attributes of all classes and objects
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__',
                             '__qualname__', '__mro__', '__bases__',
                             '__subclasses__', '__weakref__'}


def program(ctx):
    """The package and the sample scripts."""
    w = getattr(ctx, 'program', None)
    if w is None:
        try:
            w = World(ctx.world.root, ('task_models', 'samples'))
        except (AnchorError, SyntaxError):
            w = ctx.world
        ctx.program = w
        ctx.functions |= set(w.functions)
    return w


def short(m):
    return m.name.replace('task_models.', '')


def at(m, node):
    return '%s:%d' % (m.path, node.lineno)


# ---------------------------------------------------------------------- names

@rule('C23')
def names(ctx):
    """Global names used in any scope of a module are bound in the module or
    built in."""
    for m in sorted(program(ctx).modules.values(), key=lambda m: m.name):
        star = any(isinstance(n, ast.ImportFrom) and n.names[0].name == '*'
                   for n in ast.walk(m.tree))
        if star:
            ctx.unknown('names', short(m), 'wildcard import')
            continue
        bound = set(m.defs) | declared_global(m.tree) | tentative(m.tree)
        missing = {}

        def visit(table):
            for s in table.get_symbols():
                n = s.get_name()
                if not s.is_referenced() or n in bound or n in BUILTINS:
                    continue
                if table.get_type() == 'module' and s.is_local():
                    continue
                if s.is_global() or table.get_type() == 'module':
                    missing.setdefault(n, table)
            for c in table.get_children():
                visit(c)
        visit(symtable.symtable(m.source, m.path, 'exec'))
        for n, t in sorted(missing.items()):
            ctx.bad('names', '%s: %s' % (short(m), n),
                    'the name %s, used in %s, is not defined' % (
                        n, t.get_name()), '%s:%d' % (
                            m.path, first_use(m.tree, n)))
        if not missing:
            ctx.ok('names', short(m))


def tentative(tree):
    """Names of which the absence is handled."""
    out = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Try) and any(
                h.type is None or any(
                    isinstance(t, ast.Name) and t.id in (
                        'NameError', 'Exception', 'BaseException')
                    for t in ast.walk(h.type)) for h in x.handlers):
            for b in x.body:
                out |= {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
    return out


def declared_global(tree):
    return {n for x in ast.walk(tree) if isinstance(x, ast.Global)
            for n in x.names}


def first_use(tree, name):
    ls = [n.lineno for n in ast.walk(tree)
          if isinstance(n, ast.Name) and n.id == name]
    return min(ls) if ls else 0


@rule('C23')
def imports(ctx):
    """What is imported from the modules of the package exists, and so do the
    members of these modules that are used."""
    w = program(ctx)
    for m in sorted(w.modules.values(), key=lambda m: m.name):
        bad = None
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            mod = w.resolve_module(m, n)
            if mod.split('.')[0] != 'task_models':
                continue
            if mod not in w.modules and not any(
                    x.startswith(mod + '.') for x in w.modules):
                bad = (n, 'module %s does not exist' % mod)
                continue
            for a in n.names:
                if a.name == '*' or mod + '.' + a.name in w.modules:
                    continue
                if mod not in w.modules or a.name not in w.modules[mod].defs:
                    bad = (n, '%s is not defined in %s' % (a.name, mod))
        if bad:
            ctx.bad('imports', short(m), bad[1], at(m, bad[0]))
        else:
            ctx.ok('imports', short(m))


# ---------------------------------------------------------------- assignment

class Assigned:
    """Local names that may have been assigned at each use; those that are
    on no path are reported."""

    def __init__(self, fn):
        self.fn = fn
        a = fn.args
        self.params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        self.params |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        shared = {n for x in ast.walk(fn) if isinstance(
            x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.local = set()
        for s in fn.body:
            self.local |= self.bound(s)
        self.local -= shared | self.params
        self.bad = None
        self.block(fn.body, set())

    def bound(self, s):
        out, todo = set(), [s]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                out |= {n.target.id for n in ast.walk(x)
                        if isinstance(n, ast.NamedExpr)}
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in x.names}
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.MatchMapping) and x.rest:
                out.add(x.rest)
            todo.extend(ast.iter_child_nodes(x))
        return out

    def uses(self, x, have):
        """Uses in an expression (its own walrus targets are assigned)."""
        if x is None or self.bad:
            return
        have = have | self.bound(x)
        todo = [x]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                todo.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.Name) and n.id in self.local and \
                    isinstance(n.ctx, (ast.Load, ast.Del)) and \
                    n.id not in have:
                self.bad = n
            todo.extend(ast.iter_child_nodes(n))

    def block(self, body, have):
        for s in body:
            if self.bad:
                return
            self.stmt(s, have)

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, ast.If):
            self.uses(s.test, have)
            for b in (s.body, s.orelse):
                h = set(have)
                self.block(b, h)
            have |= self.bound(s)
        elif isinstance(s, (ast.For, ast.While)):
            self.uses(s.iter if isinstance(s, ast.For) else s.test, have)
            h = set(have)
            if isinstance(s, ast.For):
                h |= self.bound(s.target)
            # statements that the first iteration may skip are after others
            later = h | self.bound(s)
            for b in s.body:
                if self.bad:
                    return
                self.stmt(b, later if isinstance(b, (
                    ast.If, ast.For, ast.While, ast.Try)) else h)
                h |= self.bound(b)
            have |= self.bound(s)
            self.block(s.orelse, have)
        elif isinstance(s, ast.Try):
            h = set(have)
            self.block(s.body, h)
            have |= self.bound(s)
            for x in s.handlers:
                self.block(x.body, set(have))
            self.block(s.orelse, have)
            self.block(s.finalbody, have)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.uses(i.context_expr, have)
                if i.optional_vars is not None:
                    have |= self.bound(i.optional_vars)
            self.block(s.body, have)
        elif isinstance(s, ast.AugAssign):
            self.uses(s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local and s.target.id not in have:
                    self.bad = self.bad or s.target
            else:
                self.uses(s.target, have)
        elif isinstance(s, ast.Delete):
            self.uses(s, have)
        elif isinstance(s, ast.Match):
            have |= self.bound(s)
            self.uses(s.subject, have)
        else:
            self.uses(s.value if isinstance(s, (ast.Assign, ast.AnnAssign))
                      else s, have)
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    self.uses(t, have)
            have |= self.bound(s)


@rule('C23')
def assigned(ctx):
    """No local variable is used where no path has assigned it."""
    for f in sorted(program(ctx).functions.values(), key=lambda f: f.qualname):
        q = f.qualname.replace('task_models.', '')
        bad = Assigned(f.node).bad
        if bad is not None:
            ctx.bad('assigned', q, '%s is used before any assignment' % bad.id,
                    at(f.module, bad))
        else:
            ctx.ok('assigned', q)


# ----------------------------------------------------------------- attributes

def family(w, c):
    """The class, its ancestors and its descendants (with their ancestors)."""
    out = set()
    todo = [c] + [d for d in w.classes.values() if c in d.mro]
    for d in todo:
        for x in d.mro:
            out.add(x)
    return out


def provided(w, c):
    """Names of the attributes of the instances of a class, or None when they
    are not all known."""
    out = set(OBJECT)
    for x in family(w, c):
        if isinstance(x, str):
            if x in ('builtins.object', 'object'):
                continue
            return None
        if '__getattr__' in x.members or '__getattribute__' in x.members:
            return None
        out |= set(x.members)
        for n in ast.walk(x.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ('setattr', 'vars'):
                return None
            elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ('hasattr', 'getattr') and \
                    len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


@rule('C23')
def attributes(ctx):
    """Attributes of self and of the classes of the program are defined."""
    w = program(ctx)
    known = {}
    for f in sorted(w.functions.values(), key=lambda f: f.qualname):
        me = receiver(f)
        if me is None:
            continue
        c, name = me
        if c not in known:
            known[c] = provided(w, c)
        if known[c] is None:
            continue
        bad = None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                    n.value.id == name and n.attr not in known[c]:
                bad = n
        if any(isinstance(n, ast.Name) and n.id == name and isinstance(
                n.ctx, ast.Store) for n in ast.walk(f.node)):
            bad = None
        q = f.qualname.replace('task_models.', '')
        if bad is not None:
            ctx.bad('attributes', q, 'no attribute %s in %s' % (
                bad.attr, c.name), at(f.module, bad))
        else:
            ctx.ok('attributes', q)


def own_nodes(fn):
    """Nodes of a function, with those of the functions it contains that do
    not rebind its first argument."""
    first = fn.args.args[0].arg if fn.args.args else None
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and any(
                a.arg == first for a in n.args.args):
            continue
        if isinstance(n, ast.ClassDef):
            continue
        todo.extend(ast.iter_child_nodes(n))


def receiver(f):
    """Class of the first argument of a method, and its name."""
    if f.cls is None or f.outer is not None or not f.node.args.args:
        return None
    decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?')
            for d in f.node.decorator_list]
    if 'staticmethod' in decs:
        return None
    return f.cls, f.node.args.args[0].arg


# ------------------------------------------------------------------ arguments

def accepts(f, call, bound):
    """Whether the call fits the signature (None: not known)."""
    a = f.node.args
    if f.node.decorator_list and any(
            not (isinstance(d, ast.Name) and d.id in (
                'classmethod', 'staticmethod'))
            for d in f.node.decorator_list):
        return None
    if any(isinstance(x, ast.Starred) for x in call.args) or any(
            k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                 for d in f.node.decorator_list)
    if bound and not static:
        pos = pos[1:]
    n = len(call.args)
    if n > len(pos) and a.vararg is None:
        return 'takes %d arguments, %d are given' % (len(pos), n)
    given = set(pos[:n])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'argument %s is given twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
            return 'has no argument %s' % k.arg
        given.add(k.arg)
    nd = len(a.defaults)
    need = pos[:len(pos) - nd] if nd else pos
    need = [x for x in need if x not in given]
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is None and x.arg not in given]
    if need:
        return 'argument %s is missing' % need[0]
    return True


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


@rule('C23')
def arguments(ctx):
    """Calls of the functions, classes and methods of the program that can be
    resolved fit their signature."""
    w = program(ctx)
    for f in sorted(w.functions.values(), key=lambda f: f.qualname):
        local = {x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)} | {
            x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and
            isinstance(x.ctx, ast.Store)} | {
            x.name for x in ast.walk(f.node) if isinstance(
                x, (ast.FunctionDef, ast.ClassDef)) and x is not f.node}
        o = f.outer
        while o is not None:
            local |= {x.arg for x in ast.walk(o.node)
                      if isinstance(x, ast.arg)} | {
                x.id for x in ast.walk(o.node) if isinstance(x, ast.Name) and
                isinstance(x.ctx, ast.Store)} | {
                x.name for x in ast.walk(o.node)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
            o = o.outer
        q = f.qualname.replace('task_models.', '')
        bad, n = None, 0
        for call in ast.walk(f.node):
            if not isinstance(call, ast.Call):
                continue
            r = problem(w, f, call, local)
            if r is not None:
                n += 1
            if isinstance(r, str):
                bad = (call, r)
        ctx.call_sites |= {(q, i) for i in range(n)}
        if bad:
            ctx.bad('arguments', q, bad[1], at(f.module, bad[0]))
        elif n:
            ctx.ok('arguments', q, '%d calls' % n)
    for m in sorted(w.modules.values(), key=lambda m: m.name):
        # statements of the module and of its classes
        bad, n = None, 0
        todo = list(m.tree.body)
        top = FunctionInfo(ast.parse('def f(): pass').body[0], m,
                           m.name + '.<module>')
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(x))
            if isinstance(x, ast.Call):
                r = problem(w, top, x, ())
                n += r is not None
                if isinstance(r, str):
                    bad = (x, r)
        if bad:
            ctx.bad('arguments', short(m), bad[1], at(m, bad[0]))
        elif n:
            ctx.ok('arguments', short(m), '%d calls' % n)


def problem(w, f, call, local):
    """None (not resolved), True (fits) or what is wrong with a call."""
    me = receiver(f)
    d = dotted(call.func)
    if d is None:
        # super().method(...)
        n = call.func
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) \
                and isinstance(n.value.func, ast.Name) and \
                n.value.func.id == 'super' and me is not None:
            start = me[0]
            if n.value.args and dotted(n.value.args[0]):
                first = dotted(n.value.args[0])
                if first == me[1]:
                    return 'super() needs a class'
                try:
                    c = w.resolve_static(f.module, first)
                except Exception:
                    return None
                if not isinstance(c, ClassInfo):
                    return None
                if c not in me[0].mro:
                    return 'super(%s) in %s, which is no kind of it' % (
                        first, me[0].name)
                start = c
            for x in me[0].mro[me[0].mro.index(start) + 1:]:
                if isinstance(x, str):
                    return None if x not in ('object', 'builtins.object') \
                        else True if n.attr in OBJECT else \
                        'no method %s in the bases of %s' % (
                            n.attr, me[0].name)
                if n.attr in x.fns:
                    return named(x.fns[n.attr], call, True)
            if not me[0].external_bases() and n.attr not in OBJECT:
                return 'no method %s in the bases of %s' % (
                    n.attr, me[0].name)
        return None
    parts = d.split('.')
    if me is not None and parts[0] == me[1] and len(parts) == 2 and \
            me[1] not in {x.id for x in ast.walk(f.node) if isinstance(
                x, ast.Name) and isinstance(x.ctx, ast.Store)}:
        found = []
        for x in family(w, me[0]):
            if isinstance(x, ClassInfo) and parts[1] in x.members:
                if parts[1] not in x.fns:
                    return None
                found.append(x.fns[parts[1]])
        if not found or set_by_instances(w, me[0], parts[1]):
            return None
        rs = [named(g, call, True) for g in found]
        return None if None in rs else True if True in rs else rs[0]
    if parts[0] in local:
        return None
    try:
        t = w.resolve_static(f.module, d)
    except Exception:
        return None
    if isinstance(t, FunctionInfo):
        owner = t.cls
        if owner is not None:
            cm = any(isinstance(x, ast.Name) and x.id == 'classmethod'
                     for x in t.node.decorator_list)
            return named(t, call, cm)
        return named(t, call, False)
    if isinstance(t, ClassInfo):
        c = t.find('__init__')
        if c is None:
            if t.external_bases() and any(
                    b not in ('object', 'builtins.object')
                    for b in t.external_bases()):
                return None
            if '__new__' in t.members:
                return None
            return True if not call.args and not call.keywords else \
                '%s takes no arguments' % t.name
        if '__init__' not in c.fns:
            return None
        for x in t.mro[:t.mro.index(c)]:
            if isinstance(x, str) and x not in ('object', 'builtins.object'):
                return None
        return named(c.fns['__init__'], call, True)
    if t is None and len(parts) > 1:
        base = w.resolve_static(f.module, '.'.join(parts[:-1]))
        if isinstance(base, Module) and parts[-1] not in base.defs:
            return '%s is not defined in %s' % (parts[-1], base.name)
    return None


def set_by_instances(w, c, name):
    return any(isinstance(n, ast.Attribute) and n.attr == name and
               isinstance(n.ctx, ast.Store)
               for x in family(w, c) if isinstance(x, ClassInfo)
               for n in ast.walk(x.node))


def named(g, call, bound):
    r = accepts(g, call, bound)
    if isinstance(r, str):
        return '%s %s' % (g.qualname.replace('task_models.', ''), r)
    return r


# ----------------------------------------------------------------- exceptions

def is_exception(w, t):
    if isinstance(t, ClassInfo):
        return any(is_exception(w, b) for b in t.bases) if t.bases else False
    if isinstance(t, str):
        n = t.split('.')[-1]
        if t.startswith('builtins.'):
            x = getattr(builtins, n, None)
            return isinstance(x, type) and issubclass(x, BaseException)
        return None
    return False if isinstance(t, (FunctionInfo, Module)) else None


@rule('C23')
def raised(ctx):
    """Everything that is raised is an exception."""
    w = program(ctx)
    for f in sorted(w.functions.values(), key=lambda f: f.qualname):
        q = f.qualname.replace('task_models.', '')
        inner = {x for g in ast.walk(f.node) if isinstance(
            g, (ast.FunctionDef, ast.ClassDef)) and g is not f.node
            for x in ast.walk(g)}
        k = 0
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Raise) or n in inner:
                continue
            k += 1
            what = '%s: raise %d' % (q, k)
            x = n.exc
            called = isinstance(x, ast.Call)
            if x is None:
                ctx.ok('raised', what, 'raised again')
                continue
            if isinstance(x, ast.Call):
                x = x.func
            if isinstance(x, (ast.Constant, ast.JoinedStr, ast.BinOp,
                              ast.Tuple, ast.List, ast.Dict)):
                ctx.bad('raised', what, 'what is raised is not an exception',
                        at(f.module, n))
                continue
            d = dotted(x)
            me = receiver(f)
            t = None
            if d is not None and isinstance(x, ast.Name) and d in {
                    h.name for h in ast.walk(f.node)
                    if isinstance(h, ast.ExceptHandler)}:
                ctx.ok('raised', what, 'raised again')
                continue
            if d is not None and me is not None and \
                    d.split('.')[0] == me[1] and d.count('.') == 1:
                o = me[0].find(d.split('.')[1])
                if o is not None:
                    t = w.node_cls.get(o.members[d.split('.')[1]][-1])
            elif d is not None and not any(
                    isinstance(y, ast.Name) and y.id == d.split('.')[0] and
                    isinstance(y.ctx, ast.Store) for y in ast.walk(f.node)):
                t = w.resolve_static(f.module, d)
            v = is_exception(w, t)
            if called and isinstance(t, FunctionInfo):
                v = None  # the exception is what the function returns
            if v is False:
                ctx.bad('raised', what, '%s is not an exception' % d,
                        at(f.module, n))
            elif v is True:
                ctx.ok('raised', what)
            else:
                ctx.unknown('raised', what, 'raises %s' % (
                    d or ast.dump(x)[:80]))


# handlers of all exceptions
BROAD = {'Exception', 'BaseException'}


@rule('C23')
def swallowed(ctx):
    """No handler hides every failure."""
    for f in sorted(program(ctx).functions.values(), key=lambda f: f.qualname):
        q = f.qualname.replace('task_models.', '')
        k = 0
        for n in ast.walk(f.node):
            if not isinstance(n, ast.ExceptHandler):
                continue
            k += 1
            what = '%s: handler %d' % (q, k)
            ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
            broad = [t for t in ts if t is None or dotted(t) in BROAD]
            again = any(isinstance(x, ast.Raise) for x in ast.walk(n))
            stays = any(isinstance(x, (ast.Name,)) and x.id == n.name
                        for s in n.body for x in ast.walk(s)) if n.name \
                else False
            if broad and not again and not stays:
                ctx.bad('hidden failures', what,
                        'every exception is caught and forgotten',
                        at(f.module, n))
            elif broad and not again:
                ctx.unknown('hidden failures', what, 'catches everything')
            else:
                ctx.ok('hidden failures', what)


def places(text):
    """Positions and names a format string has places for, or None."""
    pos, named = set(), set()
    auto = 0
    try:
        fields = list(string.Formatter().parse(text))
        for _, f, spec, _ in list(fields):
            if spec:
                fields.extend(string.Formatter().parse(spec))
    except ValueError:
        return None
    for _, f, spec, _ in fields:
        if f is None:
            continue
        head = re.split(r'[.\[]', f, maxsplit=1)[0]
        if head == '':
            pos.add(auto)
            auto += 1
        elif head.isdigit():
            pos.add(int(head))
        else:
            named.add(head)
    return pos, named


def text_of(x, tree, depth=0):
    """The constant text of an expression, or None (names that are assigned
    once in the module, and never in a smaller scope)."""
    if depth > 8:
        return None
    if isinstance(x, ast.Constant):
        return x.value if isinstance(x.value, (str, int)) else None
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        a, b = [text_of(y, tree, depth + 1) for y in (x.left, x.right)]
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return None
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
            x.func.id == 'str' and len(x.args) == 1 and not x.keywords:
        a = text_of(x.args[0], tree, depth + 1)
        return None if a is None or isinstance(a, bool) else str(a)
    if isinstance(x, ast.Name):
        found = [y for y in ast.walk(tree) if (
            isinstance(y, ast.Name) and y.id == x.id and
            not isinstance(y.ctx, ast.Load)) or (
            isinstance(y, ast.arg) and y.arg == x.id) or (
            isinstance(y, ast.alias) and x.id in (y.name, y.asname)) or (
            isinstance(y, (ast.FunctionDef, ast.ClassDef)) and
            y.name == x.id)]
        top = [y for y in tree.body if isinstance(y, ast.Assign) and
               len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and
               y.targets[0].id == x.id]
        if len(found) == 1 and len(top) == 1:
            return text_of(top[0].value, tree, depth + 1)
    return None


@rule('C23')
def formats(ctx):
    """Format strings have a value for each of their places."""
    w = program(ctx)
    for m in sorted(w.modules.values(), key=lambda m: m.name):
        bad, n = None, 0
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr == 'format' and \
                    isinstance(text_of(x.func.value, m.tree), str):
                if any(isinstance(a, ast.Starred) for a in x.args) or any(
                        k.arg is None for k in x.keywords):
                    continue
                p = places(text_of(x.func.value, m.tree))
                n += 1
                if p is None:
                    bad = x, 'malformed format string'
                elif p[0] and max(p[0]) >= len(x.args):
                    bad = x, 'a place of the format string has no value'
                elif p[1] - {k.arg for k in x.keywords}:
                    bad = x, 'no value named %s' % ', '.join(sorted(
                        p[1] - {k.arg for k in x.keywords}))
            elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and \
                    isinstance(text_of(x.left, m.tree), str) and isinstance(
                        x.right, ast.Tuple):
                if any(isinstance(a, ast.Starred) for a in x.right.elts):
                    continue
                found = re.findall(r'%(?:\((\w+)\))?[-#0 +]*(\*|\d+)?'
                                   r'(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])',
                                   text_of(x.left, m.tree))
                if any(a for a, _, _, _ in found):
                    continue
                need = sum((c != '%') + (a == '*') + (b == '*')
                           for _, a, b, c in found)
                n += 1
                if need != len(x.right.elts):
                    bad = x, '%d values for %d places' % (
                        len(x.right.elts), need)
        if bad:
            ctx.bad('formats', short(m), bad[1], at(m, bad[0]))
        elif n:
            ctx.ok('formats', short(m), '%d format strings' % n)
