"""Parsing and name resolution of the analysed program."""

import ast
import builtins
import os


class AnchorError(Exception):
    """A construct that the property is about is gone (analysis broken)."""


class Module(object):

    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.defs = {}      # name -> list of statements that bind it
        self.is_pkg = os.path.basename(path) == '__init__.py'


class FunctionInfo(object):

    def __init__(self, node, module, qualname, cls=None, outer=None):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.cls = cls      # ClassInfo in which it is defined (or None)
        self.outer = outer  # enclosing FunctionInfo
        self.is_gen = False
        self.locals = None
        self.nonlocals = set()

    def __repr__(self):
        return '<fn %s>' % self.qualname


def lock_call(stmt, attr):
    """Lock of which the statement is a call of acquire or release."""
    if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and \
            isinstance(stmt.value.func, ast.Attribute) and \
            stmt.value.func.attr == attr and not stmt.value.args and \
            not stmt.value.keywords:
        return ast.unparse(stmt.value.func.value)
    return None


def held_locks(tree):
    """`l.acquire()` then `try: ... finally: l.release()` as `with l: ...`"""
    for node in ast.walk(tree):
        for field in ('body', 'orelse', 'finalbody'):
            stmts = getattr(node, field, None)
            if not isinstance(stmts, list):
                continue
            i = 0
            while i < len(stmts):
                t, lock, first = stmts[i], None, None
                if i + 1 < len(stmts) and lock_call(t, 'acquire'):
                    t, lock, first = stmts[i + 1], lock_call(t, 'acquire'), t
                elif isinstance(t, ast.Try) and lock_call(t.body[0],
                                                          'acquire'):
                    lock, first = lock_call(t.body[0], 'acquire'), t.body[0]
                i += 1
                if lock is None or not isinstance(t, ast.Try) or \
                        len(t.finalbody) != 1 or \
                        lock_call(t.finalbody[0], 'release') != lock:
                    continue
                body = [x for x in t.body if x is not first]
                if t.handlers or t.orelse:
                    body = [ast.copy_location(ast.Try(
                        body or [ast.copy_location(ast.Pass(), t)],
                        t.handlers, t.orelse, []), t)]
                w = ast.With([ast.withitem(first.value.func.value, None)],
                             body or [ast.copy_location(ast.Pass(), t)])
                ast.copy_location(w, first)
                ast.fix_missing_locations(w)
                stmts[i - 1:i + (t is not stmts[i - 1])] = [w]
    return tree


class ClassInfo(object):

    def __init__(self, node, module, qualname, outer_fn=None):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.name = node.name
        self.members = {}   # name -> list of statements binding it
        self.fns = {}       # name -> FunctionInfo (last definition)
        self.setters = {}   # name -> FunctionInfo
        self.bases = []     # ClassInfo or str (external dotted name)
        self.outer_fn = outer_fn
        self._mro = None
        self._assigned = None

    def __repr__(self):
        return '<class %s>' % self.qualname

    @property
    def mro(self):
        if self._mro is None:
            seqs = [[b] + (b.mro[1:] if isinstance(b, ClassInfo) else [])
                    for b in self.bases]
            out = [self]
            # depth first, keep the last occurrence (enough without diamonds)
            flat = []
            for s in seqs:
                flat.extend(s)
            seen = set()
            res = []
            for c in reversed(flat):
                k = c if isinstance(c, str) else c.qualname
                if k not in seen:
                    seen.add(k)
                    res.append(c)
            self._mro = out + res[::-1]
        return self._mro

    def find(self, name, after=None):
        """(ClassInfo, name) where the attribute is defined in the MRO."""
        started = after is None
        for c in self.mro:
            if not started:
                if c is after:
                    started = True
                continue
            if isinstance(c, ClassInfo) and name in c.members:
                return c
        return None

    def external_bases(self):
        return [c for c in self.mro if isinstance(c, str)]

    def is_subclass(self, other):
        return other in self.mro

    def assigned_fields(self):
        """Names assigned as self.<name> in methods (over the MRO)."""
        if self._assigned is None:
            names = set()
            for c in self.mro:
                if not isinstance(c, ClassInfo):
                    continue
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store):
                        names.add(n.attr)
            self._assigned = names
        return self._assigned


class World(object):

    def __init__(self, root, packages=('task_models',)):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.functions = {}
        self.node_fn = {}
        self.node_cls = {}
        self.files = []
        self.method_cache = {}
        self.read = None
        for p in packages:
            self._load_dir(os.path.join(root, p), p)
        for m in self.modules.values():
            self._index(m)
        for c in list(self.classes.values()):
            self._resolve_bases(c)

    def names_read(self):
        """Names of the attributes that the program may read: those read
        as such, and all words of its strings."""
        if self.read is None:
            self.read = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        if not isinstance(n.ctx, ast.Store):
                            self.read.add(n.attr)
                    elif isinstance(n, ast.Constant):
                        if isinstance(n.value, str):
                            self.read.update(n.value.split())
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        self.read.add(n.name)
        return self.read

    def _load_dir(self, path, name):
        if not os.path.isdir(path):
            raise AnchorError('package %s is missing' % path)
        for f in sorted(os.listdir(path)):
            full = os.path.join(path, f)
            if os.path.isdir(full) and os.path.exists(
                    os.path.join(full, '__init__.py')):
                self._load_dir(full, name + '.' + f)
            elif f.endswith('.py'):
                mod = name if f == '__init__.py' else name + '.' + f[:-3]
                with open(full, encoding='utf-8') as fp:
                    src = fp.read()
                self.modules[mod] = Module(
                    mod, full, held_locks(ast.parse(src, full)), src)
                self.files.append(full)

    # -- indexing

    def _bound_names(self, stmt):
        """Names bound at the level of the statement (module/class body)."""
        out = []
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
            out.append(stmt.name)
        elif isinstance(stmt, (ast.Import, ast.ImportFrom)):
            for a in stmt.names:
                out.append(a.asname or a.name.split('.')[0])
        elif isinstance(stmt, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
            ts = stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target]
            for t in ts:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.append(n.id)
        if isinstance(stmt, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for field in ('body', 'orelse', 'handlers', 'finalbody'):
                for s in getattr(stmt, field, []):
                    if isinstance(s, ast.ExceptHandler):
                        for s2 in s.body:
                            out.extend(self._bound_names(s2))
                    else:
                        out.extend(self._bound_names(s))
        return out

    def _index(self, m):
        for st in m.tree.body:
            for n in self._bound_names(st):
                m.defs.setdefault(n, []).append(st)
        self._index_body(m.tree.body, m, m.name, None, None)

    def _index_body(self, body, m, prefix, cls, outer):
        for st in body:
            self._index_stmt(st, m, prefix, cls, outer)

    def _index_stmt(self, st, m, prefix, cls, outer):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self._index_fn(st, m, prefix, cls, outer)
        elif isinstance(st, ast.ClassDef):
            q = prefix + '.' + st.name
            c = ClassInfo(st, m, q, outer)
            self.classes[q] = c
            self.node_cls[st] = c
            for s in st.body:
                for n in self._bound_names(s):
                    c.members.setdefault(n, []).append(s)
            self._index_body(st.body, m, q, c, outer)
        else:
            for child in ast.iter_child_nodes(st):
                if isinstance(child, ast.stmt):
                    self._index_stmt(child, m, prefix, cls, outer)
                elif isinstance(child, ast.ExceptHandler):
                    for s in child.body:
                        self._index_stmt(s, m, prefix, cls, outer)

    def _index_fn(self, node, m, prefix, cls, outer):
        q = prefix + '.' + node.name
        fi = FunctionInfo(node, m, q, cls, outer)
        deco = [ast.unparse(d) for d in node.decorator_list]
        if cls is not None:
            if any(d.endswith('.setter') for d in deco):
                cls.setters[node.name] = fi
                q = q + '.setter'
                fi.qualname = q
            else:
                cls.fns[node.name] = fi
        fi.decorators = deco
        self.functions[q] = fi
        self.node_fn[node] = fi
        self._scan_fn(fi)
        self._index_body(node.body, m, q, None, fi)

    def _scan_fn(self, fi):
        """Local names and whether the function is a generator."""
        names = set()
        node = fi.node
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                names.add(x.arg)
        glob = set()

        def walk(n, top):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef,
                                   ast.AsyncFunctionDef)):
                    names.add(ch.name)
                    continue
                if isinstance(ch, ast.Lambda):
                    continue
                if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp,
                                   ast.GeneratorExp)):
                    # comprehension scopes are handled by the interpreter
                    walk(ch, False) if False else None
                    for sub in ast.walk(ch):
                        if isinstance(sub, (ast.Yield, ast.YieldFrom)):
                            fi.is_gen = True
                        if isinstance(sub, ast.NamedExpr):
                            names.add(sub.target.id)
                    continue
                if isinstance(ch, (ast.Global, ast.Nonlocal)):
                    glob.update(ch.names)
                if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                    fi.is_gen = True
                if isinstance(ch, ast.Name) and isinstance(
                        ch.ctx, (ast.Store, ast.Del)):
                    names.add(ch.id)
                if isinstance(ch, ast.ExceptHandler) and ch.name:
                    names.add(ch.name)
                if isinstance(ch, (ast.Import, ast.ImportFrom)):
                    for al in ch.names:
                        names.add(al.asname or al.name.split('.')[0])
                walk(ch, False)
        if isinstance(node, ast.Lambda):
            pass
        else:
            for st in node.body:
                wrapper = ast.Module(body=[st], type_ignores=[])
                walk(wrapper, True)
        fi.locals = names - glob
        fi.nonlocals = glob

    def lambda_info(self, node, module, outer, cls=None):
        fi = self.node_fn.get(node)
        if fi is None:
            fi = FunctionInfo(node, module, '%s.<lambda:%d>' % (
                outer.qualname if outer else module.name, node.lineno),
                cls, outer)
            fi.decorators = []
            a = node.args
            fi.locals = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
                            + [a.vararg, a.kwarg] if x is not None)
            self.node_fn[node] = fi
        return fi

    # -- resolution

    def resolve_module(self, m, node):
        """Dotted name of the module an ImportFrom refers to."""
        if node.level == 0:
            return node.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def resolve_static(self, m, dotted, scope=None):
        """Resolves a dotted expression at module level to a ClassInfo,
        FunctionInfo, Module or external dotted name (str)."""
        parts = dotted.split('.')
        cur = self._lookup(m, parts[0], scope)
        for p in parts[1:]:
            if isinstance(cur, Module):
                cur = self._lookup(cur, p, None)
            elif isinstance(cur, ClassInfo):
                owner = cur.find(p)
                if owner is None:
                    return None
                st = owner.members[p][-1]
                cur = self.node_cls.get(st) or self.node_fn.get(st)
            elif isinstance(cur, str):
                cur = cur + '.' + p
            else:
                return None
        return cur

    def _lookup(self, m, name, scope):
        if scope is not None and name in scope.members:
            st = scope.members[name][-1]
            if isinstance(st, ast.ClassDef):
                return self.node_cls[st]
        if name not in m.defs:
            return 'builtins.' + name
        st = m.defs[name][-1]
        if len(m.defs[name]) > 1:
            # several bindings (try/except or version test imports): first
            st = m.defs[name][0]
            st = self._find_binding(st, name)
        else:
            st = self._find_binding(st, name)
        if isinstance(st, ast.ClassDef):
            return self.node_cls[st]
        if isinstance(st, ast.FunctionDef):
            return self.node_fn[st]
        if isinstance(st, ast.ImportFrom):
            mod = self.resolve_module(m, st)
            for a in st.names:
                if (a.asname or a.name) == name:
                    if mod in self.modules:
                        if mod + '.' + a.name in self.modules and \
                                a.name not in self.modules[mod].defs:
                            return self.modules[mod + '.' + a.name]
                        return self._lookup(self.modules[mod], a.name, None)
                    if mod + '.' + a.name in self.modules:
                        return self.modules[mod + '.' + a.name]
                    return mod + '.' + a.name
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname == name:
                    return self.modules.get(a.name, a.name)
                if a.asname is None and a.name.split('.')[0] == name:
                    n = a.name.split('.')[0]
                    return self.modules.get(n, n)
        return None

    def origin(self, m, name):
        """Module and name where an imported name is defined."""
        for _ in range(10):
            if len(m.defs.get(name, ())) != 1:
                break
            st = m.defs[name][0]
            if not isinstance(st, ast.ImportFrom):
                break
            mod = self.resolve_module(m, st)
            orig = [a.name for a in st.names if (a.asname or a.name) == name]
            if mod not in self.modules or not orig or \
                    orig[0] not in self.modules[mod].defs:
                break
            m, name = self.modules[mod], orig[0]
        return m, name

    def _find_binding(self, st, name):
        """First simple statement inside st that binds name."""
        if isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for field in ('body', 'orelse', 'finalbody'):
                for s in getattr(st, field, []):
                    if name in self._bound_names(s):
                        return self._find_binding(s, name)
            for h in getattr(st, 'handlers', []):
                for s in h.body:
                    if name in self._bound_names(s):
                        return self._find_binding(s, name)
        return st

    def _resolve_bases(self, c):
        for b in c.node.bases:
            try:
                d = ast.unparse(b)
            except Exception:
                d = '?'
            r = self.resolve_static(c.module, d)
            if r is None or isinstance(r, (Module, FunctionInfo)):
                r = 'unknown.' + d
            if r == 'builtins.object':
                continue
            c.bases.append(r)

    # -- anchors

    def cls(self, qual):
        """Class by dotted suffix, e.g. 'lib.pomcp._SearchTree'."""
        full = qual if qual in self.classes else 'task_models.' + qual
        if full in self.classes:
            return self.classes[full]
        # follow re-exports: the class may have moved to another module
        mod, _, name = full.rpartition('.')
        m = self.modules.get(mod)
        if m is not None and name in m.defs:
            r = self._lookup(m, name, None)
            if isinstance(r, ClassInfo):
                return r
        cand = [c for c in self.classes.values() if c.name == name]
        if len(cand) == 1:
            return cand[0]
        raise AnchorError('class %s not found' % qual)

    def fn(self, qual):
        full = qual if qual in self.functions else 'task_models.' + qual
        if full in self.functions:
            return self.functions[full]
        mod, _, name = full.rpartition('.')
        if mod in self.classes:
            owner = self.classes[mod].find(name)
            if owner is not None and name in owner.fns:
                return owner.fns[name]
            if owner is not None:
                # alias in the class body:  name = other
                d = owner.members[name][-1]
                if isinstance(d, ast.Assign) and isinstance(
                        d.value, ast.Name) and d.value.id != name:
                    return self.fn(mod + '.' + d.value.id)
        m = self.modules.get(mod)
        if m is not None and name in m.defs:
            r = self._lookup(m, name, None)
            if isinstance(r, FunctionInfo):
                return r
        raise AnchorError('function %s not found' % qual)

    def has_fn(self, qual):
        try:
            self.fn(qual)
            return True
        except AnchorError:
            return False

    def subclasses(self, c):
        return [d for d in self.classes.values() if c in d.mro]

    # -- effects (names only): what calling a function may modify

    MUTATORS = frozenset("""append extend insert add discard remove clear pop
    update setdefault sort reverse popitem put fill""".split())

    def _direct_mods(self, fi):
        attrs, params, calls = set(), set(), set()
        a = fi.node.args
        names = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)

        def base(t):
            while isinstance(t, (ast.Subscript, ast.Starred)):
                t = t.value
            if isinstance(t, ast.Attribute):
                attrs.add(t.attr)
            elif isinstance(t, ast.Name) and t.id in names:
                params.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e)

        def target(t):
            if isinstance(t, ast.Name):
                return
            base(t)
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                target(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.For, ast.comprehension)):
                target(n.target)
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    calls.add(f.attr)
                    if f.attr in self.MUTATORS:
                        base(f.value)
                elif isinstance(f, ast.Name) and not (
                        hasattr(builtins, f.id) and
                        f.id not in fi.module.defs):
                    calls.add(f.id)
        return attrs, params, calls

    def mods(self, fi):
        """Names of the attributes that calling fi may rebind or whose
        container it may modify."""
        cache = self.__dict__.setdefault('_mods', {})
        if fi in cache:
            return cache[fi]
        by_name = self.__dict__.get('_by_name')
        if by_name is None:
            by_name = self._by_name = {}
            for f in self.functions.values():
                by_name.setdefault(f.node.name, []).append(f)
            for c in self.classes.values():
                f = c.fns.get('__init__')
                if f is not None:
                    by_name.setdefault(c.name, []).append(f)
        seen, todo = set(), [fi]
        out, params = set(), False
        while todo:
            f = todo.pop()
            if f in seen or isinstance(f.node, ast.Lambda):
                continue
            seen.add(f)
            a, p, calls = self._direct_mods(f)
            out |= a
            params = params or bool(p)
            for n in calls:
                todo.extend(by_name.get(n, ()))
        cache[fi] = (frozenset(out), params)
        return cache[fi]

    def methods(self, name):
        """Methods of that name of the classes of the analysed code."""
        if name not in self.method_cache:
            self.method_cache[name] = [
                c.fns[name] for c in self.classes.values()
                if name in c.fns and
                'property' not in c.fns[name].decorators]
        return self.method_cache[name]

    def may_raise(self, fis, exc):
        """Whether one of the functions may let out exceptions of that class
        (of the analysed code), by the names that are raised and called."""
        name = exc.split('.')[-1]
        names = {name}
        for c in self.classes.values():
            if any(not isinstance(b, str) and b.qualname == exc
                   for b in c.mro):
                names.add(c.name)
        self.mods(fis[0]) if fis else None
        by_name = self.__dict__.get('_by_name') or {}
        seen, todo = set(), list(fis)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            raised, called = self._raised_called(f)
            if '*' in raised or raised & names:
                return True
            for n in called:
                todo.extend(by_name.get(n, ()))
        return False

    def _raised_called(self, f):
        cache = self.__dict__.setdefault('_raised', {})
        if f in cache:
            return cache[f]
        raised, called = set(), set()
        a = f.node.args
        params = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
        handlers = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.ExceptHandler) and n.name and \
                    n.type is not None:
                handlers[n.name] = ast.unparse(n.type).split('.')[-1]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                x = e.attr if isinstance(e, ast.Attribute) else \
                    e.id if isinstance(e, ast.Name) else '*'
                raised.add(handlers.get(x, x if x[:1].isupper() else '*'))
            elif isinstance(n, ast.Call):
                g = n.func
                if isinstance(g, ast.Attribute):
                    called.add(g.attr)
                elif isinstance(g, ast.Name):
                    if g.id in params and g.id not in ('cls', 'self'):
                        raised.add('*')
                    if not (hasattr(builtins, g.id) and
                            g.id not in f.module.defs):
                        called.add(g.id)
            elif isinstance(n, ast.Attribute):
                called.add(n.attr)      # properties
        cache[f] = raised, called
        return cache[f]
