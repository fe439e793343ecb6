"""Abstract interpreter: one join-based pass over the source of a function.

Every function is evaluated once per calling context, on abstract values
(terms).  Branches are joined with decision diagrams, loops are summarised
(closed forms for counters, accumulators and appends; opaque otherwise), calls
to functions of the analysed program are inlined up to a depth bound, other
calls are opaque values.  Along the way an event log records the effects:
writes, mutations, opaque calls, raises, yields, with the path condition, the
enclosing loops, context managers and call stack, and the source position.

Nothing is executed and no path is enumerated or handed to a solver.
"""

import ast
import sys

from . import terms as T
from .terms import (mk, const, TRUE, FALSE, NONE, ZERO, ONE, Limit)
from .world import ClassInfo, FunctionInfo, Module, AnchorError

sys.setrecursionlimit(20000)


class Event(object):
    __slots__ = ('kind', 'd', 'pc', 'loops', 'withs', 'stack', 'node', 'fn',
                 'seq', 'handlers', 'state')

    def __init__(self, kind, d):
        self.kind = kind
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        f = self.fn
        path = f.module.path if f is not None else '?'
        i = path.find('task_models')
        return '%s:%s (%s)' % (path[i:] if i >= 0 else path,
                               getattr(self.node, 'lineno', '?'),
                               f.qualname.replace('task_models.', '')
                               if f is not None else '?')

    def __repr__(self):
        d = {k: (v if not isinstance(v, T.Term) else T.show(v, 5))
             for k, v in self.d.items()}
        return '<%s %s pc=%s loops=%d %s>' % (
            self.kind, d, T.show(self.pc, 4), len(self.loops), self.where)


class Loop(object):
    """An enclosing loop: iv ranges over 0..dom-1 (dom None if unknown)."""

    def __init__(self, iv, dom, node, src=None):
        self.iv = iv
        self.dom = dom
        self.node = node
        self.src = src      # term iterated over (for reporting)
        self.outer = ()     # enclosing loops
        self.recs = {}      # rec symbol -> (init, next)
        self.cond = None    # while condition (open term)
        self.leaves = FALSE  # the same, without errors
        self.exits = FALSE  # condition (on iv) under which the loop is left

    def __repr__(self):
        return '<loop %s<%s>' % (self.iv, self.dom)


class State(object):

    __slots__ = ('vars', 'fields', 'cont', 'pc', 'cnt')

    def __init__(self):
        self.vars = {}
        self.fields = {}
        self.cont = {}
        self.pc = TRUE
        self.cnt = {}

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.fields = dict(self.fields)
        s.cont = dict(self.cont)
        s.pc = self.pc
        s.cnt = dict(self.cnt)
        return s

    def become(self, o):
        self.vars = o.vars
        self.fields = o.fields
        self.cont = o.cont
        self.pc = o.pc
        self.cnt = o.cnt

    @property
    def dead(self):
        return self.pc is FALSE


class Frame(object):

    def __init__(self, fi, fid, cls=None, self_term=None):
        self.fi = fi
        self.fid = fid
        self.cls = cls          # class whose method is executed (for super)
        self.self_term = self_term
        self.returns = []       # [(state, value)]
        self.loopctl = []       # stack of (breaks, continues)
        self.yields = None      # ref accumulating yields
        self.closure = ()       # fids of enclosing frames (inner first)


BOT = mk('bottom')
UNDEF = mk('undef')

PURE_METHODS = set('''sum dot reshape flatten ravel tolist argmax argmin mean
min max nonzero all any astype transpose cumsum lower upper replace strip split
join rstrip lstrip startswith endswith decode encode isspace format find
total_seconds intersection difference union symmetric_difference issubset
issuperset isdisjoint index count keys values items get to_list isdigit
__getitem__ item tostring tobytes prod std var'''.split())

IMPURE_EXT = ('numpy.random.', 'random.', 'time.', 'builtins.open', 'os.',
              'subprocess.', 'builtins.input', 'tempfile.', 'builtins.next',
              'queue.', 'multiprocessing.', 'threading.', 'io.open', 'json.load',
              'expjobs.')
NP_INPLACE = ('put', 'place', 'copyto', 'putmask', 'fill_diagonal',
              'put_along_axis')

PURE_PREFIX = ('os.path.', 'os.devnull')

TYPE_OF_KIND = {'list': 'builtins.list', 'dict': 'builtins.dict',
                'set': 'builtins.set', 'frozenset': 'builtins.frozenset',
                'tuple': 'builtins.tuple', 'array': 'numpy.ndarray'}


# Parameters of array methods (calls are normalised to keyword arguments).
NP_PARAMS = {'sum': ('axis', 'dtype'), 'mean': ('axis', 'dtype'),
             'max': ('axis',), 'min': ('axis',), 'argmax': ('axis',),
             'argmin': ('axis',), 'all': ('axis',), 'any': ('axis',),
             'prod': ('axis', 'dtype'), 'std': ('axis',),
             'var': ('axis',),
             'cumsum': ('axis',), 'astype': ('dtype',)}
NP_FUNCTIONS = dict([(n, n) for n in NP_PARAMS if n != 'astype'] +
                    [(n, n) for n in ('dot', 'reshape', 'nonzero', 'ravel',
                                      'transpose')] +
                    [('amax', 'max'), ('amin', 'min'), ('matmul', 'dot')])


def np_canon(name, a, k):
    if name == 'reshape' and len(a) > 1 and not k:
        return (T.seq_elems(*a),), k
    ps = NP_PARAMS.get(name)
    if ps is None or len(a) > len(ps):
        return a, k
    d = dict(zip(ps, a))
    for n, v in k:
        if n in d:
            return a, k
        d[n] = v
    d = {n: v for n, v in d.items() if v is not NONE}
    return (), tuple(sorted(d.items()))


# Terms that hold (rather than observe) the terms they are made of.
VIEWS = frozenset(['idx', 'elt'])
CONTENTS = frozenset(['seq', 'dict', 'set', 'upd', 'map', 'removed', 'updall',
                      'union', 'sorted', 'elts', 'deleted'])
HOLDERS = frozenset(['seq', 'dict', 'set', 'ite', 'new', 'tup', 'map', 'upd',
                     'args', 'elts', 'keys', 'e', 'after'])


def stripped(x, name, args):
    """Stripping white space subsumes stripping some of it; what remains is
    not white space."""
    strips = {'strip': ('strip', 'rstrip', 'lstrip'), 'rstrip': ('rstrip',),
              'lstrip': ('lstrip',)}
    if name == 'cumsum' and x.op == 'seq' and not args:
        lit = T.seq_literal(x)
        if lit is not None and all(i.op in ('const', 'len', 'poly')
                                   for i in lit):
            out, tot = [], ZERO
            for i in lit:
                tot = T.add(tot, i)
                out.append(tot)
            return T.seq_elems(*out)
    if x.op != 'mcall' or args:
        return None
    if name in strips and x.args[1] in strips[name] and all(
            a.op == 'const' and isinstance(T.cval(a), str) and
            not T.cval(a).strip() for a in x.args[2]):
        return stripped(x.args[0], name, args) or \
            mk('mcall', x.args[0], name, (), ())
    if name == 'isspace' and x.args[1] in strips and not x.args[2]:
        return FALSE
    return None


def negated(x, boolean):
    """The opposite of a comparison of arrays, item by item."""
    if x.op == 'arrcmp':
        o, a, b = x.args
        if o in ('Eq', 'NotEq'):
            return mk('arrcmp', 'NotEq' if o == 'Eq' else 'Eq', a, b)
        return mk('arrcmp', {'Lt': 'LtE', 'LtE': 'Lt'}[o], b, a)
    return T.not_(x) if boolean else None


def masked(x):
    """Positions are only asked of arrays of truth values."""
    if x.op == 'ite' and x.args[1:] in ((T.TRUE, T.FALSE),
                                        (T.FALSE, T.TRUE)):
        return mk('mask', x)
    return x


# methods that only one kind of container has
OWN_METHODS = {'items': 'dict', 'keys': 'dict', 'values': 'dict',
               'setdefault': 'dict', 'append': 'list', 'extend': 'list',
               'insert': 'list', 'add': 'set'}


class Interp(object):

    max_depth = 24
    reads = ()      # attributes whose uses are recorded
    max_events = 60000

    def __init__(self, world, opaque=(), hints=None, consts=None):
        self.w = world
        T.class_relation[0] = self._class_relation
        self.events = []
        self.quiet = 0
        self.stack = []         # Frames
        self.loops = []
        self.withs = []
        self.handlers = []
        self.settled = set()
        self.sinks = [[]]
        self.fns = {}           # key -> (FunctionInfo, closure fids, defaults)
        self.types = {}         # term -> (ClassInfo, exact)
        self.hints = hints or {}    # (class qualname suffix, field) -> ClassInfo
        self.kinds = {}         # ref -> kind
        self.nfid = 0
        self.nref = 0
        self.root = None
        self.opaque = set(opaque)   # qualnames not to be inlined
        self.seq = 0
        self.mod_cache = {}
        # quotients that may be rounded, and products of them
        self.quotients = set()
        self.inexact = set()
        # lists, sets and dictionaries that all objects of a class share
        self.shared = {}
        self.globals_cont = {}
        self.globals_fields = {}
        self.cls_cache = {}
        self.analysed = set()   # FunctionInfo evaluated
        self.node = None
        self.loop_of_rec = {}
        self.len_of = {}        # lengths of lists that grow in loops
        self.loop_of_iters = {}
        self.loop_free_ = {}
        self.obj_cls = {}
        self.overrides = {}     # qualname -> python callable(interp, st, args, kw)
        self.const_fields = consts or {}
        self.steps = 0
        self.max_steps = 400000
        self.term_kind = {}
        self.all_loops = []
        self.unsupported = []
        self.origins = {}       # view of an element -> (container, index)
        self.alias = {}         # (container, index) -> view
        self.mutated = set()    # (container, index) modified through a view
        self.var_recs = {}      # value of a variable at an iteration -> name
        self.busy = set()
        self.extending = set()
        self.src_of = {}        # items/keys/values term -> container

    # ------------------------------------------------------------ utilities

    def _class_relation(self, a, b):
        """Relation between two class names (strings)."""
        if a == b:
            return 'sub'
        ca, cb = self.w.classes.get(a), self.w.classes.get(b)
        if ca is not None and cb is not None:
            if cb in ca.mro:
                return 'sub'
            if ca in cb.mro:
                return None
            # no class of the program inherits from both?
            for d in self.w.classes.values():
                if ca in d.mro and cb in d.mro:
                    return None
            return 'disjoint'
        if ca is None and cb is None:
            if 'builtins.object' in (b,):
                return 'sub'
            basic = ('builtins.str', 'builtins.list', 'builtins.dict',
                     'builtins.tuple', 'builtins.set')
            if a in basic and b in basic:
                return 'disjoint'
            return None
        return None

    def log(self, kind, st, /, **d):
        if self.quiet or st.dead:
            return None
        e = Event(kind, d)
        e.pc = st.pc
        e.loops = tuple(self.loops)
        e.withs = tuple(self.withs)
        e.stack = tuple(f.fi.qualname if f.fi else '?' for f in self.stack)
        e.node = self.node
        e.fn = self.stack[-1].fi if self.stack else None
        e.handlers = tuple(self.handlers)
        e.seq = self.seq
        e.state = None
        self.seq += 1
        self.events.append(e)
        if len(self.events) > self.max_events:
            raise Limit('too many events')
        return e

    def newref(self, st, content, kind):
        self.nref += 1
        r = mk('ref', self.nref)
        st.cont[r] = content
        self.kinds[r] = kind
        return r

    def newobj(self, cls):
        self.nref += 1
        o = mk('obj', self.nref, cls.qualname)
        self.obj_cls[o] = cls
        return o

    def content(self, st, t):
        """Current content of a container (one level)."""
        if t.op == 'ite':
            return T.ite_map(t, lambda x: self.content(st, x))
        c = st.cont.get(t)
        if c is None:
            c = self.globals_cont.get(t)
        if c is not None:
            return c
        if t.op in VIEWS and self.origins.get(t) in self.mutated:
            base, k = self.origins[t]
            if t in self.busy:
                self.unsupported.append('cyclic containers')
                return t
            self.busy.add(t)
            try:
                return T.idx(self.content(st, base), k)
            finally:
                self.busy.discard(t)
        return t

    def put(self, st, recv, content, via=None):
        """Changes the content of a container, that may be an element of
        another one."""
        if recv.op == 'ite':
            def f(s, x):
                self.put(s, x, T.constrain(content, s.pc), via)
                return NONE
            self._by_cases(st, recv, f)
            return
        v = self.var_recs.get(recv)
        if v is not None and st.vars.get(v) is recv and recv not in st.cont:
            # object held by a variable that changes during the loop
            st.vars[v] = content
            return
        o = self.origins.get(recv)
        if recv.op in ('ref', 'obj', 'sym', 'fld', 'rec', 'loopout') or \
                o is None or recv in st.cont:
            self.detach(st, recv, content, via)
            st.cont[recv] = content
            return
        if o is False:
            self.unsupported.append('ambiguous element')
            st.cont[recv] = content
            return
        base, k = o
        self.mutated.add(o)
        c = self.content(st, base)
        self.put(st, base, T.upd(c, k, content), k)

    def detach(self, st, base, content, via):
        """Views of elements that are replaced keep their content."""
        old = self.content(st, base)
        if content.op == 'upd' and content.args[0] is old:
            ks = (content.args[1],)
        elif content.op == 'seq' and content.args and \
                content.args[0] == ('s', old):
            return
        else:
            ks = None
        for (b, k), a in list(self.alias.items()):
            if b is base and (b, k) in self.mutated and a not in st.cont and \
                    (ks is None or not T.definitely_different(k, ks[0])) \
                    and T.idx(content, k) is not T.idx(old, k) and \
                    k is not via:
                st.cont[a] = T.idx(old, k)

    def note_view(self, st, base, k, r):
        if base.op not in ('ref', 'sym', 'fld', 'idx', 'key', 'elt', 'rec',
                           'loopout') or r.op in ('ref', 'obj', 'const'):
            return r
        o = (base, k)
        if r.op == 'ite':
            for l in T.leaves(r):
                if l.op in VIEWS:
                    self.note_view(st, base, k, l)
            return r
        if r.op in VIEWS:
            if self.origins.get(r) != o:
                self.origins[r] = o
            self.alias.setdefault(o, r)
            return r
        if r.op in CONTENTS:
            a = self.alias.get(o)
            if a is not None and o in self.mutated and a not in st.cont:
                return a
            p = self.origins.get(r)
            if p is None or p and p[0] is base:
                self.origins[r] = o
            else:
                self.origins[r] = False
        return r

    def val(self, st, t, seen=()):
        """Deep snapshot: refs and objects replaced by their content."""
        memo = {}
        return self._val(st, t, memo, ())

    def _val(self, st, t, memo, seen, loc=True):
        # loc: whether t stands where a container would be stored (a term that
        # names a container then means its current content; elsewhere, for
        # instance in len(t), it denotes the content t had when read)
        if isinstance(t, tuple):
            if loc and len(t) == 2 and t[0] == 's':
                return ('s', self._val(st, t[1], memo, seen, False))
            return tuple(self._val(st, a, memo, seen, loc) for a in t)
        if not isinstance(t, T.Term):
            return t
        key = (t, loc)
        if key in memo:
            return memo[key]
        if t.op in ('ref', 'obj'):
            if t in seen:
                return mk('cycle', t.op)
            seen = seen + (t,)
            if t.op == 'ref':
                r = self._val(st, st.cont.get(t, t), memo, seen) \
                    if st.cont.get(t, t) is not t else t
            else:
                fs = []
                for (b, a), v in st.fields.items():
                    if b is t:
                        fs.append((a, self._val(st, v, memo, seen)))
                r = mk('new', t.args[1], tuple(sorted(fs, key=lambda x: x[0])))
            memo[key] = r
            return r
        if loc:
            c = self.content(st, t) if t.op in VIEWS else st.cont.get(t)
            if c is not None and c is not t and t not in seen:
                r = self._val(st, c, memo, seen + (t,))
                memo[key] = r
                return r
        if t.op in ('const', 'sym', 'iv', 'rec', 'bnd', 'fn', 'cls', 'ext',
                    'mod', 'undef'):
            return t
        if t.op == 'bind':
            r = mk('bind', t.args[0], self._val(st, t.args[1], memo, seen, loc))
            if r.args[1] is not t.args[1]:
                iv = T.fresh_iv()
                r = T.close_bind(iv, T.subst(r.args[1], {mk('bnd', t.args[0]): iv}))
            else:
                r = t
        else:
            n = len(t.args)
            if not loc or t.op not in HOLDERS:
                pos = (False,) * n
            elif t.op == 'ite':
                pos = (False,) + (True,) * (n - 1)
            elif t.op == 'upd':
                pos = (False,) * (n - 1) + (True,)
            elif t.op == 'map':
                pos = tuple(isinstance(a, T.Term) and a.op == 'bind'
                            for a in t.args)
            else:
                pos = (True,) * n
            new = tuple(self._val(st, a, memo, seen, p)
                        for a, p in zip(t.args, pos))
            if all(x is y for x, y in zip(new, t.args)):
                r = t
            else:
                r = T.rebuild(t.op, new)
        memo[key] = r
        return r

    # ------------------------------------------------------------ typing

    def set_type(self, term, cls, exact=True):
        self.types[term] = (cls, exact)

    def typeof(self, st, t):
        """(ClassInfo, exact) of the instances t may denote, or None."""
        if t.op == 'obj':
            return self.obj_cls[t], True
        if t.op == 'new':
            c = self.w.classes.get(t.args[0])
            return (c, True) if c is not None else None
        if t in self.types:
            return self.types[t]
        best = None
        for a, v in T.literals(st.pc):
            if a.op == 'isinstance' and v and a.args[0] is t:
                c = self.w.classes.get(a.args[1])
                if c is not None and (best is None or best[0] in c.mro):
                    best = (c, not [d for d in self.w.subclasses(c) if d is not c])
        if best is not None:
            return best
        if t.op == 'fld':
            base = self.typeof(st, t.args[0])
            if base is not None:
                for c in base[0].mro:
                    if isinstance(c, ClassInfo):
                        h = self.hints.get((c.name, t.args[1]))
                        if h is not None:
                            return h if isinstance(h, tuple) else (h, False)
                h = self.infer_field(base[0], t.args[1])
                if h is not None:
                    return h, False
        if t.op == 'rcall':
            h = self.hints.get(('return', t.args[0]))
            if h is not None:
                return h, False
        if t.op == 'idx':
            b = t.args[0]
            if b.op == 'fld':
                base = self.typeof(st, b.args[0])
                if base is not None:
                    for c in base[0].mro:
                        if isinstance(c, ClassInfo):
                            h = self.hints.get((c.name, b.args[1], 'elem'))
                            if h is not None:
                                return h if isinstance(h, tuple) else (h, False)
        return None

    def infer_field(self, cls, attr):
        """Class of a field that is always assigned an instance of one class."""
        key = (cls.qualname, attr)
        if key in self.cls_cache:
            return self.cls_cache[key]
        self.cls_cache[key] = None
        found = set()
        for v, c, fn in self.field_sources(cls, attr):
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            r = None
            if isinstance(v, ast.Call):
                f = v.func
                if isinstance(f, ast.Attribute) and isinstance(
                        f.value, ast.Name) and f.value.id == 'self':
                    o = cls.find(f.attr)
                    if o is not None:
                        r = self.w.node_cls.get(o.members[f.attr][-1])
                else:
                    try:
                        r = self.w.resolve_static(c.module, ast.unparse(f), c)
                    except Exception:
                        r = None
            found.add(r if isinstance(r, ClassInfo) else None)
        r = None
        if len(found) == 1:
            r = found.pop()
        self.cls_cache[key] = r
        return r

    def field_sources(self, cls, attr):
        """Expressions (with their class and function) whose values are
        assigned to a field; the expression is None where it is not known."""
        out = []

        def match(x):
            return isinstance(x, ast.Attribute) and x.attr == attr and \
                isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)
        for c in cls.mro:
            if isinstance(c, ClassInfo):
                out.extend(self._assigned(
                    c.node, c, lambda x: match(x) and x.value.id == 'self'))
        if not out:
            # helper functions that are given the object
            for c in cls.mro:
                if isinstance(c, ClassInfo):
                    for st in c.module.tree.body:
                        if isinstance(st, ast.FunctionDef):
                            out.extend(self._assigned(st, c, match))
        res = []
        for v, c, fn in out:
            res.extend(self.sources(v, c, fn))
        return res

    def _assigned(self, root, c, match):
        """What is assigned, below a node, to the targets that match."""
        found = []

        def go(t, v, fn):
            if match(t):
                found.append((v, c, fn))
            elif isinstance(t, (ast.Tuple, ast.List)):
                vs = [None] * len(t.elts)
                if isinstance(v, (ast.Tuple, ast.List)) and \
                        len(v.elts) == len(t.elts) and not any(
                            isinstance(x, ast.Starred)
                            for x in t.elts + v.elts):
                    vs = v.elts
                for x, y in zip(t.elts, vs):
                    go(x, y, fn)
            elif isinstance(t, ast.Starred):
                go(t.value, None, fn)
        scopes = [(root, root)]
        while scopes:
            n, fn = scopes.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                fn = n
            scopes.extend((x, fn) for x in ast.iter_child_nodes(n))
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    go(t, n.value, fn)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    go(n.target, n.value, fn)
            elif isinstance(n, (ast.For, ast.comprehension)):
                go(n.target, None, fn)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                go(n.optional_vars, None, fn)
        return found

    def sources(self, v, c, fn, depth=0):
        """Expressions an expression may take its value from, through local
        names, helpers and parameters of helpers."""
        leaf = [(v, c, fn)]
        if depth > 5:
            return leaf
        if isinstance(v, ast.IfExp):
            return self.sources(v.body, c, fn, depth + 1) + \
                self.sources(v.orelse, c, fn, depth + 1)
        if isinstance(v, ast.Name) and isinstance(fn, ast.FunctionDef):
            a = fn.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            found = self._assigned(fn, c, lambda x: isinstance(x, ast.Name)
                                   and x.id == v.id)
            if v.id in params:
                if found or not fn.name.startswith('_') or \
                        fn.name.startswith('__'):
                    return leaf
                found = self._passed(fn, v.id, c)
            if not found:
                return leaf
            out = []
            for x, y, g in found:
                out.extend(self.sources(x, y, g, depth + 1))
            return out
        if isinstance(v, ast.Call):
            f = None
            if isinstance(v.func, ast.Name):
                f = self.w.functions.get('%s.%s' % (c.module.name, v.func.id))
            elif isinstance(v.func, ast.Attribute) and isinstance(
                    v.func.value, ast.Name) and v.func.value.id in (
                        'self', 'cls', c.name):
                o = c.find(v.func.attr)
                f = o and o.fns.get(v.func.attr)
            node = getattr(f, 'node', None)
            inner = None
            if isinstance(v.func, ast.Name) and fn is not None:
                defs = [n for n in ast.walk(fn) if n is not fn and isinstance(
                    n, ast.FunctionDef) and n.name == v.func.id]
                lams = [x for x, _, _ in self._assigned(
                    fn, c, lambda x: isinstance(x, ast.Name) and
                    x.id == v.func.id)]
                if len(defs) == 1 and not lams:
                    inner = node = defs[0]
                elif not defs and len(lams) == 1 and isinstance(
                        lams[0], ast.Lambda):
                    return self.sources(lams[0].body, c, fn, depth + 1)
            if isinstance(node, ast.FunctionDef) and not any(
                    isinstance(n, (ast.Yield, ast.YieldFrom))
                    for n in ast.walk(node)):
                out = []
                for n in ast.walk(node):
                    if isinstance(n, ast.Return):
                        out.extend(self.sources(
                            n.value, c, fn if inner is not None and not any(
                                isinstance(x, ast.Name) and
                                not isinstance(x.ctx, ast.Load)
                                for x in ast.walk(inner)) else node,
                            depth + 1))
                if out:
                    return out
        return leaf

    def _passed(self, fn, name, c):
        """Arguments given for a parameter of a helper in its module."""
        a = fn.args
        if a.vararg or a.kwarg:
            return []
        ps = [x.arg for x in a.posonlyargs + a.args]
        out = []
        scopes = [(c.module.tree, None)]
        while scopes:
            n, g = scopes.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                g = n
            scopes.extend((x, g) for x in ast.iter_child_nodes(n))
            if not isinstance(n, ast.Call):
                continue
            at = 0
            if isinstance(n.func, ast.Attribute) and n.func.attr == fn.name:
                at = 1 if ps[:1] in (['self'], ['cls']) else 0
            elif not (isinstance(n.func, ast.Name) and n.func.id == fn.name):
                continue
            v = None
            ok = not any(isinstance(x, ast.Starred) for x in n.args)
            if ok and name in ps and 0 <= ps.index(name) - at < len(n.args):
                v = n.args[ps.index(name) - at]
            for k in n.keywords:
                if k.arg == name:
                    v = k.value
            out.append((v, c, g))
        return out

    # ------------------------------------------------------------ merging

    def merge(self, states):
        """Joins states with disjoint path conditions into one."""
        states = [s for s in states if not s.dead]
        if not states:
            s = State()
            s.pc = FALSE
            return s
        r = states[0]
        for s in states[1:]:
            r = self._merge2(r, s)
        return r

    def _merge2(self, a, b):
        r = State()
        r.pc = T.or_(a.pc, b.pc)
        sel = T.constrain(a.pc, r.pc)
        for name, default in (('vars', lambda k: UNDEF),
                              ('fields', lambda k: self.default_field(k)),
                              ('cont', lambda k: k)):
            da, db = getattr(a, name), getattr(b, name)
            d = getattr(r, name)
            if da is db:
                d.update(da)
                continue
            for k in da.keys() | db.keys():
                x, y = da.get(k), db.get(k)
                if x is y:
                    d[k] = x
                    continue
                if name == 'cont' and (x is None or y is None):
                    g = self.globals_cont.get(k)
                    x, y = x or g, y or g
                    if x is y:
                        d[k] = x
                        continue
                if x is None:
                    x = default(k)
                    if k[0].op in ('obj',) if name == 'fields' else \
                            name == 'cont' and k.op == 'ref':
                        d[k] = y
                        continue
                if y is None:
                    y = default(k)
                    if k[0].op in ('obj',) if name == 'fields' else \
                            name == 'cont' and k.op == 'ref':
                        d[k] = x
                        continue
                d[k] = T.ite(sel, x, y)
        for k in a.cnt.keys() | b.cnt.keys():
            r.cnt[k] = max(a.cnt.get(k, 0), b.cnt.get(k, 0))
        return r

    def default_field(self, key):
        base, attr = key
        if base.op == 'obj':
            return UNDEF
        return mk('fld', base, attr)

    def merge_values(self, items):
        """Joins [(state, value)] -> (state, value)."""
        items = [(s, v) for s, v in items if not s.dead]
        if not items:
            return None, BOT
        st, v = items[0]
        for s2, v2 in items[1:]:
            pc = T.or_(st.pc, s2.pc)
            sel = T.constrain(st.pc, pc)
            st = self._merge2(st, s2)
            v = T.ite(sel, v, v2)
        return st, v

    # ------------------------------------------------------------ conditions

    def truth(self, st, t):
        """Truth value of a term, as a boolean diagram."""
        return T.ite_map(t, lambda x: self._truth(st, x))

    def _truth(self, st, x):
        if x is TRUE or x is FALSE:
            return x
        if x.op == 'ext' and x.args[0] == 'builtins.NotImplemented':
            return FALSE        # then objects only equal themselves
        if x.op == 'const':
            if x.args[0] == 'n':
                return TRUE if x.args[1] != 0 else FALSE
            v = T.cval(x)
            return TRUE if v else FALSE
        if x.op == 'ref':
            k = self.kinds.get(x)
            if k == 'array':
                return T.cond(mk('truth', self.val(st, x)))
            c = self.content(st, x)
            return T.ite_map(self.val(st, c), self._nonempty)
        if x.op in ('obj', 'fn', 'bm', 'cls', 'mod', 'ext', 'bmeth', 'new'):
            return TRUE
        if x.op in ('seq', 'set', 'dict'):
            return self._nonempty(x)
        if x.op in ('poly', 'len', 'mod', 'floordiv', 'sum') or \
                x.op == 'mcall' and x.args[1] in (
                    'sum', 'max', 'min', 'mean', 'prod', 'argmax', 'argmin') \
                or x.op == 'call' and x.args[0] in (
                    'numpy.count_nonzero', 'builtins.abs', 'builtins.sum',
                    'builtins.int'):
            return T.not_(T.eq(x, ZERO))
        c = st.cont.get(x)
        if c is not None and c is not x:
            return self.truth(st, c)
        if self.term_kind.get(x) in ('list', 'dict', 'set'):
            return self._nonempty(x)
        return T.cond(mk('truth', x))

    def _nonempty(self, c):
        if c.op == 'set':
            if not c.args:
                return FALSE
            if any(p[0] == 'e' for p in c.args):
                return TRUE
            return T.cond(mk('truth', c))
        if c.op == 'dict':
            if not c.args:
                return FALSE
            return TRUE if any(p[0] == 'e' for p in c.args) else \
                T.cond(mk('truth', c))
        return T.not_(T.eq(T.length(c), ZERO))

    def under(self, st, c):
        """Condition c simplified under the path condition of st."""
        return T.constrain(c, st.pc)

    # ------------------------------------------------------------ frames

    def lookup(self, st, name):
        fr = self.stack[-1]
        key = (fr.fid, name)
        if key in st.vars and st.vars[key] is not UNDEF:
            return st.vars[key]
        if fr.fi is not None and name in (fr.fi.locals or ()) and key in st.vars:
            return st.vars[key]
        for fid in fr.closure:
            if (fid, name) in st.vars:
                return st.vars[(fid, name)]
        if fr.fi is not None and name in (fr.fi.locals or ()) and \
                isinstance(fr.fi.node, ast.FunctionDef):
            return mk('unsupported', 'unbound ' + name, 0)
        return self.global_name(fr.fi.module, name, st)

    def global_name(self, module, name, st):
        key = (module.name, name)
        if key in self.mod_cache:
            return self.mod_cache[key]
        if name not in module.defs:
            if name == '__name__':
                return const(module.name)
            r = mk('ext', 'builtins.' + name)
            self.mod_cache[key] = r
            return r
        r = self.w._lookup(module, name, None)
        t = self.entity(r)
        if t is None:
            # a module level assignment
            m, n = self.w.origin(module, name)
            t = self._eval_global(m, n) if m is module \
                else self.global_name(m, n, st)
        self.mod_cache[key] = t
        return t

    def entity(self, r):
        if isinstance(r, ClassInfo):
            return mk('cls', r.qualname)
        if isinstance(r, FunctionInfo):
            return self.fnterm(r, ())
        if isinstance(r, Module):
            return mk('mod', r.name)
        if isinstance(r, str):
            return mk('ext', r)
        return None

    def fnterm(self, fi, closure, defaults=None):
        key = (fi.qualname, id(fi.node), tuple(closure))
        t = mk('fn', fi.qualname, id(fi.node), tuple(closure))
        self.fns[t] = (fi, tuple(closure), defaults)
        return t

    def _eval_global(self, module, name):
        stmts = module.defs[name]
        self.quiet += 1
        fi = FunctionInfo(None, module, module.name + '.<module>')
        fi.locals = set()
        fr = Frame(fi, self._fid())
        self.stack.append(fr)
        saved = self.loops, self.withs, self.handlers
        self.loops, self.withs, self.handlers = [], [], []
        self.mod_cache[(module.name, name)] = mk('sym', '%s.%s' % (module.name, name))
        st = State()
        self.sinks.append([])
        try:
            for s in stmts:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    self.stmt(s, st)
            v = st.vars.get((fr.fid, name))
        finally:
            self.sinks.pop()
            self.stack.pop()
            self.loops, self.withs, self.handlers = saved
            self.quiet -= 1
        if v is None:
            return mk('sym', '%s.%s' % (module.name, name))
        self._adopt_global(st)
        return v

    def _adopt_global(self, st):
        """Containers created at module/class level: content is global."""
        self.globals_cont.update(st.cont)
        self.globals_fields.update(st.fields)
        for s in getattr(self, 'live', []):
            for k, v in st.cont.items():
                s.cont.setdefault(k, v)
            for k, v in st.fields.items():
                s.fields.setdefault(k, v)

    def _fid(self):
        self.nfid += 1
        return self.nfid

    # ------------------------------------------------------------ attributes

    def getattr(self, st, v, attr):
        if attr in self.reads:
            self.log('read', st, base=v, attr=attr)
        if v.op == 'ite':
            if all(l is TRUE or l is FALSE for l in T.leaves(v)):
                # result of an (elementwise) comparison
                return mk('bmeth', v, attr) if attr in PURE_METHODS \
                    else mk('fld', v, attr)
            return self._by_cases(st, v, lambda s, x: self._getattr(s, x, attr))
        return self._getattr(st, v, attr)

    def _by_cases(self, st, v, f):
        """Evaluates f on each leaf of v under its condition, joins."""
        items = []
        for c, leaf in T.cases(v):
            s = st.copy()
            s.pc = T.and_(st.pc, c)
            if s.dead:
                continue
            r = f(s, leaf)
            items.append((s, r))
        if not items:
            return BOT
        s, r = self.merge_values(items)
        if s is None:
            st.pc = FALSE
            return BOT
        st.become(s)
        return r

    def _getattr(self, st, v, attr):
        if v is BOT:
            return BOT
        op = v.op
        key = (v, attr)
        if op == 'super':
            return self._super_attr(st, v, attr)
        if op == 'mod':
            m = self.w.modules[v.args[0]]
            if attr in m.defs:
                return self.global_name(m, attr, st)
            sub = v.args[0] + '.' + attr
            if sub in self.w.modules:
                return mk('mod', sub)
            return mk('fld', v, attr)
        if op == 'ext':
            if v.args[0] == 'numpy' and attr == 'newaxis':
                return NONE
            return mk('ext', v.args[0] + '.' + attr)
        if op == 'cls':
            return self._class_attr(st, v, self.w.classes[v.args[0]], attr)
        if key in st.fields:
            x = st.fields[key]
            if x is not UNDEF:
                if x.op == 'ite' and UNDEF in T.leaves(x):
                    x = T.ite_map(x, lambda y: self._class_default(st, v, attr)
                                  if y is UNDEF else y)
                return x
        if op == 'new':
            for a, x in v.args[1]:
                if a == attr:
                    return x
        if op in ('ref', 'const', 'seq', 'dict', 'set', 'strcat'):
            if attr == 'shape':
                r = T.shape(self.val(st, v))
                if r is not None:
                    return r
            if attr in ('shape', 'size', 'ndim', 'T', 'dtype'):
                return mk('fld', self.val(st, v), attr)
            return mk('bmeth', v, attr)
        if op == 'fn':
            return mk('fld', v, attr)
        if attr == '__class__':
            t = self.typeof(st, v)
            if t is not None and t[1]:
                return mk('cls', t[0].qualname)
            return mk('type', v)
        if op == 'type' and attr == '__name__':
            return mk('fld', v, attr)
        t = self.typeof(st, v)
        if t is not None:
            cls, exact = t
            owner = cls.find(attr)
            if owner is not None:
                r = self._instance_class_attr(st, v, cls, owner, attr)
                if r is not None:
                    return r
            elif op in ('obj', 'new') and attr not in cls.assigned_fields() and \
                    not cls.external_bases():
                self.log('noattr', st, base=v, attr=attr, cls=cls.qualname)
        if op == 'obj':
            if key not in st.fields:
                # maybe set later/elsewhere: symbolic
                return mk('fld', v, attr)
        if attr == 'shape' and op == 'idx':
            return T.shape_of_item(v)
        if attr == 'ndim' and op in ('idx', 'sym', 'fld'):
            return T.length(self._getattr(st, v, 'shape'))
        return mk('fld', v, attr)

    def _class_default(self, st, v, attr):
        t = self.typeof(st, v)
        if t is not None:
            owner = t[0].find(attr)
            if owner is not None:
                r = self._instance_class_attr(st, v, t[0], owner, attr)
                if r is not None:
                    return r
        return UNDEF

    def _overridden(self, cls, owner, attr):
        """Some subclass redefines attr (dynamic dispatch is ambiguous)."""
        return [d for d in self.w.subclasses(cls)
                if d is not cls and d.find(attr) is not owner]

    def _instance_class_attr(self, st, v, cls, owner, attr):
        stmts = owner.members[attr]
        fi = owner.fns.get(attr)
        if fi is not None and isinstance(stmts[-1], (ast.FunctionDef, ast.If)):
            deco = fi.decorators
            t = self.typeof(st, v)
            if t is not None and not t[1] and self._overridden(cls, owner, attr):
                if 'property' in deco:
                    return mk('fld', v, attr)
                return mk('bmeth', v, attr)
            if 'property' in deco:
                return self.call_fn(st, self.fnterm(fi, self._cls_closure(owner)),
                                    [v], {}, self_term=v, cls=owner)
            f = self.fnterm(fi, self._cls_closure(owner))
            if 'staticmethod' in deco:
                return f
            if 'classmethod' in deco:
                return mk('bm', mk('cls', cls.qualname), f)
            return mk('bm', v, f)
        # class level constant: instances may shadow it
        if v.op not in ('obj', 'new') and attr in cls.assigned_fields():
            st_last = stmts[-1]
            if not isinstance(st_last, (ast.ClassDef, ast.FunctionDef)):
                return None
        if v.op not in ('obj', 'new'):
            t = self.typeof(st, v)
            if t is not None and not t[1]:
                if self._overridden(cls, owner, attr):
                    return None
        x = self.class_member(owner, attr)
        # methods bound by alias (has_object = _get_bit)
        if x is not None and x.op == 'fn':
            return mk('bm', v, x)
        return x

    def _cls_closure(self, cls):
        return getattr(cls, 'closure', ())

    def _class_attr(self, st, v, cls, attr):
        if attr == '__name__':
            return const(cls.name)
        if (v, attr) in st.fields:
            return st.fields[(v, attr)]
        owner = cls.find(attr)
        if owner is None:
            if cls.external_bases():
                return mk('fld', v, attr)
            self.log('noattr', st, base=v, attr=attr, cls=cls.qualname)
            return mk('fld', v, attr)
        fi = owner.fns.get(attr)
        if fi is not None and isinstance(owner.members[attr][-1], ast.FunctionDef):
            f = self.fnterm(fi, self._cls_closure(owner))
            if 'classmethod' in fi.decorators:
                return mk('bm', v, f)
            return f
        return self.class_member(owner, attr)

    def class_member(self, owner, attr):
        key = ('cls', owner.qualname, attr)
        if key in self.mod_cache:
            return self.mod_cache[key]
        st_last = owner.members[attr][-1]
        if isinstance(st_last, ast.ClassDef):
            return mk('cls', self.w.node_cls[st_last].qualname)
        if isinstance(st_last, ast.FunctionDef):
            return self.fnterm(owner.fns[attr], self._cls_closure(owner))
        # evaluate the class body in order, up to and including its bindings
        self.quiet += 1
        fi = FunctionInfo(None, owner.module, owner.qualname + '.<body>')
        fi.locals = set(owner.members)
        fr = Frame(fi, self._fid())
        fr.closure = self._cls_closure(owner)
        self.stack.append(fr)
        saved = self.loops, self.withs, self.handlers
        self.loops, self.withs, self.handlers = [], [], []
        st = State()
        self.sinks.append([])
        self.mod_cache[key] = mk('sym', '%s.%s' % (owner.qualname, attr))
        try:
            for s in owner.node.body:
                if isinstance(s, ast.FunctionDef):
                    if s.name in owner.fns and owner.fns[s.name].node is s:
                        st.vars[(fr.fid, s.name)] = self.fnterm(
                            owner.fns[s.name], fr.closure)
                elif isinstance(s, ast.ClassDef):
                    st.vars[(fr.fid, s.name)] = mk(
                        'cls', self.w.node_cls[s].qualname)
                else:
                    self.stmt(s, st)
        finally:
            self.sinks.pop()
            self.stack.pop()
            self.loops, self.withs, self.handlers = saved
            self.quiet -= 1
        for n in owner.members:
            v = st.vars.get((fr.fid, n))
            if v is not None:
                self.mod_cache[('cls', owner.qualname, n)] = v
                if v.op == 'ref':
                    self.shared[v] = '%s.%s' % (owner.qualname, n)
        self._adopt_global(st)
        return self.mod_cache[key]

    def _super_attr(self, st, v, attr):
        cls = self.w.classes[v.args[0]]
        obj = v.args[1]
        if obj.op == 'cls':
            tcls = self.w.classes[obj.args[0]]
        else:
            t = self.typeof(st, obj)
            tcls = t[0] if t is not None else cls
        if cls not in tcls.mro:
            tcls = cls
        owner = tcls.find(attr, after=cls)
        if owner is None:
            ext = tcls.external_bases()
            return mk('ext', 'super.%s.%s' % (ext[0] if ext else 'object', attr))
        fi = owner.fns.get(attr)
        if fi is None:
            return self.class_member(owner, attr)
        f = self.fnterm(fi, self._cls_closure(owner))
        if 'property' in fi.decorators:
            return self.call_fn(st, f, [obj], {}, self_term=obj, cls=owner)
        if 'staticmethod' in fi.decorators:
            return f
        if 'classmethod' in fi.decorators:
            return mk('bm', obj if obj.op == 'cls' else mk('cls', tcls.qualname), f)
        return mk('bm', obj, f)

    def setattr(self, st, base, attr, value):
        if base.op == 'ite':
            def f(s, b):
                self.setattr(s, b, attr, value)
                return NONE
            self._by_cases(st, base, f)
            return
        t = self.typeof(st, base)
        if t is not None:
            for c in t[0].mro:
                if isinstance(c, ClassInfo):
                    if attr in c.setters:
                        f = self.fnterm(c.setters[attr], self._cls_closure(c))
                        self.call_fn(st, f, [base, value], {}, self_term=base,
                                     cls=c)
                        return
                    if attr in c.members:
                        break
        old = st.fields.get((base, attr))
        self.log('write', st, base=base, attr=attr, value=value,
                 val=self.val(st, value))
        st.fields[(base, attr)] = value

    # ------------------------------------------------------------ containers

    def kind_of(self, st, t):
        if t.op == 'ref':
            return self.kinds.get(t)
        if t.op == 'const':
            return 'str' if T.is_str(t) else None
        if t.op == 'strcat':
            return 'str'
        if t.op == 'seq':
            return 'tuple'
        if t.op in ('dict', 'set'):
            return t.op
        k = self.term_kind.get(t)
        if k is None and t.op == 'fld':
            b = self.typeof(st, t.args[0])
            if b is not None:
                return self.infer_kind(b[0], t.args[1])
        return k

    def _number(self, st, t):
        """Whether a field is only ever assigned numbers that are written in
        the constructor, or incremented."""
        if t.op != 'fld':
            return False
        b = self.typeof(st, t.args[0])
        if b is None:
            return False
        ok = False
        for c in b[0].mro:
            if not isinstance(c, ClassInfo):
                continue
            for n in ast.walk(c.node):
                if isinstance(n, ast.Assign) and any(
                        isinstance(x, ast.Attribute) and x.attr == t.args[1]
                        for x in n.targets):
                    if isinstance(n.value, ast.Constant) and \
                            isinstance(n.value.value, (int, float)):
                        ok = True
        return ok

    def infer_kind(self, cls, attr):
        """Kind of container always assigned to a field."""
        key = (cls.qualname, attr, 'kind')
        if key in self.cls_cache:
            return self.cls_cache[key]
        self.cls_cache[key] = None
        found = set(self._literal_kind(v, c)
                    for v, c, fn in self.field_sources(cls, attr))
        used = set()
        for c in cls.mro:
            if not isinstance(c, ClassInfo):
                continue
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Attribute) and \
                        n.func.value.attr == attr and isinstance(
                            n.func.value.value, ast.Name) and \
                        n.func.value.value.id == 'self':
                    k = OWN_METHODS.get(n.func.attr)
                    if k is not None:
                        used.add(k)
        if None in found and len(found) <= 2 and len(used) == 1:
            found = (found - {None}) | used
        r = found.pop() if len(found) == 1 else None
        self.cls_cache[key] = r
        return r

    def _literal_kind(self, v, c):
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in ('list', 'dict', 'set', 'sorted'):
            return 'list' if v.func.id == 'sorted' else v.func.id
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                isinstance(v.func.value, ast.Name) and v.func.attr in (
                    'asarray', 'array', 'zeros', 'ones', 'full', 'empty',
                    'arange', 'zeros_like', 'ones_like', 'outer'):
            if v.func.value.id in ('np', 'numpy'):
                return 'array'
        return None

    def setitem(self, st, base, index, value, aug=None, chain=()):
        index = self.plain_index(st, index)
        if base.op == 'ite':
            def f(s, b):
                self.setitem(s, b, index, value, aug, chain)
                return NONE
            self._by_cases(st, base, f)
            return
        self.log('setitem', st, base=base, index=self.val(st, index),
                 value=value, val=self.val(st, value), aug=aug, chain=chain,
                 kind=self.kind_of(st, base))
        c = self.content(st, base)
        k = self.val(st, index)
        if index.op == 'slc':
            self.put(st, base, mk('upd', c, k, value))
            return
        for n in range(len(chain), 0, -1):
            # x[i][j] = v
            inner = c
            for x in chain[:n]:
                inner = T.idx(inner, x)
            value = T.upd(inner, k, value)
            k = chain[n - 1]
        self.put(st, base, T.upd(c, k, value))

    def getitem(self, st, base, index):
        index = self.plain_index(st, index)
        if base.op == 'ite':
            return self._by_cases(st, base,
                                  lambda s, b: self.getitem(s, b, index))
        if index.op == 'ite' and base.op in ('sym', 'fld', 'mcall') and all(
                i is TRUE or i is FALSE for i in T.leaves(index)):
            # (a comparison, maybe of an array, and then item by item)
            return mk('idx', self.val(st, base), mk('chosen', index))
        if index.op == 'ite':
            return self._by_cases(st, index,
                                  lambda s, i: self.getitem(s, base, i))
        if base is BOT:
            return BOT
        if base.op in ('obj', 'new'):
            t = self.typeof(st, base)
            if t is not None and t[0].find('__getitem__'):
                return self.call(st, self.getattr(st, base, '__getitem__'),
                                 [index], {})
        c = self.content(st, base)
        k = self.val(st, index)
        if k.op == 'slc':
            lo, hi, step = k.args
            if step is NONE:
                r = T.slice_(c, lo, hi)
            else:
                r = mk('idx', c, k)
            kind = self.kind_of(st, base)
            if kind is None and base.op in ('call', 'icall', 'mcall') and any(
                    a in ('.split', '.splitlines', 'split', 'splitlines')
                    for a in base.args[:4] if isinstance(a, str)):
                kind = 'list'
            if kind in ('list', None) and self.kind_of(st, base) != 'str':
                return self.newref(st, r, kind) if kind == 'list' else r
            return r

        def get(cc):
            r = T.idx(cc, k)
            return r
        r = T.ite_map(c, get)
        # last element of a list that grows by one element per iteration
        if r.op == 'idx' and T.is_int(r.args[1]):
            r = self._rec_item(st, r)
        return self.note_view(st, base, k, r)

    def _rec_item(self, st, r):
        return r

    # ------------------------------------------------------------ calls

    def keywords(self, st, kw):
        """Keyword arguments given by a dictionary with known keys."""
        x = kw['**']
        c = self.content(st, x) if x.op != 'ite' else x
        if c.op == 'dict' and all(p[0] == 'e' and T.is_str(p[1])
                                  for p in c.args):
            kw = dict(kw)
            del kw['**']
            for p in c.args:
                kw[T.cval(p[1])] = p[2]
        return kw

    def call(self, st, f, args, kw, node=None):
        if '**' in kw:
            kw = self.keywords(st, kw)
        if '**' in kw:
            x = kw['**']
            x = x if x.op == 'ite' else self.content(st, x)
            if x.op == 'ite':
                return self._by_cases(st, x, lambda s, g: self.call(
                    s, f, args, dict(kw, **{'**': g})))
        if f.op == 'ite':
            return self._by_cases(st, f, lambda s, g: self.call(s, g, args, kw))
        if f is BOT:
            return BOT
        op = f.op
        if op == 'bm':
            return self.call_fn(st, f.args[1], [f.args[0]] + args, kw,
                                self_term=f.args[0])
        if op == 'fn':
            return self.call_fn(st, f, args, kw)
        if op == 'cls':
            return self.instantiate(st, self.w.classes[f.args[0]], args, kw)
        if op == 'ext':
            return self.call_ext(st, f.args[0], args, kw)
        if op == 'bmeth':
            return self.call_method(st, f.args[0], f.args[1], args, kw)
        if op == 'type':
            return self.opaque_call(st, 'new', f, args, kw)
        if op in ('obj', 'new') or self.typeof(st, f) is not None:
            t = self.typeof(st, f)
            if t is not None and t[0].find('__call__') is not None:
                return self.call(st, self.getattr(st, f, '__call__'), args, kw)
        if op == 'fld':
            return self.call_method(st, f.args[0], f.args[1], args, kw)
        return self.opaque_call(st, 'callv', f, args, kw)

    def argvals(self, st, args, kw):
        return (tuple(self.argval(st, a) for a in args),
                tuple((k, self.argval(st, kw[k])) for k in sorted(kw)))

    def argval(self, st, a):
        if a.op == 'fn' and a.args[2] and a in self.fns:
            return self.extension(st, a)
        return self.val(st, a)

    def extension(self, st, f):
        """A local function, given by its value on any arguments."""
        fi = self.fns[f][0]
        a = fi.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or f in self.extending:
            return mk('closure', f)
        n = len(a.posonlyargs + a.args) - len(a.defaults)
        ivs = [T.fresh_iv() for _ in range(n)]
        self.quiet += 1
        self.extending.add(f)
        self.sinks.append([])
        try:
            s = st.copy()
            r = self.val(s, self.call(s, f, ivs, {}))
            whole = not s.dead and len(self.sinks[-1]) == 0
            mods = []
            for k in sorted(s.cont, key=lambda k: k.id):
                v = s.cont[k]
                if st.cont.get(k) is v or k.op == 'ref' and k not in st.cont:
                    continue
                if k.op == 'ref':
                    whole = False
                    break
                mods.append((k, self.val(s, v)))
            for k in sorted(s.fields, key=lambda k: (k[0].id, k[1])):
                v = s.fields[k]
                if st.fields.get(k) is v or k[0].op == 'obj' and \
                        k not in st.fields:
                    continue
                if k[0].op == 'obj':
                    whole = False
                    break
                mods.append((k[0], const(k[1]), self.val(s, v)))
        finally:
            self.quiet -= 1
            self.extending.discard(f)
            self.sinks.pop()
        if not whole:
            return mk('closure', f)
        if mods:
            r = mk('proc', r, tuple(mods))
        for iv in ivs:
            r = T.close_bind(iv, r)
        return mk('lam', r)

    def occurrence(self, st, key):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def ivs(self):
        return tuple(l.iv for l in self.loops)

    def method_args(self, name, args, kw):
        """Arguments of the call of a method of an unknown object: as
        positional ones, with the default values, provided that all methods
        of that name that accept the call agree."""
        if any(x.op == 'starred' for x in args) or '**' in kw:
            return args, kw
        self.w.methods(name)
        found = set()
        for fi in self.w.method_cache[name]:
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if 'staticmethod' not in fi.decorators:
                names = names[1:]
            if a.vararg is not None or a.kwarg is not None or a.kwonlyargs:
                return args, kw
            defs = dict(zip(reversed(names), reversed(a.defaults)))
            if len(args) > len(names) or not set(kw) <= set(
                    names[len(args):]) or any(
                        n not in kw and n not in defs
                        for n in names[len(args):]):
                continue
            out = []
            for n in names[len(args):]:
                if n in kw:
                    out.append(n)
                elif isinstance(defs[n], ast.Constant):
                    out.append(const(defs[n].value))
                else:
                    return args, kw
            found.add(tuple(out))
        if len(found) > 1 and args:
            # by name, if they agree on the names
            heads = set()
            for fi in self.w.method_cache[name]:
                a = fi.node.args
                names = [x.arg for x in a.posonlyargs + a.args]
                if 'staticmethod' not in fi.decorators:
                    names = names[1:]
                if len(names) >= len(args) and set(kw) <= set(
                        names[len(args):]):
                    heads.add(tuple(names[:len(args)]))
            if len(heads) == 1:
                kw = dict(kw, **dict(zip(heads.pop(), args)))
                args = []
        if len(found) != 1:
            return args, kw
        rest = found.pop()
        return (list(args) + [kw[x] if isinstance(x, str) else x
                              for x in rest], {})

    def opaque_call(self, st, how, f, args, kw, name=None, pure=False):
        if how == 'method' and name is not None:
            args, kw = self.method_args(name, args, kw)
        if name in ('open', 'builtins.open') and len(args) <= 2:
            # default mode
            kw = dict(kw)
            mode = args[1] if len(args) == 2 else kw.pop('mode', None)
            args = list(args[:1])
            if mode is not None and mode is not const('r'):
                args.append(mode)
        a, k = self.argvals(st, args, kw)
        if pure:
            r = mk('call', name, a, k)
            return self.lift_args(r)
        key = (how, f, name, a, k)
        n = self.occurrence(st, key)
        r = mk('icall', how, f, name, a, k, n, self.ivs())
        self.log('call', st, how=how, recv=f, name=name, args=a, kw=dict(k),
                 rargs=tuple(args), result=r)
        if self.handlers:
            if how == 'method':
                self.escapes(st, self.w.methods(name), r)
            elif how != 'ext':
                self.escapes(st, None, r)
        return r

    def lift_args(self, r):
        """Distributes a pure call over the decision diagrams of its args."""
        name, a, k = r.args
        for i, x in enumerate(a):
            if x.op == 'ite' and len(T.leaves(x)) <= 8:
                return T.ite_map(x, lambda y: self.lift_args(
                    mk('call', name, a[:i] + (y,) + a[i + 1:], k)))
        return r

    def bind_args(self, st, fi, args, kw, defaults=None):
        """Parameter name -> term, or None if the call does not match."""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(x.op == 'starred' for x in args):
            flat = []
            for x in args:
                if x.op == 'starred':
                    lit = T.seq_literal(self.val(st, x.args[0]))
                    raw = T.seq_literal(self.content(st, x.args[0]))
                    if raw is None:
                        raw = lit
                    if raw is None:
                        self.unsupported.append('arguments from a list')
                        return None
                    flat.extend(raw)
                else:
                    flat.append(x)
            args = flat
        kw = dict(kw)
        if '**' in kw:
            extra = kw.pop('**')
            c = self.content(st, extra)
            if c.op == 'dict' and all(p[0] == 'e' and T.is_str(p[1])
                                      for p in c.args):
                for p in c.args:
                    kw[T.cval(p[1])] = p[2]
            else:
                kw['**'] = extra
        for n, v in zip(names, args):
            out[n] = v
        rest = args[len(names):]
        if a.vararg is not None:
            out[a.vararg.arg] = self.newref(st, T.seq_elems(*rest), 'tuple')
        elif rest:
            return None
        kwrest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        star = kw.pop('**', None)
        for n, v in kw.items():
            if n in names or n in kwonly:
                if n in out:
                    return None
                out[n] = v
            elif a.kwarg is not None:
                kwrest[n] = v
            else:
                return None
        if a.kwarg is not None:
            parts = [('e', const(n), v) for n, v in sorted(kwrest.items())]
            if star is not None:
                parts.insert(0, ('s', star))
            out[a.kwarg.arg] = self.newref(st, mk('dict', *parts), 'dict')
        elif star is not None:
            return None
        # defaults
        ndef = len(a.defaults)
        for n, d in zip(names[len(names) - ndef:], a.defaults):
            if n not in out:
                out[n] = self.default_value(st, fi, d)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in out and d is not None:
                out[n] = self.default_value(st, fi, d)
        for n in names + kwonly:
            if n not in out:
                return None
        return out

    def default_value(self, st, fi, node):
        key = ('default', id(node))
        if key in self.mod_cache:
            return self.mod_cache[key]
        self.quiet += 1
        f2 = FunctionInfo(None, fi.module, fi.qualname + '.<default>')
        f2.locals = set()
        fr = Frame(f2, self._fid())
        if fi.cls is not None:
            # defaults are evaluated in the class body
            for n in fi.cls.members:
                pass
        self.stack.append(fr)
        st2 = State()
        try:
            v = self.expr(node, st2)
        finally:
            self.stack.pop()
            self.quiet -= 1
        self._adopt_global(st2)
        for k, c in st2.cont.items():
            st.cont.setdefault(k, c)
        self.mod_cache[key] = v
        return v

    def call_fn(self, st, f, args, kw, self_term=None, cls=None):
        fi, closure, _ = self.fns[f]
        if fi.qualname in self.overrides:
            if kw:
                a = fi.node.args
                names = [x.arg for x in a.posonlyargs + a.args]
                b = None
                if not a.vararg and not a.kwarg and not a.kwonlyargs and \
                        set(kw) <= set(names):
                    b = self.bind_args(st, fi, args, kw)
                if b is not None:
                    n = max([len(args)] + [names.index(k) + 1 for k in kw])
                    args, kw = [b[x] for x in names[:n]], {}
            r = self.overrides[fi.qualname](self, st, args, kw)
            if r is not None:
                return r
        depth = sum(1 for fr in self.stack if fr.fi is fi)
        if (fi.qualname in self.opaque and fi is not self.root) or depth >= 1 or \
                len(self.stack) > self.max_depth:
            return self.opaque_fn(st, fi, f, args, kw)
        b = self.bind_args(st, fi, args, kw)
        if b is None:
            return self.opaque_fn(st, fi, f, args, kw)
        self.steps += 1
        fr = Frame(fi, self._fid(), cls=fi.cls)
        fr.closure = closure
        names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
        if self_term is None and names and fi.cls is not None:
            self_term = b.get(names[0])
        fr.self_term = self_term
        before = None
        if fi.is_gen:
            before = st.copy()
            fr.yields = self.newref(st, T.seq(), 'list')
        for n, v in b.items():
            st.vars[(fr.fid, n)] = v
        self.analysed.add(fi)
        self.log('enter', st, fn=fi.qualname, args=b)
        self.stack.append(fr)
        node = self.node
        entry_pc = st.pc
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.expr(fi.node.body, st)
                fr.returns.append((st.copy(), v))
                st.pc = FALSE
            else:
                self.block(fi.node.body, st)
        finally:
            self.stack.pop()
            self.node = node
        if not st.dead:
            fr.returns.append((st.copy(), NONE))
        rs, rv = self.merge_values(fr.returns)
        if rs is None:
            if fi.is_gen and len(self.stack) > 0:
                # endless: only its first elements are used
                st.become(before)
                return self.opaque_fn(st, fi, f, args, kw)
            st.pc = FALSE
            return BOT
        # drop the callee's variables unless closures may need them
        if not getattr(fr, 'has_closures', False):
            rs.vars = {k: v for k, v in rs.vars.items() if k[0] != fr.fid}
        st.become(rs)
        if fi.is_gen:
            self.kinds[fr.yields] = 'gen'
            return fr.yields
        return rv

    def opaque_fn(self, st, fi, f, args, kw):
        b = None
        sig = fi.node.args
        if sig.vararg is None and sig.kwarg is None:
            b = self.bind_args(st, fi, args, kw)
        if b is not None:
            args = [b[x.arg] for x in
                    sig.posonlyargs + sig.args + sig.kwonlyargs]
            kw = {}
        elif sig.vararg is None and '**' not in kw and not any(
                x.op == 'starred' for x in args):
            names = [x.arg for x in sig.posonlyargs + sig.args]
            args, kw = list(args), dict(kw)
            while len(args) < len(names) and names[len(args)] in kw:
                args.append(kw.pop(names[len(args)]))
        a, k = self.argvals(st, args, kw)
        key = ('fn', fi.qualname, a, k)
        n = self.occurrence(st, key)
        r = mk('rcall', fi.qualname, a, k, n, self.ivs())
        self.log('call', st, how='fn', recv=args[0] if args else NONE,
                 name=fi.qualname, args=a, kw=dict(k), rargs=tuple(args),
                 result=r)
        self.havoc(st, fi, list(args) + list(kw.values()), r)
        self.escapes(st, [fi], r)
        return r

    def escapes(self, st, fis, r):
        """Exceptions of the analysed code that an opaque call may let out
        and for which there is a handler."""
        seen = []
        for hs in reversed(self.handlers):
            for h in hs:
                if h in seen or h not in self.w.classes:
                    continue
                seen.append(h)
                if fis is not None and not self.w.may_raise(fis, h):
                    continue
                c = T.cond(mk('raises', h, r))
                a, b = self.branch(st, c)
                if not a.dead:
                    self.sinks[-1].append((a, mk('excv', h)))
                st.become(b)

    # exceptions that operations of python raise under known conditions
    IMPLICIT = {'builtins.IndexError': 'builtins.LookupError',
                'builtins.KeyError': 'builtins.LookupError',
                'builtins.ValueError': None}

    def implicit(self, st, exc, when):
        """An operation of python raises under the condition, and there may be
        a handler for that very exception."""
        for hs in reversed(self.handlers):
            for h in hs:
                if h is None or h in ('builtins.Exception',
                                      'builtins.BaseException'):
                    return False
                if h in (exc, self.IMPLICIT[exc]):
                    self.settled.add((id(hs), h))
                    a, b = self.branch(st, when())
                    if not a.dead:
                        self.sinks[-1].append((a, mk('excv', exc)))
                    st.become(b)
                    return True
        return False

    def out_of_range(self, st, b, i):
        """Condition for b[i] to raise an IndexError."""
        n = T.length(self.val(st, b))
        i = self.val(st, i)
        if T.is_num(i):
            return T.lt(n, T.neg(i)) if T.num(i) < 0 else \
                T.not_(T.lt(i, n))
        return T.or_(T.not_(T.lt(i, n)), T.lt(i, T.neg(n)))

    def havoc(self, st, fi, args, r):
        """Forgets what a call that is not analysed may have modified."""
        attrs, params = self.w.mods(fi)
        reach = set()

        def visit(t, depth=0):
            if not isinstance(t, T.Term) or t in reach:
                return
            for x in T.subterms(t):
                if x.op in ('ref', 'obj', 'sym', 'cls', 'fld') and x not in reach:
                    reach.add(x)
                    if x.op == 'ref' and x in st.cont:
                        visit(st.cont[x])
                    for (o, n), v in list(st.fields.items()):
                        if o is x:
                            visit(v)
        for x in args:
            visit(x)
        hit = set()
        for (o, n), v in list(st.fields.items()):
            if n in attrs and (o in reach or o.op not in ('obj',)):
                st.fields[(o, n)] = self._after(r, n, v)
                for x in T.subterms(v):
                    if x in st.cont:
                        hit.add(x)
        if params:
            hit |= set(x for x in reach if x in st.cont and x.op == 'ref')
        for x in hit:
            st.cont[x] = self._after(r, '', st.cont[x])

    def _after(self, r, n, v):
        t = mk('after', r, n, v)
        return t

    def instantiate(self, st, cls, args, kw):
        o = self.newobj(cls)
        self.log('new', st, obj=o, cls=cls.qualname, args=tuple(args), kw=dict(kw))
        owner = cls.find('__init__')
        if owner is not None:
            fi = owner.fns['__init__']
            f = self.fnterm(fi, self._cls_closure(owner))
            depth = sum(1 for fr in self.stack if fr.fi is fi)
            if fi.qualname in self.opaque or depth >= 2:
                sig = fi.node.args
                if sig.vararg is None and sig.kwarg is None:
                    b = self.bind_args(st, fi, [o] + list(args), kw)
                    if b is not None:
                        args = [b[x.arg] for x in (sig.posonlyargs + sig.args +
                                                   sig.kwonlyargs)[1:]]
                        kw = {}
                elif sig.vararg is None and '**' not in kw and not any(
                        x.op == 'starred' for x in args):
                    names = [x.arg for x in sig.posonlyargs + sig.args][1:]
                    args, kw = list(args), dict(kw)
                    while len(args) < len(names) and names[len(args)] in kw:
                        args.append(kw.pop(names[len(args)]))
                a, k = self.argvals(st, args, kw)
                self.log('call', st, how='fn', recv=o, name=fi.qualname,
                         args=a, kw=dict(k), rargs=tuple(args), result=o)
                st.fields[(o, '<init>')] = mk('args', a, k)
                return o
            self.call_fn(st, f, [o] + list(args), kw, self_term=o, cls=owner)
            if st.dead:
                return BOT
        else:
            a, k = self.argvals(st, args, kw)
            if a or k:
                st.fields[(o, '<init>')] = mk('args', a, k)
        return o

    # ---- methods of builtin containers and opaque receivers

    def call_method(self, st, recv, name, args, kw):
        if name in ('set_xlim', 'set_ylim') and len(args) == 2 and not kw:
            args = [self.newref(st, T.seq(('e', args[0]), ('e', args[1])),
                                'list')]
        boolean = recv.op == 'ite' and all(
            l is TRUE or l is FALSE for l in T.leaves(recv))
        if recv.op == 'ite' and not boolean:
            return self._by_cases(st, recv, lambda s, r: self.call_method(
                s, r, name, args, kw))
        if recv.op not in ('ref', 'const', 'seq', 'strcat', 'dict', 'set'):
            # maybe a typed symbolic object
            t = self.typeof(st, recv)
            if t is not None and t[0].find(name) is not None and \
                    recv.op not in ('bmeth',):
                v = self._getattr(st, recv, name)
                if v.op in ('bm', 'fn', 'cls'):
                    return self.call(st, v, args, kw)
        m = getattr(self, 'm_' + name, None)
        kind = self.kind_of(st, recv)
        if m is not None:
            r = m(st, recv, args, kw, kind)
            if r is not None:
                return r
        if name in PURE_METHODS and (name != 'join' or args):
            a, k = self.argvals(st, args, kw)
            base = self.val(st, recv)
            a, k = np_canon(name, a, k)
            if name in ('lower', 'upper') and base.op == 'mcall' and \
                    base.args[1] == 'replace' and len(base.args[2]) == 2 and \
                    all(T.is_str(x) for x in base.args[2]) and \
                    T.cval(base.args[2][0]).lower() == \
                    T.cval(base.args[2][0]).upper() and not a and not k:
                # what is replaced has no letters
                x, y = base.args[2]
                return mk('mcall', mk('mcall', base.args[0], name, (), ()),
                          'replace', (x, const(getattr(T.cval(y), name)())),
                          base.args[3])
            if name == 'any' and not a and not k:
                other = negated(base, boolean)
                if other is not None:
                    return T.not_(self.truth(st, mk('mcall', other, 'all',
                                                    (), ())))
            if name == 'prod' and not a and not k:
                xs = T.seq_literal(base)
                if xs:
                    r = const(1)
                    for x in xs:
                        r = T.mul(r, x)
                    return r
            if name in ('argmax', 'argmin') and not a and not k and \
                    base.op == 'seq' and len(base.args) == 1 and \
                    base.args[0][0] == 'e':
                base = base.args[0][1]      # of all the items
            kept = dict(k).get('keepdims')
            if kept is FALSE or kept is TRUE and \
                    dict(k).get('axis') is const(-1):
                k = tuple(x for x in k if x[0] != 'keepdims')
            r = not k and stripped(base, name, a) or mk('mcall', base, name, a, k)
            if kept is TRUE and 'keepdims' not in dict(k):
                # the axis that was summed is there, of size one
                r = T.idx(r, T.seq_elems(const(Ellipsis), NONE))
            self.log('pcall', st, recv=recv, name=name, args=a, kw=dict(k), result=r)
            if base.op == 'ite' and not boolean and len(T.leaves(base)) <= 8:
                r = T.ite_map(base, lambda x: mk('mcall', x, name, a, k))
            return r
        return self.opaque_call(st, 'method', self.val(st, recv)
                                if recv.op not in ('obj',) else recv,
                                args, kw, name=name)

    def mutate(self, st, recv, name, args, content):
        one = {'extend': 'append', 'update': 'add'}.get(name)
        if one and len(args) == 1 and not (
                name == 'update' and self.kind_of(st, recv) != 'set'):
            try:
                xs = T.seq_literal(self.as_seq(st, args[0]))
            except Limit:
                xs = None
            if xs:
                # one element after the other
                for x in xs:
                    self.log('mutate', st, base=recv, name=one, args=(x,),
                             val=(self.val(st, x),))
                self.put(st, recv, content)
                return
        self.log('mutate', st, base=recv, name=name, args=tuple(args),
                 val=tuple(self.val(st, a) for a in args))
        self.put(st, recv, content)

    def m_append(self, st, recv, args, kw, kind):
        c = self.content(st, recv)
        self.mutate(st, recv, 'append', args,
                    T.lift(lambda x: T.seq_concat(x, T.seq_elems(args[0])), c)
                    if c.op == 'ite' else T.seq_concat(c, T.seq_elems(args[0])))
        return NONE

    def as_seq(self, st, t):
        """Sequence term for the elements of an iterable value."""
        if t.op == 'ite':
            return T.ite_map(t, lambda x: self.as_seq(st, x))
        c = self.content(st, t)
        if c is not t and c.op == 'ite':
            return T.ite_map(c, lambda x: self.as_seq(st, x)
                             if not T.contains(x, t) else mk('elements', x))
        if c.op == 'seq':
            return c
        if c.op == 'set':
            return mk('elts', c)
        if c.op == 'dict':
            if all(p[0] == 'e' for p in c.args):
                return T.seq_elems(*[p[1] for p in c.args])
            return mk('keys', c)
        if c.op == 'icall' and c.args[0] == 'gen':
            return c
        if c.op == 'const' and T.is_str(c):
            return T.seq_elems(*[const(x) for x in T.cval(c)])
        if c.op in ('fld', 'sym', 'idx') and 'set' in (
                self.kind_of(st, t), self.kind_of(st, c)):
            return mk('elts', c)
        if c.op in ('fld', 'sym', 'idx') and 'dict' in (
                self.kind_of(st, t), self.kind_of(st, c)):
            return mk('keys', c)
        return c

    def m_extend(self, st, recv, args, kw, kind):
        x = self.as_seq(st, args[0])
        c = self.content(st, recv)
        self.mutate(st, recv, 'extend', args, T.seq_concat(c, x))
        return NONE

    def m_insert(self, st, recv, args, kw, kind):
        c = self.content(st, recv)
        if args[0] is ZERO:
            new = T.seq_concat(T.seq_elems(args[1]), c)
        else:
            new = mk('inserted', c, args[0], args[1])
        self.mutate(st, recv, 'insert', args, new)
        return NONE

    def m_add(self, st, recv, args, kw, kind):
        if kind not in ('set', None) or len(args) != 1:
            return None
        c = self.content(st, recv)
        new = T.lift(lambda x: T.setunion(('s', x), ('e', args[0])), c)
        self.mutate(st, recv, 'add', args, new)
        return NONE

    def m_discard(self, st, recv, args, kw, kind):
        c = self.content(st, recv)
        self.mutate(st, recv, 'remove', args,
                    mk('removed', c, self.val(st, args[0])))
        return NONE

    def m_remove(self, st, recv, args, kw, kind):
        if self.handlers:
            for k, e in (('list', 'ValueError'), ('set', 'KeyError')):
                if kind in (k, None):
                    self.implicit(st, 'builtins.' + e, lambda: T.not_(
                        self.contains(st, args[0], recv)))
            if st.dead:
                return BOT
        c = self.content(st, recv)
        self.mutate(st, recv, 'remove', args,
                    mk('removed', c, self.val(st, args[0])))
        return NONE

    def m_clear(self, st, recv, args, kw, kind):
        empty = {'dict': mk('dict'), 'set': mk('set')}.get(kind, T.seq())
        self.mutate(st, recv, 'clear', args, empty)
        return NONE

    def m_pop(self, st, recv, args, kw, kind):
        c = self.content(st, recv)
        lit = T.seq_literal(c)
        if lit is not None and lit and kind in ('list', None) and (
                not args or T.is_int(args[0]) and
                -len(lit) <= T.num(args[0]) < len(lit)):
            i = int(T.num(args[0])) if args else -1
            v = lit[i]
            del lit[i]
            self.mutate(st, recv, 'pop', args, T.seq_elems(*lit))
            return v
        if c.op == 'dict' and args and all(p[0] == 'e' for p in c.args):
            ps = list(c.args)
            for n, p in enumerate(ps):
                if p[1] is args[0]:
                    del ps[n]
                    self.mutate(st, recv, 'pop', args, mk('dict', *ps))
                    return p[2]
            if len(args) == 2 and all(T.definitely_different(p[1], args[0])
                                      for p in ps):
                return args[1]
        a, _ = self.argvals(st, args, {})
        n = self.occurrence(st, ('pop', c, a))
        r = mk('popped', c, a, n, self.ivs())
        self.mutate(st, recv, 'pop', args, mk('removed', c, r))
        return r

    def m_update(self, st, recv, args, kw, kind):
        c = self.content(st, recv)
        if kind is None and args and recv.op in ('icall', 'idx', 'fld') and \
                self.typeof(st, recv) is None and all(
                    self.content(st, a).op == 'dict' for a in args):
            # entries written in the call: those of a dictionary
            kind = 'dict'
        if kind in ('dict',) or kw:
            new = c
            for a in args:
                x = self.content(st, a)
                if x.op == 'dict' and all(p[0] == 'e' for p in x.args):
                    for p in x.args:
                        new = T.upd(new, p[1], p[2])
                else:
                    new = T.merged(new, x)
            for k, v in kw.items():
                new = T.upd(new, const(k), v)
            each = [self.content(st, a) for a in args]
            if all(x.op == 'dict' and all(p[0] == 'e' for p in x.args)
                   for x in each):
                for k, v in [p[1:] for x in each for p in x.args] + [
                        (const(k), v) for k, v in kw.items()]:
                    self.log('setitem', st, base=recv, index=self.val(st, k),
                             value=v, val=self.val(st, v), aug=None, chain=(),
                             kind='dict')
                self.put(st, recv, new)
                return NONE
            self.mutate(st, recv, 'update', args, new)
            return NONE
        if kind == 'set':
            x = self.as_seq(st, args[0])
            none = (mk('set'), T.seq(), mk('elts', mk('set')))
            new = T.lift(lambda p, q: p if q in none else T.setunion(
                ('s', p), ('s', q)), c, x)
            self.mutate(st, recv, 'update', args, new)
            return NONE
        if kind is None and self.typeof(st, recv) is None:
            # unknown receiver: may be any object with an update method
            return None
        return None

    def m_copy(self, st, recv, args, kw, kind):
        if args or kw:
            return None
        if kind is None and recv.op not in ('ref',):
            # unknown object: its class may define what a copy is
            return None
        return self.newref(st, self.content(st, recv), kind)

    def m_setdefault(self, st, recv, args, kw, kind):
        c = self.content(st, recv)
        k = self.val(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        inn = self.contains(st, args[0], recv)
        cur = self.getitem(st, recv, args[0])
        st1 = st.copy()
        st1.pc = T.and_(st.pc, inn)
        st2 = st.copy()
        st2.pc = T.and_(st.pc, T.not_(inn))
        if not st2.dead:
            self.setitem(st2, recv, args[0], d)
        s, v = self.merge_values([(st1, cur), (st2, d)])
        st.become(s)
        return v

    def m_get(self, st, recv, args, kw, kind):
        if kind not in ('dict', None) or not args:
            return None
        if recv.op == 'icall' and recv.args[0] == 'ext' and \
                isinstance(recv.args[2], str) and \
                recv.args[2].split('.')[-1].endswith('Queue'):
            return None
        if kind is None and len(args) == 1 and self.kind_of(st, recv) is None \
                and recv.op not in ('ref', 'dict', 'fld', 'idx', 'sym'):
            return None
        if kind is None and not args:
            return None
        inn = self.under(st, self.contains(st, args[0], recv))
        d = args[1] if len(args) > 1 else NONE
        if inn is TRUE:
            return self.getitem(st, recv, args[0])
        if inn is FALSE:
            return d
        return T.ite(inn, self.getitem(st, recv, args[0]), d)

    def m_index(self, st, recv, args, kw, kind):
        c = self.val(st, recv)
        x = self.val(st, args[0])
        if self.handlers:
            self.implicit(st, 'builtins.ValueError', lambda: T.not_(
                self.contains(st, args[0], recv)))
            if st.dead:
                return BOT
        r = T.lift(lambda cc, xx: self._index_of(cc, xx), c, x)
        self.log('index', st, recv=recv, seq=c, args=(x,), result=r)
        return r

    def _index_of(self, c, x):
        lit = T.seq_literal(c)
        if lit is not None and T.is_const(x) and all(T.is_const(y) for y in lit):
            for i, y in enumerate(lit):
                if y is x:
                    return const(i)
        if c.op == 'seq' and len(c.args) > 1 and c.args[-1] == ('e', x) and \
                c.args[0][0] == 's' and not T.is_const(x):
            first = T.rebuild('seq', c.args[:-1])
            return T.ite(self._contains(first, x), self._index_of(first, x),
                         T.length(first))
        # element k of the sequence, sequence without duplicates is not known
        return mk('indexof', c, x)

    def m_items(self, st, recv, args, kw, kind):
        r = mk('items', self.content(st, recv))
        self.src_of[r] = recv
        return r

    def m_keys(self, st, recv, args, kw, kind):
        return mk('keys', self.content(st, recv))

    def m_values(self, st, recv, args, kw, kind):
        r = mk('values', self.content(st, recv))
        self.src_of[r] = recv
        return r

    def m_sort(self, st, recv, args, kw, kind):
        self.mutate(st, recv, 'sort', args, mk('sorted', self.content(st, recv)))
        return NONE

    def m_reverse(self, st, recv, args, kw, kind):
        self.mutate(st, recv, 'reverse', args,
                    mk('reversed', self.content(st, recv)))
        return NONE

    def _setop(name):
        def f(self, st, recv, args, kw, kind):
            a = [self.val(st, self.set_of(st, x)) for x in [recv] + list(args)]
            if name == 'union':
                r = T.setunion(*[('s', x) for x in a])
            elif len(a) == 2 and name == 'difference':
                r = self.set_difference(st, *a)
            else:
                r = mk(name, *a)
            return self.newref(st, r, 'set')
        return f
    m_union = _setop('union')
    m_intersection = _setop('intersection')
    m_difference = _setop('difference')

    def set_difference(self, st, a, b):
        def items(x):
            return x.op == 'set' and len(x.args) < 3 and all(
                p[0] == 'e' for p in x.args)
        if items(b):
            for _, x in b.args:
                a = mk('removed', a, x)
            return a
        if items(a):
            return T.setunion(*[('s', self.val(st, T.ite(
                self.contains(st, x, b), mk('set'), mk('set', ('e', x)))))
                for _, x in a.args]) if len(a.args) != 1 else T.ite(
                    self.contains(st, a.args[0][1], b), mk('set'), a)
        return mk('difference', a, b)

    def set_of(self, st, t):
        c = self.content(st, t)
        if c.op == 'seq':
            return T.setunion(('s', c))
        if c.op in ('sorted', 'reversed', 'elts'):
            return c.args[0]
        return c

    def m_format(self, st, recv, args, kw, kind):
        if not T.is_str(recv):
            c = self.content(st, recv)
            if not T.is_str(c):
                if kind == 'str' or True:
                    a, k = self.argvals(st, args, kw)
                    return mk('mcall', self.val(st, recv), 'format', a, k)
            recv = c
        return self.format(st, T.cval(recv), args, kw)

    def format(self, st, s, args, kw):
        import string
        auto = [0]

        def fields(s):
            parts = []
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                name = field.split('.')[0].split('[')[0]
                rest = field[len(name):]
                if name == '':
                    x = args[auto[0]]
                    auto[0] += 1
                elif name.isdigit():
                    x = args[int(name)]
                else:
                    x = kw[name]
                x = self.val(st, x)
                if rest:
                    x = mk('fmtfield', rest, x)
                parts.append(self.to_str(self.formatted(
                    x, fields(spec) if '{' in (spec or '') else spec or '',
                    conv or '')))
            return self.strcat(parts)
        try:
            return fields(s)
        except Exception:
            a, k = self.argvals(st, args, kw)
            return mk('mcall', const(s), 'format', a, k)

    def formatted(self, x, spec, conv):
        if isinstance(spec, T.Term) and spec.op == 'const' and T.is_str(spec):
            spec = T.cval(spec)
        if spec == '' and conv in ('', 's'):
            return x
        if isinstance(spec, str) and spec[:1] == '>' and spec[-1:] == 'd' and \
                spec[1:-1].isdigit():
            spec = spec[1:]  # numbers are aligned to the right
        if isinstance(spec, str) and spec[:2] == '0.':
            spec = spec[1:]  # no width
        return mk('fmt', spec, conv, x)

    def strcat(self, parts):
        r = const('')
        for p in parts:
            r = T.lift(lambda a, b: T.strcat(a, b), r, p)
        return r

    def to_str(self, x):
        def f(y):
            if T.is_str(y) or y.op == 'strcat':
                return y
            if T.is_int(y) and y.args[0] == 'n':
                return const(str(int(T.num(y))))
            return y
        return T.ite_map(x, f)

    def m_join(self, st, recv, args, kw, kind):
        if not T.is_str(recv):
            return None
        c = self.val(st, self.as_seq(st, args[0]))
        lit = T.seq_literal(c)
        if lit is not None and len(lit) <= 12:
            parts = []
            for i, x in enumerate(lit):
                if i:
                    parts.append(recv)
                parts.append(x)
            return self.strcat(parts)
        return T.join(recv, c)

    def m___contains__(self, st, recv, args, kw, kind):
        return self.contains(st, args[0], recv)

    # ---- external functions

    def call_ext(self, st, name, args, kw):
        if name in ('numpy.sqrt', 'math.sqrt') and len(args) == 1 and not kw:
            x = self.val(st, args[0])
            if x.op == 'mcall' and x.args[1] == 'var':
                return mk('mcall', x.args[0], 'std', *x.args[2:])
        if name in ('numpy.round', 'numpy.round_', 'numpy.around'):
            name = 'numpy.around'
            if len(args) == 2 and not kw:
                args, kw = args[:1], {'decimals': args[1]}
        if name in ('numpy.alltrue', 'numpy.sometrue'):
            name = {'a': 'numpy.all', 's': 'numpy.any'}[name[6]]
        short = name[9:] if name.startswith('builtins.') else None
        if name == 'sys.stdout.write' and len(args) == 1 and not kw and \
                args[0].op != 'starred':
            return self.on_output(st, self.strcat([self.val(st, args[0])]))
        if short is not None:
            m = getattr(self, 'b_' + short, None)
            if m is not None:
                r = m(st, args, kw)
                if r is not None:
                    return r
        if name.startswith('numpy.') and (
                name.endswith('.at') or name[6:] in NP_INPLACE):
            self.unsupported.append(name)
        if name.startswith('numpy.'):
            out = [v for k, v in kw.items() if k == 'out'] \
                if isinstance(kw, dict) else [v for k, v in kw if k == 'out']
            if out and out[0] is not NONE:
                return self.np_into(st, name, args, kw, out[0])
            m = getattr(self, 'np_' + name[6:].replace('.', '_'), None)
            if m is not None:
                r = m(st, args, kw)
                if r is not None:
                    return r
            m = NP_FUNCTIONS.get(name[6:])
            if m is not None and args:
                return self.call_method(
                    st, masked(args[0]) if m == 'nonzero' else args[0], m,
                    list(args[1:]), kw)
            if name == 'numpy.where' and len(args) == 1:
                return self.call_method(st, masked(args[0]), 'nonzero', [], kw)
        if name in ('itertools.chain.from_iterable', 'itertools.chain'):
            return self.x_chain(st, name, args, kw)
        if name == 'numpy.random.randint' and not kw and (
                len(args) == 1 or len(args) == 2 and args[0] is ZERO):
            # a number below the argument at random
            name, args = 'numpy.random.choice', args[-1:]
        if name == 'builtins.dict.fromkeys' and args and not kw:
            v = args[1] if len(args) > 1 else NONE
            return self.newref(st, self.dict_of_pairs(T.ite_map(
                self.iter_to_seq(st, args[0]),
                lambda x: self._paired(x, v))), 'dict')
        if name == 'itertools.permutations' and len(args) + len(kw) == 2:
            r = args[1] if len(args) == 2 else dict(kw).get('r')
            n = None if r is None or r is NONE else \
                self.val(st, self.b_len(st, [args[0]], {}) or NONE)
            if r is NONE or r is not None and self.val(st, r) is n:
                args, kw = args[:1], type(kw)()
        if name == 'copy.copy' and len(args) == 1:
            return self.shallow_copy(st, args[0])
        if name in ('json.dump', 'json.dumps'):
            # (how the text is laid out makes no difference to its readers)
            kw = {k: v for k, v in kw.items() if k not in (
                'indent', 'separators', 'ensure_ascii')}
        if name.startswith('builtins.') and (short.endswith('Error') or
                                             short in ('Exception',
                                                       'KeyboardInterrupt')):
            a, k = self.argvals(st, args, kw)
            return mk('exc', name, a)
        if short is not None and short in ('dir', 'vars', 'globals', 'locals'):
            return self.opaque_call(st, 'ext', mk('ext', name), args, kw, name=name)
        impure = (name.startswith(IMPURE_EXT) and not name.startswith(PURE_PREFIX)
                  or name.startswith('super.') or name.startswith('unknown.'))
        if name.startswith('numpy.') and not name.startswith('numpy.random.'):
            impure = False
        elif not name.startswith(('builtins.', 'numpy.', 'math.', 'os.path.',
                                  'itertools.', 'datetime.', 'numbers.',
                                  'json.dumps', 'json.loads')):
            impure = True
        if impure:
            r = self.opaque_call(st, 'ext', mk('ext', name), args, kw, name=name)
            if name in ('numpy.random.random', 'numpy.random.rand') and args:
                self.term_kind[r] = 'array'
            return r
        a, k = self.argvals(st, args, kw)
        r = self.lift_args(mk('call', name, a, k))
        self.log('pcall', st, recv=mk('ext', name), name=name, args=a, kw=dict(k), result=r)
        return r

    def shallow_copy(self, st, x):
        if x.op == 'ref':
            return self.newref(st, self.content(st, x), self.kinds.get(x))
        t = self.typeof(st, x)
        if t is not None and t[1]:
            o = self.newobj(t[0])
            for (b, a), v in list(st.fields.items()):
                if b is x:
                    st.fields[(o, a)] = v
            if x.op not in ('obj',):
                st.fields[(o, '<copyof>')] = x
                for a in t[0].assigned_fields():
                    if (o, a) not in st.fields:
                        if t[0].find(a) is not None and \
                                a not in self._plain_fields(t[0]):
                            continue
                        st.fields[(o, a)] = st.fields.get(
                            (x, a), mk('fld', x, a))
            return o
        a, k = self.argvals(st, [x], {})
        return mk('call', 'copy', a, ())

    def _plain_fields(self, cls):
        out = set()
        for c in cls.mro:
            if isinstance(c, ClassInfo):
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store):
                        owner = cls.find(n.attr)
                        if owner is None or n.attr not in owner.fns:
                            out.add(n.attr)
        return out

    def b_len(self, st, args, kw):
        def f(x):
            if x.op in ('obj', 'new') or self.typeof(st, x) is not None:
                t = self.typeof(st, x)
                if t is not None and t[0].find('__len__') is not None:
                    return self.call(st, self.getattr(st, x, '__len__'), [], {})
            c = self.val(st, x)
            if c.op == 'set' and all(p[0] == 'e' for p in c.args) and (
                    len(c.args) <= 1):
                return const(len(c.args))
            if c.op == 'keys' or c.op == 'items' or c.op == 'values':
                c = c.args[0]
            return T.length(c)
        return T.ite_map(args[0], f)

    def b_range(self, st, args, kw):
        a = [self.val(st, x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        if all(T.is_int(x) for x in a) and T.num(a[2]) != 0:
            r = range(int(T.num(a[0])), int(T.num(a[1])), int(T.num(a[2])))
            if len(r) <= 64:
                return T.seq_elems(*[const(i) for i in r])
        iv = T.fresh_iv()
        if a[2] is ONE:
            return T.seq_map(T.sub(a[1], a[0]), iv,
                             T.seq_elems(T.add(a[0], iv)))
        n = T.sub(a[0], a[1]) if a[2] is const(-1) else \
            mk('ceildiv', T.sub(a[1], a[0]), a[2])
        return T.seq_map(n, iv, T.seq_elems(T.add(a[0], T.mul(a[2], iv))))

    def b_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return mk('enum', args[0], start)

    def b_zip(self, st, args, kw):
        if any(a.op == 'starred' for a in args):
            if len(args) == 1:
                return self.unzip(st, args[0].args[0])
            return None
        lits = [T.seq_literal(self.as_seq(st, a)) for a in args]
        if all(l is not None for l in lits):
            return T.seq_elems(*[T.seq_elems(*xs) for xs in zip(*lits)])
        return mk('zip', tuple(args))

    def unzip(self, st, t):
        """zip(*seq of pairs) -> (firsts, seconds) when widths are known."""
        return T.ite_map(self.val(st, self.as_seq(st, t)), self._unzip)

    def _unzip(self, c):
        if c.op == 'seq' and len(c.args) == 1 and c.args[0][0] == 'm':
            _, dom, b = c.args[0]
            body = b.args[1]
            if body.op == 'seq' and len(body.args) == 1 and body.args[0][0] == 'e':
                iv = T.fresh_iv()
                e = T.open_bind(b, iv).args[0][1]
                lit = T.seq_literal(e)
                if lit is not None:
                    return T.seq_elems(*[
                        T.seq_map(dom, iv, T.seq_elems(x)) for x in lit])
                # pairs of unknown width: component k is [e[k] for ...]
                return mk('unzip', dom, T.close_bind(iv, e))
        return mk('unzipv', c)

    def b_list(self, st, args, kw):
        if not args:
            return self.newref(st, T.seq(), 'list')
        return self.newref(st, self.iter_to_seq(st, args[0]), 'list')

    def b_tuple(self, st, args, kw):
        if not args:
            return T.seq()
        return self.iter_to_seq(st, args[0])

    def iter_to_seq(self, st, t):
        """Content of list(t)."""
        c = self.as_seq(st, t)
        if c.op in ('enum', 'zip', 'items', 'values', 'filter'):
            # materialise through the loop machinery
            out = self.newref(st, T.seq(), 'list')
            self.loop_over(st, t, lambda s, e: self.m_append(
                s, out, [e], {}, 'list'), None)
            return self.content(st, out)
        return c

    def b_set(self, st, args, kw):
        if not args:
            return self.newref(st, mk('set'), 'set')
        c = self.iter_to_seq(st, args[0])
        x = self.content(st, args[0])
        if x.op == 'set':
            return self.newref(st, x, 'set')

        def f(y):
            if y.op == 'elts':
                return y.args[0]
            if y.op == 'seq':
                return T.setunion(('s', y))
            return T.setunion(('s', y))
        return self.newref(st, T.ite_map(c, f), 'set')

    def b_frozenset(self, st, args, kw):
        return self.b_set(st, args, kw)

    def b_dict(self, st, args, kw):
        if not args:
            parts = [('e', const(k), v) for k, v in kw.items()]
            return self.newref(st, T.dictionary(*parts), 'dict')
        c = self.content(st, args[0])
        if c.op == 'dict':
            new = c
        elif c.op in ('sym', 'fld', 'idx'):
            new = T.merged(mk('dict'), c)
        else:
            new = self.dict_of_pairs(self.iter_to_seq(st, args[0]))
        for k, v in kw.items():
            if k == '**':
                x = self.content(st, v)
                if x.op == 'dict' and all(p[0] == 'e' for p in x.args):
                    for p in x.args:
                        new = T.upd(new, p[1], p[2])
                else:
                    new = T.merged(new, x)
            else:
                new = T.upd(new, const(k), v)
        return self.newref(st, new, 'dict')

    def _paired(self, s, v):
        if s.op == 'seq' and all(p[0] == 'e' for p in s.args):
            return T.seq(*[('e', T.seq_elems(p[1], v)) for p in s.args])
        iv = T.fresh_iv()
        return T.seq_map(T.length(s), iv, T.seq_elems(T.idx(s, iv), v))

    def dict_of_pairs(self, s):
        parts = []
        if s.op == 'seq':
            for p in s.args:
                if p[0] == 'e':
                    lit = T.seq_literal(p[1])
                    if lit is None or len(lit) != 2:
                        return mk('dictof', s)
                    parts.append(('e', lit[0], lit[1]))
                elif p[0] == 'm':
                    parts.append(p)
                else:
                    return mk('dictof', s)
            return T.dictionary(*parts)
        return mk('dictof', s)

    def b_sorted(self, st, args, kw):
        c = self.as_seq(st, args[0])
        if kw or len(args) > 1:
            a, k = self.argvals(st, args, kw)
            return self.newref(st, mk('sorted', self.val(st, c), k), 'list')
        return self.newref(st, mk('sorted', self.val(st, c)), 'list')

    def b_reversed(self, st, args, kw):
        c = self.val(st, self.as_seq(st, args[0]))
        lit = T.seq_literal(c)
        if lit is not None:
            return T.seq_elems(*lit[::-1])
        return mk('reversed', c)

    def b_sum(self, st, args, kw):
        c = self.val(st, self.iter_to_seq(st, args[0]))
        start = self.val(st, args[1]) if len(args) > 1 else ZERO
        if start.op == 'seq':
            # concatenation of lists
            return self.newref(st, self._flatten(c, start), 'list')
        return T.ite_map(c, lambda x: self._sum(x, start))

    def _flatten(self, c, start=None):
        r = start if start is not None else T.seq()
        if c.op != 'seq':
            return T.seq_concat(r, mk('flat', c))
        parts = []
        for p in c.args:
            if p[0] == 'e':
                r2 = p[1]
                parts.append(('s', r2) if r2.op != 'ite' else ('s', r2))
            elif p[0] == 's':
                parts.append(('s', mk('flat', p[1])))
            else:
                iv = T.fresh_iv()
                body = T.open_bind(p[2], iv)
                parts.append(('m', p[1], T.close_bind(iv, self._flatten(body))))
        return T.seq_concat(r, T.rebuild('seq', tuple(parts)))

    def _sum(self, c, start):
        if c.op != 'seq':
            return T.add(start, mk('sumof', c))
        r = start
        for p in c.args:
            if p[0] == 'e':
                r = T.add(r, p[1])
            elif p[0] == 's':
                r = T.add(r, mk('sumof', p[1]))
            else:
                iv = T.fresh_iv()
                body = T.open_bind(p[2], iv)
                s = T.ite_map(body, lambda b: self._sum(b, ZERO))
                r = T.add(r, T.sum_over(p[1], iv, s))
        return r

    def b_any(self, st, args, kw):
        c = self.val(st, self.iter_to_seq(st, args[0]))
        return T.ite_map(c, lambda x: self._any(st, x, False))

    def b_all(self, st, args, kw):
        c = self.val(st, self.iter_to_seq(st, args[0]))
        return T.ite_map(c, lambda x: T.not_(self._any(st, x, True)))

    def _any(self, st, c, negate):
        def tr(x):
            t = self.truth(st, x)
            return T.not_(t) if negate else t
        if c.op != 'seq':
            return T.cond(mk('anyof', c, negate))
        r = FALSE
        for p in c.args:
            if p[0] == 'e':
                r = T.or_(r, tr(p[1]))
            elif p[0] == 's':
                r = T.or_(r, T.cond(mk('anyof', p[1], negate)))
            else:
                iv = T.fresh_iv()
                body = T.open_bind(p[2], iv)
                s = T.ite_map(body, lambda b: self._any(st, b, negate))
                r = T.or_(r, T.exists(p[1], iv, s))
        return r

    def b_isinstance(self, st, args, kw):
        return self._by_cases(st, args[0], lambda s, x: self._isinstance(
            s, x, args[1]))

    def _isinstance(self, st, x, c):
        cl = T.seq_literal(self.content(st, c)) if c.op in ('seq', 'ref') else None
        if cl is not None:
            return T.or_(*[self._isinstance(st, x, y) for y in cl])
        if c.op == 'ite':
            return T.ite_map(c, lambda y: self._isinstance(st, x, y))
        name = c.args[0] if c.op in ('cls', 'ext') else None
        if name is None:
            return T.cond(mk('isinstance', x, T.show(c)))
        t = self.typeof(st, x)
        if t is not None:
            cls, exact = t
            target = self.w.classes.get(name)
            if target is not None:
                if target in cls.mro:
                    return TRUE
                if exact or target not in self.w.classes.values():
                    return FALSE
                if cls not in target.mro and self._class_relation(
                        cls.qualname, name) == 'disjoint':
                    return FALSE
            elif exact and name not in cls.external_bases():
                return FALSE
        k = self.kind_of(st, x)
        if k in TYPE_OF_KIND:
            if name == TYPE_OF_KIND[k]:
                return TRUE
            if name in TYPE_OF_KIND.values() or name in self.w.classes:
                return FALSE
        if x.op == 'const':
            v = T.cval(x)
            if name in self.w.classes:
                return FALSE
            if name == 'builtins.str':
                return TRUE if isinstance(v, str) else FALSE
            if v is None:
                return FALSE
            if name in ('builtins.int', 'numbers.Integral'):
                return TRUE if T.is_int(x) else FALSE
        return T.cond(mk('isinstance', x, name))

    def b_issubclass(self, st, args, kw):
        return None

    def b_type(self, st, args, kw):
        if len(args) != 1:
            return None

        def f(x):
            t = self.typeof(st, x)
            if t is not None and t[1]:
                return mk('cls', t[0].qualname)
            return mk('type', x)
        return T.ite_map(args[0], f)

    def b_super(self, st, args, kw):
        if len(args) == 2 and args[0].op == 'cls':
            return mk('super', args[0].args[0], args[1])
        if not args:
            for fr in reversed(self.stack):
                if fr.fi is not None and fr.fi.cls is not None:
                    a = fr.fi.node.args
                    names = [x.arg for x in a.posonlyargs + a.args]
                    if names and (fr.fid, names[0]) in st.vars:
                        return mk('super', fr.fi.cls.qualname,
                                  st.vars[(fr.fid, names[0])])
        return None

    def b_getattr(self, st, args, kw):
        if len(args) >= 2 and T.is_str(args[1]):
            return self.getattr(st, args[0], T.cval(args[1]))
        return None

    def b_setattr(self, st, args, kw):
        if len(args) == 3 and T.is_str(args[1]):
            self.setattr(st, args[0], T.cval(args[1]), args[2])
            return NONE
        return None

    def b_int(self, st, args, kw):
        if len(args) != 1:
            return None

        def f(x):
            if T.is_num(x):
                import math
                return const(int(T.num(x)))
            if x.op in ('len',):
                return x
            if x.op == 'mod' or x.op == 'floordiv':
                return x
            if x in self.inexact:
                x = mk('rounded', x)
            return mk('call', 'builtins.int', (x,), ())
        return T.ite_map(self.val(st, args[0]), f)

    def b_float(self, st, args, kw):
        if len(args) != 1:
            return None

        def f(x):
            if T.is_num(x):
                return const(T.num(x))
            if T.is_str(x) or getattr(self, 'exact_float', False):
                return mk('call', 'builtins.float', (x,), ())
            return x
        return T.ite_map(self.val(st, args[0]), f)

    def b_slice(self, st, args, kw):
        if kw or not 1 <= len(args) <= 3:
            return None
        a = [self.val(st, x) for x in args]
        a = [T.NONE] + a if len(a) == 1 else a
        return mk('slc', *(a + [T.NONE] * (3 - len(a))))

    def b_bool(self, st, args, kw):
        return self.truth(st, args[0]) if args else FALSE

    def b_str(self, st, args, kw):
        if len(args) != 1:
            return None
        return self.to_str(T.ite_map(self.val(st, args[0]),
                                     lambda x: x if T.is_str(x) or T.is_int(x)
                                     or x.op == 'strcat'
                                     else mk('call', 'builtins.str', (x,), ())))

    def b_format(self, st, args, kw):
        if kw or not 1 <= len(args) <= 2:
            return None
        return self.strcat([self.to_str(self.formatted(
            self.val(st, args[0]),
            self.val(st, args[1]) if len(args) > 1 else '', ''))])

    def b_print(self, st, args, kw):
        if set(kw) <= {'end'} and len(args) < 2 and \
                not any(x.op == 'starred' for x in args):
            # as text that is written on the standard output
            end = kw.get('end', const('\n'))
            return self.on_output(st, self.strcat(
                [self.b_str(st, args, {})] * len(args) +
                [const('\n') if end is NONE else self.val(st, end)]))
        return self.print_call(st, args, kw)

    def on_output(self, st, text):
        return self.print_call(st, [text], {'end': const('')})

    def print_call(self, st, args, kw):
        self.log('call', st, how='ext', recv=mk('ext', 'builtins.print'),
                 name='builtins.print', kw=dict(kw), rargs=tuple(args),
                 args=tuple(self.val(st, x) for x in args), result=NONE)
        return NONE

    def b_filter(self, st, args, kw):
        out = self.newref(st, T.seq(), 'list')

        def body(s, e):
            t = self.truth(s, e) if args[0] is NONE else \
                self.truth(s, self.call(s, args[0], [e], {}))
            t = self.under(s, t)
            s1 = s.copy()
            s1.pc = T.and_(s.pc, t)
            s2 = s.copy()
            s2.pc = T.and_(s.pc, T.not_(t))
            if not s1.dead:
                self.m_append(s1, out, [e], {}, 'list')
            s.become(self.merge([s1, s2]))
        self.quiet += 1
        try:
            self.loop_over(st, args[1], body, None)
        finally:
            self.quiet -= 1
        return out

    def b_map(self, st, args, kw):
        if len(args) != 2:
            return None
        out = self.newref(st, T.seq(), 'list')

        def body(s, e):
            self.m_append(s, out, [self.call(s, args[0], [e], {})], {}, 'list')
        self.loop_over(st, args[1], body, None)
        return out

    def b_iter(self, st, args, kw):
        return args[0] if len(args) == 1 else None

    def b_abs(self, st, args, kw):
        x = self.val(st, args[0])
        if T.is_num(x):
            return const(abs(T.num(x)))
        return None

    def b_min(self, st, args, kw):
        return self._minmax(st, 'min', args, kw)

    def b_max(self, st, args, kw):
        return self._minmax(st, 'max', args, kw)

    def _minmax(self, st, name, args, kw):
        if 'key' in kw:
            a, _ = self.argvals(st, args, {})
            key = self.eta(st, kw['key'])
            return mk('call', 'builtins.%s' % name, a, (('key', key),))
        if len(args) == 1:
            c = self.val(st, self.as_seq(st, args[0]))
            lit = T.seq_literal(c)
        else:
            lit = [self.val(st, a) for a in args]
        if lit is not None and lit and all(T.is_num(x) for x in lit):
            return const((min if name == 'min' else max)(
                [T.num(x) for x in lit]))
        if lit is not None:
            return mk('call', 'builtins.%s' % name,
                      tuple(sorted(set(lit), key=lambda t: t.id)), ())
        return mk('call', 'builtins.%s' % name, (c,), ())

    def eta(self, st, f):
        """Canonical form of a one-argument function value."""
        iv = T.fresh_iv()
        self.quiet += 1
        try:
            s = st.copy()
            r = self.val(s, self.call(s, f, [iv], {}))
        finally:
            self.quiet -= 1
        return mk('lam', T.close_bind(iv, r))

    def b_next(self, st, args, kw):
        return None

    def x_chain(self, st, name, args, kw):
        if name.endswith('from_iterable'):
            c = self.val(st, self.iter_to_seq(st, args[0]))
            return T.ite_map(c, self._flatten)
        parts = []
        for a in args:
            if a.op == 'starred':
                c = self.val(st, self.iter_to_seq(st, a.args[0]))
                parts.append(('s', self._flatten(c)))
            else:
                parts.append(('s', self.val(st, self.as_seq(st, a))))
        return T.rebuild('seq', tuple(parts))

    # ---- numpy

    def np_expand_dims(self, st, args, kw):
        axis = args[1] if len(args) == 2 and not kw else kw.get('axis')
        if axis is const(-1) and len(args) in (1, 2):
            return self.getitem(st, args[0],
                                T.seq_elems(const(Ellipsis), NONE))
        return None

    def np_into(self, st, name, args, kw, out):
        """Operation that stores its result in an array."""
        kw = {k: v for k, v in (kw.items() if isinstance(kw, dict) else kw)
              if k != 'out'}
        r = self.call_ext(st, name, args, kw)
        if out.op in ('ref', 'sym', 'fld', 'global'):
            new = self.val(st, r)
            self.log('mutate', st, base=out, name='out', value=new)
            st.cont[out] = new
        else:
            self.log('mutate', st, base=out, name='out', value=r)
            self.unsupported.append('operation that stores its result')
        return out

    def np_asarray(self, st, args, kw):
        if len(args) == 1 and not kw:
            return args[0]
        return None

    def np_array(self, st, args, kw):
        if len(args) == 1 and not kw:
            return self.newref(st, self.content(st, args[0]), 'array')
        return None

    def _np_alloc(name):
        def f(self, st, args, kw):
            a = [self.val(st, x) for x in args]
            if a and a[0].op == 'seq':
                lit = T.seq_literal(a[0])
                if lit is not None and len(lit) == 1:
                    a[0] = lit[0]
            r = mk(name, a[0] if a else NONE)
            return self.newref(st, r, 'array')
        return f
    np_zeros = _np_alloc('zeros')
    np_ones = _np_alloc('ones')
    np_empty = _np_alloc('empty')

    # ------------------------------------------------------------ statements

    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        self.node = s
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported.append(type(s).__name__)
            return
        m(s, st)

    def s_Expr(self, s, st):
        self.expr(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        pass

    def s_Nonlocal(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                r = self.w.modules.get(a.name, a.name)
                self.assign_name(st, a.asname, self.entity(r))
            else:
                n = a.name.split('.')[0]
                self.assign_name(st, n, self.entity(self.w.modules.get(n, n)))

    def s_ImportFrom(self, s, st):
        m = self.stack[-1].fi.module
        mod = self.w.resolve_module(m, s)
        for a in s.names:
            if mod in self.w.modules:
                t = self.global_name(self.w.modules[mod], a.name, st)
            else:
                t = mk('ext', '%s.%s' % (mod, a.name))
            self.assign_name(st, a.asname or a.name, t)

    def s_FunctionDef(self, s, st):
        fi = self.w.node_fn.get(s)
        fr = self.stack[-1]
        if fi is None:
            return
        fr.has_closures = True
        t = self.fnterm(fi, (fr.fid,) + fr.closure)
        self.assign_name(st, s.name, t)

    def s_ClassDef(self, s, st):
        ci = self.w.node_cls.get(s)
        if ci is not None:
            fr = self.stack[-1]
            fr.has_closures = True
            ci.closure = (fr.fid,) + fr.closure
            self.assign_name(st, s.name, mk('cls', ci.qualname))

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            if st.dead:
                return
            self.node = s
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st)

    def assign_name(self, st, name, v):
        fr = self.stack[-1]
        if fr.fi is not None and name in fr.fi.nonlocals:
            for fid in fr.closure:
                if (fid, name) in st.vars:
                    st.vars[(fid, name)] = v
                    return
        st.vars[(fr.fid, name)] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.assign_name(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, st)
            self.setattr(st, base, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base, chain = self.sub_base(t.value, st)
            i = self.expr(t.slice, st)
            self.setitem(st, base, i, v, chain=chain)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    hi = NONE if i == n - 1 else const(i - n + 1)
                    self.assign(e.value, self.newref(
                        st, T.slice_(self.as_seq(st, v), const(i), hi), 'list'), st)
                else:
                    k = const(i) if not star or i < star[0] else const(i - n)
                    self.assign(e, self.component(st, v, k), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def component(self, st, v, k):
        """k-th element of an unpacked value."""
        if v.op == 'ite':
            return self._by_cases(st, v, lambda s, x: self.component(s, x, k))
        c = self.content(st, v)
        if c.op == 'unzip':
            dom, b = c.args
            iv = T.fresh_iv()
            e = T.open_bind(b, iv)
            return T.seq_map(dom, iv, T.seq_elems(T.idx(e, k)))
        if c.op == 'elts' and T.is_int(k):
            return mk('idx', c, k)
        return self.getitem(st, v, k)

    def sub_base(self, node, st):
        """Evaluates the base of a subscript store; a base that is itself a
        subscript of an array is reported as (root array, chain of indices)."""
        chain = []
        n = node
        inner = []
        while isinstance(n, ast.Subscript):
            inner.append(n)
            n = n.value
        if inner:
            root = self.expr(n, st)
            k = self.kind_of(st, root)
            if k == 'array':
                for x in reversed(inner):
                    chain.append(self.val(st, self.expr(x.slice, st)))
                return root, tuple(chain)
        return self.expr(node, st), ()

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id)
            v = self.expr(s.value, st)
            if st.dead:
                return
            k = self.kind_of(st, old)
            if isinstance(s.op, ast.Add) and (
                    k == 'list' and old.op == 'ref' or
                    # an element of another list, as large as it is known
                    k == 'tuple' and old.op == 'seq' and
                    self.origins.get(old) and
                    self.kind_of(st, v) == 'list'):
                self.m_extend(st, old, [v], {}, 'list')
                return
            if k == 'set' and isinstance(s.op, ast.BitOr):
                self.m_update(st, old, [v], {}, 'set')
                return
            if k == 'array':
                new = self.binop(s.op, self.content(st, old), v, st)
                self.log('augarray', st, base=old, value=new, operand=v)
                st.cont[old] = self.val(st, new)
                return
            if k is None and old.op in ('fld', 'idx', 'elt') and \
                    not self._number(st, old):
                # updates the object itself when it is an array or a list
                self.unsupported.append('update in place of a shared value')
            self.log('aug', st, base=old, operand=v)
            self.assign_name(st, t.id, self.binop(s.op, old, v, st))
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, st)
            old = self.getattr(st, base, t.attr)
            v = self.expr(s.value, st)
            k = self.kind_of(st, old)
            if isinstance(s.op, ast.Add) and k == 'list' and old.op == 'ref':
                self.m_extend(st, old, [v], {}, 'list')
                return
            if k == 'set' and isinstance(s.op, ast.BitOr):
                self.m_update(st, old, [v], {}, 'set')
                return
            if k == 'array':
                new = self.binop(s.op, self.content(st, old), v, st)
                self.log('augarray', st, base=old, value=new, operand=v)
                st.cont[old] = self.val(st, new)
                return
            self.node = s
            self.log('aug', st, base=old, operand=v)
            self.setattr(st, base, t.attr, self.binop(s.op, old, v, st))
        elif isinstance(t, ast.Subscript):
            base, chain = self.sub_base(t.value, st)
            i = self.expr(t.slice, st)
            old = self.getitem(st, base, i)
            v = self.expr(s.value, st)
            self.node = s
            new = self.binop(s.op, old, v, st)
            self.setitem(st, base, i, new, aug=(type(s.op).__name__,
                                                self.val(st, v)), chain=chain)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.expr(t.value, st)
                i = self.val(st, self.expr(t.slice, st))
                c = self.content(st, base)
                self.log('mutate', st, base=base, name='del', args=(i,), val=(i,))
                self.put(st, base, mk('deleted', c, i))
            elif isinstance(t, ast.Name):
                st.vars.pop((self.stack[-1].fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                base = self.expr(t.value, st)
                self.log('write', st, base=base, attr=t.attr, value=UNDEF, val=UNDEF)

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.expr(s.value, st)
        if st.dead:
            return
        self.log('return', st, value=v)
        self.stack[-1].returns.append((st.copy(), v))
        st.pc = FALSE

    def s_Raise(self, s, st):
        if s.exc is None:
            exc = getattr(self, 'current_exc', None) or mk('sym', 'reraise')
        else:
            exc = self.expr(s.exc, st)
        if st.dead:
            return
        self.node = s
        self.log('raise', st, exc=exc, name=self.exc_name(exc),
                 caught=self.is_caught(exc))
        self.sinks[-1].append((st.copy(), exc))
        st.pc = FALSE

    def exc_name(self, e):
        if e.op == 'obj' or e.op == 'cls':
            return e.args[1] if e.op == 'obj' else e.args[0]
        if e.op in ('exc', 'ext'):
            return e.args[0]
        if e.op == 'excv':
            return e.args[0]
        return None

    def is_caught(self, exc):
        n = self.exc_name(exc)
        for hs in reversed(self.handlers):
            for h in hs:
                if self.exc_match(n, h) is not False:
                    return h
        return None

    def exc_match(self, name, handler):
        """Whether exceptions of class name are caught by the handler."""
        if handler is None or handler in ('builtins.Exception',
                                          'builtins.BaseException'):
            return True
        if name is None:
            return None
        if name == handler:
            return True
        c = self.w.classes.get(name)
        names = [name]
        if c is not None:
            names = [x.qualname if isinstance(x, ClassInfo) else x for x in c.mro]
        if handler in names:
            return True
        import builtins

        def py(n):
            if n.startswith('builtins.'):
                return getattr(builtins, n[9:], None)
        h = py(handler)
        for n in names:
            e = py(n)
            if h is not None and e is not None and isinstance(e, type) and \
                    issubclass(e, h):
                return True
        return False

    def s_Assert(self, s, st):
        c = self.truth(st, self.expr(s.test, st))
        c = self.under(st, c)
        f = st.copy()
        f.pc = T.and_(st.pc, T.not_(c))
        if not f.dead:
            self.log('raise', f, exc=mk('exc', 'builtins.AssertionError', ()),
                     name='builtins.AssertionError', caught=None, asserted=c)
            self.sinks[-1].append((f, mk('exc', 'builtins.AssertionError', ())))
        st.pc = T.and_(st.pc, c)

    def branch(self, st, test):
        c = self.under(st, test)
        a, b = st.copy(), st.copy()
        a.pc = T.and_(st.pc, c)
        b.pc = T.and_(st.pc, T.not_(c))
        return a, b

    def s_If(self, s, st):
        c = self.truth(st, self.expr(s.test, st))
        if st.dead:
            return
        a, b = self.branch(st, c)
        if not a.dead:
            self.refine(a)
            self.block(s.body, a)
        if not b.dead:
            self.refine(b)
            self.block(s.orelse, b)
        st.become(self.merge([a, b]))

    def refine(self, st):
        """Simplifies the variables of the current frame under the path."""
        fid = self.stack[-1].fid
        for k, v in list(st.vars.items()):
            if v.op == 'ite' and k[0] == fid:
                st.vars[k] = T.constrain(v, st.pc)

    def s_With(self, s, st):
        n = 0
        hidden = []
        for item in s.items:
            ctx = self.expr(item.context_expr, st)
            self.node = s
            self.log('enter_with', st, ctx=ctx, val=self.val(st, ctx))
            v = ctx
            t = self.typeof(st, ctx)
            if t is not None and t[0].find('__enter__') is not None:
                v = self.call(st, self.getattr(st, ctx, '__enter__'), [], {})
            else:
                v = mk('entered', self.val(st, ctx))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
            self.withs.append(self.val(st, ctx))
            hidden.append(ctx)
            n += 1
        try:
            self.block(s.body, st)
        finally:
            del self.withs[len(self.withs) - n:]
        self.node = s
        for ctx in reversed(hidden):
            self.log('exit_with', st, ctx=ctx)

    def s_Try(self, s, st):
        names = []
        for h in s.handlers:
            names.append(self.handler_names(h, st))
        before = st.copy()
        ev0 = self.seq
        flat = [x for ns in names for x in ns]
        fr = self.stack[-1]
        nret = len(fr.returns)
        body_sink = []
        self.sinks.append(body_sink)
        self.handlers.append(flat)
        calls0 = self.ncalls = getattr(self, 'ncalls', 0)
        try:
            self.block(s.body, st)
        finally:
            self.sinks.pop()
            self.handlers.pop()
        out = []
        after = st.copy()
        raised = list(body_sink)
        ended = fr.returns[nret:]
        for h, ns in zip(s.handlers, names):
            ins = []
            rest = []
            for rs, exc in raised:
                m = [self.exc_match(self.exc_name(exc), n) for n in ns]
                if any(m):
                    ins.append((rs, exc))
                else:
                    rest.append((rs, exc))
            raised = rest
            # implicit exceptions raised by opaque operations of the body
            # (those of the analysed code are followed call by call)
            if all(n in self.w.classes or (id(flat), n) in self.settled
                   for n in ns):
                if ins:
                    self.handle(h, ns, ins, fr, out)
                continue
            key = ('raises', tuple(n or 'any' for n in ns))
            k = self.occurrence(before, key)
            atom = mk('raises', '|'.join(n or 'any' for n in ns), k, self.ivs())
            c = T.cond(atom)
            part = self.partial(before, after, atom)
            part.pc = T.and_(before.pc, c)
            ins.append((part, mk('excv', ns[0] or 'builtins.BaseException')))
            after.pc = T.and_(after.pc, T.not_(c))
            for rs, _ in ended:
                rs.pc = T.and_(rs.pc, T.not_(c))
            ins = [(T_, e) for T_, e in ins]
            # explicit raises happen only if nothing was raised implicitly
            fixed = []
            for rs, exc in ins[:-1]:
                rs.pc = T.and_(rs.pc, T.not_(c))
                fixed.append((rs, exc))
            fixed.append(ins[-1])
            self.handle(h, ns, fixed, fr, out)
        if s.orelse and not after.dead:
            self.block(s.orelse, after)
        if not after.dead:
            out.append(after)
        # not caught: propagate
        prop = raised
        if s.finalbody:
            for i in range(nret, len(fr.returns)):
                rs, v = fr.returns[i]
                self.block(s.finalbody, rs)
            for rs, exc in prop:
                self.block(s.finalbody, rs)
            m = self.merge(out)
            if not m.dead:
                self.block(s.finalbody, m)
            out = [m]
        self.sinks[-1].extend((rs, e) for rs, e in prop if not rs.dead)
        self.settled = {k for k in self.settled if k[0] != id(flat)}
        st.become(self.merge(out))

    def handle(self, h, ns, ins, fr, out):
        hs, hv = self.merge_values(ins)
        if hs is None:
            return
        prev = getattr(self, 'current_exc', None)
        self.current_exc = hv
        if h.name:
            hs.vars[(fr.fid, h.name)] = hv
        self.log('handler', hs, names=tuple(ns))
        self.block(h.body, hs)
        self.current_exc = prev
        if not hs.dead:
            out.append(hs)

    def partial(self, before, after, atom):
        """State in which an unknown part of a block has been executed."""
        s = before.copy()
        if after.dead:
            return s
        for name in ('vars', 'fields', 'cont'):
            d, e = getattr(s, name), getattr(after, name)
            for k, v in e.items():
                o = d.get(k)
                if o is None:
                    if name == 'cont' and k.op == 'ref':
                        d[k] = v
                    elif name == 'fields' and k[0].op == 'obj':
                        d[k] = v
                    elif name == 'fields':
                        d[k] = mk('maybe', self.default_field(k), v)
                    elif name == 'cont':
                        d[k] = mk('maybe', k, v)
                    continue
                if o is not v:
                    d[k] = mk('maybe', o, v)
        return s

    def handler_names(self, h, st):
        if h.type is None:
            return [None]
        self.quiet += 1
        v = self.expr(h.type, st)
        self.quiet -= 1
        lit = T.seq_literal(v)
        vs = lit if lit is not None else [v]
        return [x.args[0] if x.op in ('cls', 'ext') else T.show(x) for x in vs]

    # ---- loops

    def s_For(self, s, st):
        it = self.expr(s.iter, st)
        if st.dead:
            return

        def body(b, e):
            self.node = s
            self.assign(s.target, e, b)
            self.block(s.body, b)
        self.loop_over(st, it, body, s, orelse=s.orelse)

    def s_Break(self, s, st):
        self.stack[-1].loopctl[-1][0].append(st.copy())
        st.pc = FALSE

    def s_Continue(self, s, st):
        self.stack[-1].loopctl[-1][1].append(st.copy())
        st.pc = FALSE

    def view(self, st, t):
        """How to iterate over t: list of (kind, data) parts:
        ('one', elem) | ('many', dom, elem_fn, src)."""
        if t.op == 'enum':
            inner = self.view(st, t.args[0])
            start = t.args[1]
            out = []
            off = start
            if any(p[0] == 'nested' for p in inner):
                src = self.val(st, self.as_seq(st, t.args[0]))
                return [('many', T.length(src),
                         lambda iv: [(TRUE, T.seq_elems(
                             T.add(off, iv), T.idx(src, iv)))], src)]
            for p in inner:
                if p[0] == 'one':
                    out.append(('one', T.seq_elems(off, p[1])))
                    off = T.add(off, ONE)
                else:
                    def f(iv, p=p, off=off):
                        return [(c, T.seq_elems(T.add(off, iv), e))
                                for c, e in p[2](iv)]
                    # an index over a filtered source is not an affine counter
                    probe = T.fresh_iv()
                    es = p[2](probe)
                    if len(es) != 1 or es[0][0] is not TRUE:
                        src = self.val(st, self.materialise(p))
                        out.append(('many', T.length(src),
                                    lambda iv, src=src, off=off: [
                                        (TRUE, T.seq_elems(T.add(off, iv),
                                                           T.idx(src, iv)))], src))
                        off = T.add(off, T.length(src))
                        continue
                    out.append(('many', p[1], f, p[3]))
                    off = T.add(off, p[1])
            return out
        if t.op == 'zip':
            views = [self.view(st, x) for x in t.args[0]]
            lits = [[p[1] for p in v] if all(p[0] == 'one' for p in v) else None
                    for v in views]
            if any(l is not None for l in lits):
                n = min(len(l) for l in lits if l is not None)
                if all(l is not None for l in lits):
                    return [('one', T.seq_elems(*[l[i] for l in lits]))
                            for i in range(n)]
            fs = []
            doms = []
            for v, x in zip(views, t.args[0]):
                ok = len(v) == 1 and v[0][0] == 'many'
                if ok:
                    es = v[0][2](T.fresh_iv())
                    ok = len(es) == 1 and es[0][0] is TRUE
                if ok:
                    fs.append(lambda iv, v=v: v[0][2](iv)[0][1])
                    doms.append(v[0][1])
                else:
                    c = self.val(st, self.as_seq(st, x))
                    fs.append(lambda iv, c=c: T.idx(c, iv))
                    doms.append(T.length(c))
            dom = self.min_dom(doms)
            return [('many', dom, lambda iv: [(TRUE, T.seq_elems(
                *[f(iv) for f in fs]))], t)]
        if t.op in ('items', 'values') and t in self.src_of:
            src = self.src_of[t]
            out = []
            for p in self._view(st, t):
                if p[0] == 'many':
                    def f(iv, p=p, d=t.args[0]):
                        es = p[2](iv)
                        for _, e in es:
                            x = T.idx(e, ONE) if t.op == 'items' else e
                            self.note_view(st, src, mk('key', d, iv), x)
                        return es
                    p = (p[0], p[1], f) + p[3:]
                out.append(p)
            return out
        return self._view(st, t)

    def _view(self, st, t):
        if t.op == 'items':
            d = t.args[0]
            if d.op == 'dict' and all(p[0] == 'e' for p in d.args):
                return [('one', T.seq_elems(p[1], p[2])) for p in d.args]
            return [('many', T.length(d), lambda iv: [(TRUE, T.seq_elems(
                mk('key', d, iv), T.idx(d, mk('key', d, iv))))], t)]
        if t.op == 'values':
            d = t.args[0]
            if d.op == 'dict' and all(p[0] == 'e' for p in d.args):
                return [('one', p[2]) for p in d.args]
            return [('many', T.length(d), lambda iv: [(TRUE,
                     T.idx(d, mk('key', d, iv)))], t)]
        if t.op == 'keys':
            d = t.args[0]
            if d.op == 'dict' and all(p[0] == 'e' for p in d.args):
                return [('one', p[1]) for p in d.args]
            return [('many', T.length(d), lambda iv: [(TRUE,
                     mk('key', d, iv))], t)]
        c = self.as_seq(st, t)
        if c is not t and c.op in ('enum', 'zip', 'items', 'values', 'keys'):
            return self.view(st, c)
        if c.op == 'seq':
            out = []
            for p in c.args:
                if p[0] == 'e':
                    out.append(('one', p[1]))
                elif p[0] == 's':
                    x = p[1]
                    out.append(('many', T.length(x),
                                lambda iv, x=x: [(TRUE, T.idx(x, iv))], x))
                else:
                    dom, b = p[1], p[2]

                    def f(iv, b=b):
                        body = T.open_bind(b, iv)
                        res = []
                        for cc, leaf in T.cases(body):
                            lit = T.seq_literal(leaf)
                            if lit is None:
                                return None
                            for e in lit:
                                res.append((cc, e))
                        return res
                    if f(T.fresh_iv()) is None:
                        out.append(('nested', dom, b, c))
                    else:
                        out.append(('many', dom, f, c))
            if len(out) == 1 and out[0][0] == 'many' and \
                    t.op in ('ref', 'sym', 'fld'):
                f = out[0][2]

                def g(iv):
                    es = f(iv)
                    if len(es) == 1 and es[0][0] is TRUE:
                        return [(TRUE, self.note_view(st, t, iv, es[0][1]))]
                    return es
                out[0] = out[0][:2] + (g,) + out[0][3:]
            return out
        if c.op == 'elts':
            return [('many', mk('len', c.args[0]),
                     lambda iv: [(TRUE, mk('elt', c.args[0], iv))], c)]
        k = self.kind_of(st, t)
        if k == 'dict':
            return [('many', T.length(c), lambda iv: [(TRUE, mk('key', c, iv))], c)]
        if k == 'set':
            return [('many', mk('len', c), lambda iv: [(TRUE, mk('elt', c, iv))], c)]
        if c.op == 'dict':
            return [('many', mk('len', c), lambda iv: [(TRUE, mk('key', c, iv))], c)]
        if c.op in ('difference', 'intersection', 'set', 'removed', 'union'):
            return [('many', mk('len', c), lambda iv: [(TRUE, mk('elt', c, iv))], c)]
        return [('many', T.length(c), lambda iv: [(TRUE, self.note_view(
            st, t, iv, T.idx(c, iv)))], c)]

    def materialise(self, p):
        iv = T.fresh_iv()
        es = p[2](iv)
        body = T.seq()
        for c, e in es:
            body = T.seq_concat(body, T.ite(c, T.seq_elems(e), T.seq()))
        return T.seq_map(p[1], iv, body)

    def min_dom(self, doms):
        out = []
        for d in doms:
            if d not in out:
                out.append(d)
        # drop the ones that are larger by a constant
        keep = []
        for d in out:
            if any(o is not d and T.is_num(T.sub(d, o)) and
                   (T.num(T.sub(d, o)) > 0) for o in out):
                continue
            keep.append(d)
        if len(keep) == 1:
            return keep[0]
        return mk('min', *sorted(keep, key=lambda x: x.id))

    def loop_over(self, st, it, body, node, orelse=()):
        if it.op == 'ite':
            def f(s, x):
                self.loop_over(s, x, body, node, orelse)
                return NONE
            self._by_cases(st, it, f)
            return
        c = self.as_seq(st, it)
        if c.op == 'ite':
            def f(s, x):
                self.loop_over(s, x, body, node, orelse)
                return NONE
            self._by_cases(st, c, f)
            return
        if it.op == 'enum':
            x = it.args[0] if it.args[0].op == 'ite' else \
                self.as_seq(st, it.args[0])
            if x.op == 'ite':
                def f(s, x):
                    self.loop_over(s, mk('enum', x, it.args[1]), body, node,
                                   orelse)
                    return NONE
                self._by_cases(st, x, f)
                return
            if any(p[0] == 'nested' for p in self.view(st, it.args[0])):
                # the position is not followed
                pos = mk('unsupported', 'position', T.fresh_iv().args[0])
                self.loop_over(st, it.args[0], lambda b, e: body(
                    b, T.seq_elems(pos, e)), node, orelse)
                return
        parts = self.view(st, it)
        fr = self.stack[-1] if self.stack else None
        if fr is None:
            fr = Frame(None, self._fid())
        breaks_all = []
        for p in parts:
            if st.dead:
                break
            if p[0] == 'one':
                fr.loopctl.append(([], []))
                body(st, p[1])
                br, co = fr.loopctl.pop()
                st.become(self.merge([st.copy()] + co))
                breaks_all.extend(br)
            elif p[0] == 'nested':
                _, dom, b, src = p

                def nested(s, iv, b=b):
                    self.loop_over(s, T.open_bind(b, iv), body, None)
                br = self.sym_loop(st, dom, nested, node, src)
                breaks_all.extend(br)
            else:
                _, dom, f, src = p

                def one(s, iv, f=f):
                    es = f(iv)
                    for cc, e in es:
                        if cc is TRUE:
                            body(s, e)
                        else:
                            a, bb = self.branch(s, cc)
                            if not a.dead:
                                body(a, e)
                            s.become(self.merge([a, bb]))
                br = self.sym_loop(st, dom, one, node, src)
                breaks_all.extend(br)
        if orelse and not st.dead:
            self.block(orelse, st)
        if breaks_all:
            st.become(self.merge([st.copy()] + breaks_all))

    def keys_modified(self, before, after, local=frozenset()):
        mod = []
        for name in ('vars', 'fields', 'cont'):
            d, e = getattr(before, name), getattr(after, name)
            for k, v in e.items():
                if k in d:
                    if d[k] is not v:
                        mod.append((name, k))
                elif name == 'fields' and k[0].op != 'obj':
                    if v is not self.default_field(k) and \
                            not local & T.free(k[0]):
                        mod.append((name, k))
                elif name == 'cont' and k.op != 'ref':
                    # (not the ones of an object specific to an iteration)
                    if v is not k and not local & T.free(k):
                        mod.append((name, k))
                elif name == 'vars':
                    pass
        return mod

    def loc_get(self, st, loc):
        name, k = loc
        d = getattr(st, name)
        if k in d:
            return d[k]
        if name == 'fields':
            return self.default_field(k)
        if name == 'cont':
            return k
        return UNDEF

    def loc_set(self, st, loc, v):
        getattr(st, loc[0])[loc[1]] = v

    def loc_name(self, loc):
        name, k = loc
        if name == 'vars':
            return k[1]
        if name == 'fields':
            return '%s.%s' % (T.show(k[0], 2), k[1])
        return T.show(k, 2)

    def run_body(self, st, body, iv, loop, frame):
        """One symbolic iteration: returns (end state, breaks, returns)."""
        self.loops.append(loop)
        frame.loopctl.append(([], []))
        nret = len(frame.returns)
        sink = []
        self.sinks.append(sink)
        try:
            body(st, iv)
        finally:
            self.loops.pop()
            self.sinks.pop()
            br, co = frame.loopctl.pop()
        end = self.merge([st.copy()] + co)
        rets = frame.returns[nret:]
        del frame.returns[nret:]
        return end, br, rets, sink

    def sym_loop(self, st, dom, body, node, src, while_cond=None):
        """Summarises a loop of dom iterations.  Modifies st to the state
        after normal termination and returns the list of break states."""
        fr = self.stack[-1] if self.stack else Frame(None, self._fid())
        iv = T.fresh_iv()
        # index variables range over their domain
        loop = Loop(iv, dom, node, src)
        loop.outer = tuple(self.loops)
        self.loop_of_iters[mk('iters', iv.args[0])] = loop
        self.all_loops.append(loop)
        nonempty = T.not_(T.eq(dom, ZERO)) if dom is not None else TRUE
        # 1. find the modified locations
        recs = {}       # loc -> rec symbol
        closed = {}     # loc -> closed form (term in iv)
        self.quiet += 1
        try:
            for _ in range(6):
                s = st.copy()
                for loc, r in recs.items():
                    self.loc_set(s, loc, closed.get(loc, r))
                e, br, rets, sink = self.run_body(s, body, iv, loop, fr)
                base = st.copy()
                for loc, r in recs.items():
                    self.loc_set(base, loc, closed.get(loc, r))
                ends = not e.dead
                new = []
                local = set(recs.values()) | {iv}
                for x in [e] + br + [b for b, _ in sink] + [r for r, _ in rets]:
                    if not x.dead:
                        for loc in self.keys_modified(base, x, local):
                            if loc not in recs and loc not in new:
                                new.append(loc)
                if not new:
                    break
                for loc in new:
                    uid = T.fresh_iv()
                    r = mk('rec', uid.args[0], loc[0], self.loc_name(loc))
                    recs[loc] = r
                    if loc[0] == 'vars':
                        self.var_recs[r] = loc[1]
                    init = self.loc_get(st, loc)
                    if loc[0] == 'cont':
                        self.term_kind[r] = self.kind_of(st, loc[1])
                    elif init.op in ('obj',) or self.typeof(st, init):
                        t = self.typeof(st, init)
                        if t is not None and loc[0] == 'vars':
                            self.types.setdefault(r, (t[0], t[1]))
                    if loc[0] != 'cont' and self.kind_of(st, init):
                        self.term_kind[r] = self.kind_of(st, init)
            # 2. closed forms of counters and one-append-per-iteration lists
            for _ in range(3):
                s = st.copy()
                for loc, r in recs.items():
                    self.loc_set(s, loc, closed.get(loc, r))
                e, br, rets, sink = self.run_body(s, body, iv, loop, fr)
                changed = False
                for loc, r in recs.items():
                    if loc in closed or e.dead:
                        continue
                    nxt = self.loc_get(e, loc)
                    cf = self.closed_form(st, loc, r, nxt, iv, recs)
                    if cf is not None:
                        closed[loc] = cf
                        changed = True
                if not changed:
                    break
        finally:
            self.quiet -= 1
        if dom is not None and dom.op != 'iters' and not ends and \
                iv not in T.subterms(dom):
            # at most one iteration: no loop
            self.all_loops.remove(loop)
            self.loop_of_iters.pop(mk('iters', iv.args[0]), None)
            a, b = self.branch(st, nonempty)
            breaks = []
            if not a.dead:
                fr.loopctl.append(([], []))
                body(a, ZERO)
                breaks, co = fr.loopctl.pop()
                a = self.merge([a] + co)
            st.become(self.merge([a, b]))
            return breaks
        # 3. final pass with events
        s = st.copy()
        for loc, r in recs.items():
            self.loc_set(s, loc, closed.get(loc, r))
        e, br, rets, sink = self.run_body(s, body, iv, loop, fr)
        for loc, r in recs.items():
            if loc not in closed:
                loop.recs[r] = (self.loc_get(st, loc),
                                self.loc_get(e, loc) if not e.dead else BOT)
                self.loop_of_rec[r] = (loop, loc)
                self.length_of(loop, r)
        return self.finish_loop(st, e, br, rets, sink, recs, closed, iv, dom,
                                loop, fr)

    def length_of(self, loop, r):
        """Length, at iteration iv, of a list that grows steadily."""
        init, nxt = loop.recs[r]
        if not any(l.op == 'seq' for l in T.leaves(nxt)):
            return
        if init.op == 'ref':
            return
        try:
            n = T.length(r)
            d = T.sub(T.length(nxt), n)
        except Limit:
            return
        if n.op == 'len' and T.is_int(d):
            self.len_of[n] = T.add(T.length(init), T.mul(loop.iv, d))

    def rel(self, st, pc):
        return T.constrain(pc, st.pc)

    def finish_loop(self, st, e, br, rets, sink, recs, closed, iv, dom, loop, fr):
        exit_c = FALSE
        for x in br + [r for r, _ in rets] + [r for r, _ in sink]:
            exit_c = T.or_(exit_c, self.rel(st, x.pc))
        loop.exits = exit_c
        loop.leaves = FALSE
        for x in br + [r for r, _ in rets]:
            loop.leaves = T.or_(loop.leaves, self.rel(st, x.pc))
        has_exit = exit_c is not FALSE
        D = dom if dom is not None else mk('iters', iv.args[0])
        fresh_refs = lambda t: self.close_refs(e, st, t)
        after = st.copy()
        # state after normal termination
        for loc, r in recs.items():
            init = self.loc_get(st, loc)
            if e.dead:
                nxt = BOT
            else:
                nxt = fresh_refs(self.loc_get(e, loc))
            if r in loop.recs:
                i0 = init
                if init.op == 'ref' and ('cont', init) not in recs and \
                        init in st.cont:
                    i0 = self.val(st, init)
                loop.recs[r] = (i0, nxt)
            v = self.summarise(st, loc, r, init, nxt, closed.get(loc), iv, D,
                               recs, loop)
            self.loc_set(after, loc, v)
        # refs/objects allocated in the body stay readable
        for k, v in e.cont.items():
            if k not in after.cont and k.op == 'ref':
                after.cont[k] = v
        for k, v in e.fields.items():
            if k not in after.fields and k[0].op == 'obj':
                after.fields[k] = v
        for k, v in e.vars.items():
            if k not in after.vars:
                # assigned in the body only: value of the last iteration
                if v is UNDEF:
                    continue
                fv = fresh_refs(v)
                after.vars[k] = self.last_value(UNDEF, fv, iv, D)
        for k, v in e.cnt.items():
            after.cnt[k] = max(after.cnt.get(k, 0), v)
        breaks = []
        first = None
        if has_exit:
            atom = T.exists(D, iv, exit_c)
            fst = mk('first', D, T.close_bind(iv, exit_c))
            m = {iv: fst}
            if atom.op != 'ite':
                ex = atom
            else:
                ex = atom

            def exit_state(x):
                s = st.copy()
                sel = self.rel(st, x.pc)
                # condition that this exit is the one taken, at the first
                # exiting iteration
                c = T.subst(T.constrain(sel, exit_c), m) if sel is not exit_c \
                    else TRUE
                for name in ('vars', 'fields', 'cont'):
                    d = getattr(x, name)
                    sd = getattr(s, name)
                    for k, v in d.items():
                        if sd.get(k) is v:
                            continue
                        sd[k] = self.at_exit(v, recs, closed, m, iv)
                s.pc = T.and_(st.pc, ex, c)
                s.cnt = dict(x.cnt)
                return s
            for x in br:
                s = exit_state(x)
                if not s.dead:
                    breaks.append(s)
            for x, v in rets:
                s = exit_state(x)
                if not s.dead:
                    fr.returns.append((s, T.subst(self.close_refs(x, st, v), m)))
            for x, exc in sink:
                s = exit_state(x)
                if not s.dead:
                    self.sinks[-1].append((s, exc))
            after.pc = T.and_(st.pc, T.not_(ex))
        if e.dead and not has_exit:
            after.pc = T.and_(st.pc, T.eq(D, ZERO))
        elif e.dead:
            # every iteration leaves the loop
            after.pc = T.and_(st.pc, T.eq(D, ZERO))
        if loop.cond is not None and dom is None:
            # the condition of the while loop is false afterwards
            pass
        st.become(after)
        return breaks

    def at_exit(self, v, recs, closed, m, iv):
        return T.subst(v, m)

    def close_refs(self, e, st, t):
        """Replaces refs/objects allocated in the loop body by their value."""
        new = [x for x in T.subterms(t) if (x.op == 'ref' and x not in st.cont
                                            and x in e.cont) or
               (x.op == 'obj' and (x not in self._live_objs(st)))]
        if not new:
            return t
        m = {}
        for x in new:
            m[x] = self.val(e, x)
        return T.subst(t, m)

    def _live_objs(self, st):
        return set(k[0] for k in st.fields if k[0].op == 'obj')

    def hidden(self, t):
        """Variables of the current loops that the results of inner loops
        found in t depend on."""
        out = frozenset()
        for x in T.subterms(t):
            if x.op == 'loopout' and x in self.loop_of_rec:
                out |= self.loop_free(self.loop_of_rec[x][0])
            elif x.op == 'iters' and x in self.loop_of_iters:
                out |= self.loop_free(self.loop_of_iters[x])
        return out

    def loop_free(self, l):
        r = self.loop_free_.get(l)
        if r is None:
            self.loop_free_[l] = frozenset()
            ts = [l.cond, l.exits, l.dom] + [x for p in l.recs.values()
                                             for x in p]
            r = frozenset()
            for x in ts:
                if x is not None:
                    r |= T.free(x) | self.hidden(x)
            r = r - set(l.recs) - {l.iv}
            self.loop_free_[l] = r
        return r

    def closed_form(self, st, loc, r, nxt, iv, recs):
        """Value at iteration iv of a location, if it has a closed form."""
        init = self.loc_get(st, loc)
        others = set(recs.values())
        if loc[0] == 'cont':
            # list with exactly n unconditional appends per iteration
            return None
        if nxt is r:
            return init
        if nxt.op in ('seq', 'ref', 'obj', 'set', 'dict'):
            return None
        if self.hidden(nxt) & (others | {iv}):
            return None
        try:
            d = T.sub(nxt, r)
        except (Limit, Exception):
            return None
        if d.op != 'ite' and not (T.free(d) & (others | {iv})) and \
                init is not UNDEF and (T.is_num(init) or init.op in (
                    'poly', 'len', 'sym', 'fld', 'idx', 'iv', 'sum')):
            if nxt.op == 'strcat' or T.is_str(init):
                return None
            return T.add(init, T.mul(iv, d))
        # geometric
        if nxt.op == 'poly' and len(nxt.args) == 1 and init is not UNDEF:
            q = T.div(nxt, r)
            if not (T.free(q) & (others | {iv})):
                return T.mul(init, T.power(q, iv))
        return None

    def last_value(self, init, nxt, iv, D):
        if iv not in T.free(nxt):
            if init is UNDEF:
                return nxt
            return T.ite(T.eq(D, ZERO), init, nxt)
        v = T.subst(nxt, {iv: T.sub(D, ONE)})
        if init is UNDEF:
            return v
        return T.ite(T.eq(D, ZERO), init, v)

    def summarise(self, st, loc, r, init, nxt, cf, iv, D, recs, loop):
        others = set(recs.values())
        if nxt is BOT:
            return init
        if cf is not None:
            if cf is init:
                return init
            return T.subst(cf, {iv: D})
        if nxt is r:
            return init
        if loop.exits is not FALSE and False:
            pass
        fr_ = T.free(nxt)
        x = None
        if self.hidden(nxt) & (others | {iv}):
            pass        # through the result of an inner loop
        elif not (fr_ & others):
            return self.last_value(init, nxt, iv, D)
        else:
            # accumulations
            try:
                x = self.accumulate(r, nxt, init, iv, D, others)
            except Limit:
                x = None
        if x is not None:
            return x
        uid = iv.args[0]
        out = mk('loopout', uid, loc[0], self.loc_name(loc))
        self.loop_of_rec[out] = (loop, loc)
        if mk('len', r) in self.len_of:
            self.len_of[mk('len', out)] = T.subst(
                self.len_of[mk('len', r)], {iv: D})
        if r in self.types:
            self.types.setdefault(out, self.types[r])
        if r in self.term_kind:
            self.term_kind[out] = self.term_kind[r]
        return out

    def accumulate(self, r, nxt, init, iv, D, others):
        # sequences: every leaf is r ++ tail
        lv = T.leaves(nxt)
        if any(l.op == 'seq' for l in lv):
            def tail(l):
                if l is r:
                    return T.seq()
                if l.op == 'seq' and l.args and l.args[0] == ('s', r):
                    t = T.seq(*l.args[1:])
                    return t
                return None
            ts = {l: tail(l) for l in lv}
            if all(t is not None and not (T.free(t) & others)
                   for t in ts.values()) and not any(
                       T.free(a) & others for a in T.atoms(nxt)):
                body = T.ite_map(nxt, lambda l: ts[l])
                m = T.rebuild('seq', (('m', D, T.close_bind(iv, body)),))
                return T.seq_concat(init, m)
            # or tail ++ r
            ts = {l: T.seq() if l is r else T.seq(*l.args[:-1])
                  if l.op == 'seq' and l.args and l.args[-1] == ('s', r)
                  else None for l in lv}
            if D.op != 'iters' and all(
                    t is not None and not (T.free(t) & others)
                    for t in ts.values()) and not any(
                        T.free(a) & others for a in T.atoms(nxt)):
                body = T.subst(T.ite_map(nxt, lambda l: ts[l]), {
                    iv: T.sub(T.sub(D, const(1)), iv)})
                m = T.rebuild('seq', (('m', D, T.close_bind(iv, body)),))
                return T.seq_concat(m, init)
            return None
        if any(l.op == 'set' for l in lv):
            def extra(l):
                if l is r:
                    return ()
                if l.op == 'set' and ('s', r) in l.args:
                    return tuple(p for p in l.args if p != ('s', r))
                return None
            ts = {l: extra(l) for l in lv}
            if all(t is not None and not any(T.free(x) & others for x in t)
                   for t in ts.values()) and not any(
                       T.free(a) & others for a in T.atoms(nxt)):
                def toseq(l):
                    return T.rebuild('seq', ts[l])
                body = T.ite_map(nxt, toseq)
                m = T.rebuild('seq', (('m', D, T.close_bind(iv, body)),))
                return T.lift(lambda i: T.setunion(('s', i), ('s', m)), init)
            return None
        # texts
        if any(l.op == 'strcat' for l in lv):
            def text(l):
                if l is r:
                    return T.seq()
                if l.op == 'strcat' and l.args[0] is r:
                    return T.seq_elems(T.strcat(*l.args[1:]))
                return None
            ts = {l: text(l) for l in lv}
            if all(t is not None and not (T.free(t) & others)
                   for t in ts.values()) and not any(
                       T.free(a) & others for a in T.atoms(nxt)):
                body = T.ite_map(nxt, lambda l: ts[l])
                m = T.rebuild('seq', (('m', D, T.close_bind(iv, body)),))
                return self.strcat([init, T.join(const(''), m)])
            return None
        # item updates
        if any(l.op == 'upd' for l in lv):
            def up(l):
                if l is r:
                    return ()
                if l.op == 'upd' and l.args[0] is r:
                    return (l.args[1], l.args[2])
                return None
            ts = {l: up(l) for l in lv}
            ups = set(t for t in ts.values() if t)
            if all(t is not None for t in ts.values()) and len(ups) == 1 and \
                    not any(T.free(a) & others for a in T.atoms(nxt)):
                k, v = ups.pop()
                own = mk('idx', r, k)
                if T.contains(v, own) and not (T.free(k) & others) and not \
                        T.free(T.subst(v, {own: ZERO})) & others:
                    # each iteration changes its own item / all the same item
                    if k is iv:
                        v = T.subst(v, {own: T.idx(init, iv)})
                    elif iv not in T.free(k):
                        h = T.fresh_iv()
                        h = mk('rec', h.args[0], 'cont', 'item')
                        c = T.ite_map(nxt, lambda l: T.subst(
                            v, {own: h}) if ts[l] else h)
                        x = self.accumulate(h, c, T.idx(init, k), iv, D, {h})
                        if x is None:
                            return None
                        return T.upd(init, k, x)
                if not (T.free(k) & others) and not (T.free(v) & others):
                    c = T.ite_map(nxt, lambda l: TRUE if ts[l] else FALSE)
                    # full overwrite: [v(i) for i in range(D)]
                    if c is TRUE and k is iv and T.length(init) is D and \
                            init.op == 'seq':
                        return T.seq_map(D, iv, T.seq_elems(v))
                    if init.op == 'dict':
                        p = ('m', D, T.close_bind(iv, T.ite(c, T.seq_elems(
                            T.seq_elems(k, v)), T.seq())))
                        return T.dictionary(*(init.args + (p,)))
                    return mk('updall', init, D, T.close_bind(
                        iv, T.seq_elems(c, k, v)))
            return None
        # numbers
        try:
            d = T.sub(nxt, r)
        except Limit:
            return None
        if not (T.free(d) & others):
            return T.add(init, self.sum_diagram(D, iv, d))
        return None

    def sum_diagram(self, D, iv, d):
        return T.sum_over(D, iv, d)

    def guarded_while(self, s):
        """`while a: if b: break; ...` as `while a and not b: ...`"""
        key = ('while', id(s))
        if key in self.cls_cache:
            return self.cls_cache[key]
        test, body = s.test, s.body
        forever = isinstance(test, ast.Constant) and bool(test.value)
        if forever or not s.orelse:
            while body and isinstance(body[0], ast.If):
                i = body[0]
                if len(i.body) == 1 and isinstance(i.body[0], ast.Break):
                    c = ast.UnaryOp(ast.Not(), i.test)
                    rest = i.orelse + body[1:]
                elif len(i.orelse) == 1 and isinstance(
                        i.orelse[0], ast.Break):
                    c = i.test
                    rest = i.body + body[1:]
                else:
                    break
                test = c if isinstance(test, ast.Constant) and test.value \
                    else ast.BoolOp(ast.And(), [test, c])
                body = rest or [ast.copy_location(ast.Pass(), i)]
        r = s
        if test is not s.test:
            r = ast.While(test, body, [] if forever else s.orelse)
            ast.copy_location(r, s)
            ast.copy_location(test, s)
            ast.fix_missing_locations(r)
        self.cls_cache[key] = r
        self.cls_cache[('while', id(r))] = r
        return r

    def s_While(self, s, st):
        s = self.guarded_while(s)
        fr = self.stack[-1]
        loopbox = []

        # try to recognise  while i < n: ...; i += 1
        def body(b, iv):
            self.node = s
            c = self.truth(b, self.expr(s.test, b))
            c = self.under(b, c)
            l = self.loops[-1]
            l.cond = c
            loopbox.append((l, c))
            self.log('loopcond', b, cond=c, loop=l)
            t, f = self.branch(b, c)
            # iterations only happen when the condition holds
            b.become(t)
            if not b.dead:
                self.refine(b)
                self.block(s.body, b)

        dom = split = None
        # probe: is the condition  iv-affine < bound  ?
        self.quiet += 1
        probe_events = None
        try:
            s0 = st.copy()
            save = (len(fr.returns), list(fr.loopctl))
            n_sinks = [len(x) for x in self.sinks]
            self.sym_loop(s0, mk('iters', T.fresh_iv().args[0]), body, s, None)
            del fr.returns[save[0]:]
            for x, n in zip(self.sinks, n_sinks):
                del x[n:]
            if loopbox:
                l, c = loopbox[-1]
                dom = self.while_dom(c, l.iv, st)
                if dom is None:
                    split = self.invariant_atom(c, l.iv)
        finally:
            self.quiet -= 1
        if split is not None:
            # unswitch the loop
            a, b = self.branch(st, T.cond(split))
            for x in (a, b):
                if not x.dead:
                    self.refine(x)
                    self.s_While(s, x)
            st.become(self.merge([a, b]))
            return
        D = dom if dom is not None else mk('iters', T.fresh_iv().args[0])
        if dom is not None:
            def body2(b, iv):
                self.node = s
                self.expr(s.test, b)
                self.block(s.body, b)
            br = self.sym_loop(st, D, body2, s, None)
        else:
            loopbox[:] = []
            pre = st.copy()
            br = self.sym_loop(st, D, body, s, None)
            # the loop ends when the condition is false
            if not st.dead:
                c0 = self.under(pre, self.truth_quiet(pre, s.test))
                if c0 is FALSE:
                    st.become(pre)
                    return
                c = self.truth_quiet(st, s.test)
                c = self.under(st, c)
                if c is TRUE:
                    st.pc = FALSE
                else:
                    st.pc = T.and_(st.pc, T.not_(c))
        if s.orelse and not st.dead:
            self.block(s.orelse, st)
        if br:
            st.become(self.merge([st.copy()] + br))

    def truth_quiet(self, st, test):
        self.quiet += 1
        try:
            s = st.copy()
            return self.truth(s, self.expr(test, s))
        finally:
            self.quiet -= 1

    def invariant_atom(self, c, iv):
        """Part of the condition of a loop that the loop cannot change."""
        if c.op != 'ite':
            return None
        atoms = T.atoms(c)
        if len(atoms) < 2:
            return None
        fixed = [x for x in atoms if iv not in T.free(x) and
                 not any(y.op == 'rec' for y in T.free(x))]
        if fixed and len(fixed) < len(atoms):
            return min(fixed, key=lambda x: x.id)
        return None

    def while_dom(self, c, iv, st):
        """Number of iterations for conditions of the form iv + a < n."""
        if c.op != 'ite' or len(T.atoms(c)) != 1:
            return None
        atom = c.args[0]
        pos = c.args[1] is TRUE
        if atom.op == 'lt' and pos:
            a, b = atom.args
            d = T.sub(b, a)    # > 0 ; expect n - a0 - iv
        elif atom.op == 'lt' and not pos:
            a, b = atom.args   # not a < b  <=> b <= a <=> b < a + 1
            d = T.add(T.sub(a, b), ONE)
        elif atom.op == 'eq' and not pos:
            a, b = atom.args
            d = T.sub(b, a)
            p = T._as_poly(d)
            if p.get(((iv, 1),)) == 1:
                d = T.neg(d)
        else:
            return None
        p = T._as_poly(d)
        if p.get(((iv, 1),)) != -1:
            return None
        n = T.add(d, iv)
        if iv in T.free(n):
            return None
        if any(x.op == 'rec' for x in T.free(n)):
            # bounded by a location changed by the loop
            return None
        return n

    # ------------------------------------------------------------ expressions

    def expr(self, n, st):
        if st.dead:
            return BOT
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unsupported.append(type(n).__name__)
            return mk('unsupported', type(n).__name__, id(n))
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.lookup(st, n.id)

    def e_Attribute(self, n, st):
        b = self.expr(n.value, st)
        node = self.node
        r = self.getattr(st, b, n.attr)
        self.node = node
        return r

    def e_Subscript(self, n, st):
        b = self.expr(n.value, st)
        i = self.expr(n.slice, st)
        if st.dead:
            return BOT
        if self.handlers and not T.any_op(self.val(st, i), 'slc'):
            kind = self.kind_of(st, b)
            if kind == 'dict' or kind is None and not self.implicit(
                    st, 'builtins.IndexError',
                    lambda: self.out_of_range(st, b, i)):
                self.implicit(st, 'builtins.KeyError', lambda: T.not_(
                    self.contains(st, i, b)))
            elif kind is not None:
                self.implicit(st, 'builtins.IndexError',
                              lambda: self.out_of_range(st, b, i))
            if st.dead:
                return BOT
        r = self.getitem(st, b, i)
        self.log('getitem', st, base=b, index=self.val(st, i), result=r)
        return r

    def plain_index(self, st, i):
        """Full slices at the end of an index of an array say nothing."""
        if i.op == 'ref' and self.kinds.get(i) == 'list':
            # a list of positions, unlike a tuple of indices
            return T.seq_elems(self.val(st, i))
        if i.op != 'seq':
            return i
        lit = T.seq_literal(i)
        if lit is None:
            return i
        full = mk('slc', NONE, NONE, NONE)
        dots = const(Ellipsis)
        n = len(lit)
        if dots in lit[:-1]:
            return i
        while n > 1 and lit[n - 1] in (full, dots):
            n -= 1
        if n == len(lit):
            return i
        return lit[0] if n == 1 and not (
            lit[0].op == 'seq' or lit[0].op == 'ref' and
            self.kinds.get(lit[0]) == 'list') else T.seq_elems(*lit[:n])

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.val(st, self.expr(x, st))
        return mk('slc', f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, st):
        return self.seq_display(n, st)

    def seq_display(self, n, st):
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts.append(('s', self.iter_to_seq(st, self.expr(e.value, st))))
            else:
                parts.append(('e', self.expr(e, st)))
        if st.dead:
            return BOT
        return T.rebuild('seq', tuple(parts)) if parts else T.seq()

    def e_List(self, n, st):
        c = self.seq_display(n, st)
        return self.newref(st, c, 'list') if c is not BOT else BOT

    def e_Set(self, n, st):
        c = self.seq_display(n, st)
        return self.newref(st, T.setunion(('s', c)), 'set')

    def e_Dict(self, n, st):
        parts = []
        extra = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                extra.append(self.expr(v, st))
            else:
                kk = self.val(st, self.expr(k, st))
                vv = self.expr(v, st)
                parts.append(('e', kk, vv))
        if st.dead:
            return BOT
        # later duplicates override earlier entries
        seen = {}
        for p in parts:
            seen[p[1]] = p
        c = mk('dict', *seen.values())
        r = self.newref(st, c, 'dict')
        for x in extra:
            self.quiet += 1
            self.m_update(st, r, [x], {}, 'dict')
            self.quiet -= 1
        return r

    def e_Starred(self, n, st):
        return mk('starred', self.expr(n.value, st))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(st, self.expr(v.value, st))
                spec = self.expr(v.format_spec, st) if v.format_spec else ''
                x = self.formatted(x, spec, '' if v.conversion < 0
                                   else chr(v.conversion))
                parts.append(self.to_str(x))
        return self.strcat(parts)

    def e_BinOp(self, n, st):
        a = self.expr(n.left, st)
        b = self.expr(n.right, st)
        if st.dead:
            return BOT
        r = self.binop(n.op, a, b, st)
        if isinstance(n.op, ast.Div) and not T.is_num(b):
            self.quotients.add(r)
        elif isinstance(n.op, ast.Mult) and (
                a in self.quotients or b in self.quotients):
            self.inexact.add(r)
        return r

    def binop(self, op, a, b, st):
        ka, kb = self.kind_of(st, a), self.kind_of(st, b)
        o = type(op).__name__
        if o == 'MatMult':
            return self.call_method(st, a, 'dot', [b], {})
        if o == 'Add' and ('list' in (ka, kb) or 'tuple' in (ka, kb)):
            return self.newref(st, T.lift(T._concat, self.as_seq(st, a),
                                          self.as_seq(st, b)),
                               'list' if 'list' in (ka, kb) else 'tuple')
        if o == 'Mult' and ('list' in (ka, kb) or 'tuple' in (ka, kb)):
            x, y = (a, b) if ka in ('list', 'tuple') else (b, a)
            return self.newref(st, T.mul(self.content(st, x), self.val(st, y)),
                               'list')
        if o in ('BitOr', 'BitAnd', 'Sub') and 'set' in (ka, kb):
            name = {'BitOr': 'union', 'BitAnd': 'intersection',
                    'Sub': 'difference'}[o]
            return getattr(self, 'm_' + name)(st, a, [b], {}, 'set')
        if o == 'Mod' and (T.is_str(a)):
            args = T.seq_literal(b) if b.op == 'seq' else [b]
            if args is not None:
                return self.percent(st, T.cval(a), args, a, b)
        va, vb = self.val(st, a), self.val(st, b)
        arr = 'array' in (ka, kb)
        if o == 'Add' and not arr and 'str' in (
                self.term_kind.get(va), self.term_kind.get(vb)):
            return self.strcat([va, vb])
        if o in ('Div', 'FloorDiv', 'Mod') and not arr and \
                vb.op not in ('const', 'seq') and not T.free(vb):
            self.log('div', st, by=vb)
        r = self._arith(o, va, vb)
        if arr:
            return self.newref(st, r, 'array')
        return r

    def percent(self, st, s, args, a, b):
        import re
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r'%([-#0 +]*\d*(?:\.\d+)?)([sdrfgieExX%])', s):
            parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                parts.append(const('%'))
                continue
            if i >= len(args):
                return mk('call', 'percent', (a, self.val(st, b)), ())
            x = self.val(st, args[i])
            i += 1
            if m.group(1) or m.group(2) not in 'sd':
                # (numbers are aligned in the same way by both)
                same = m.group(2) in 'dfeE' and \
                    (m.group(1) + '0')[0] in '0123456789.'
                x = mk('fmt', m.group(0)[1:] if same else m.group(0), '', x)
            parts.append(self.to_str(x))
        parts.append(const(s[pos:]))
        return self.strcat(parts)

    def _arith(self, o, a, b):
        f = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div,
             'FloorDiv': T.floordiv, 'Mod': T.mod, 'Pow': T.power}.get(o)
        if f is not None:
            return f(a, b)
        if o == 'LShift':
            return T.mul(a, T.power(const(2), b))
        if o == 'RShift':
            return T.floordiv(a, T.power(const(2), b))
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            def g(x, y):
                if x in (TRUE, FALSE) and y in (TRUE, FALSE):
                    if o == 'BitAnd':
                        return T.and_(x, y)
                    if o == 'BitOr':
                        return T.or_(x, y)
                return T.bits(o.lower(), x, y)
            return T.lift(g, a, b)
        return mk('op' + o, a, b)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return T.not_(self.truth(st, self.expr(n.operand, st)))
        v = self.val(st, self.expr(n.operand, st))
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk('invert', v)

    def e_BoolOp(self, n, st):
        """Short circuit: later operands are evaluated under a condition."""
        is_and = isinstance(n.op, ast.And)
        v = self.expr(n.values[0], st)
        for x in n.values[1:]:
            if st.dead:
                return BOT
            c = self.under(st, self.truth(st, v))
            go = c if is_and else T.not_(c)
            if go is FALSE:
                return v
            if go is TRUE:
                v = self.expr(x, st)
                continue
            a = st.copy()
            a.pc = T.and_(st.pc, go)
            b = st.copy()
            b.pc = T.and_(st.pc, T.not_(go))
            w = self.expr(x, a)
            if a.dead:
                st.become(b)
                continue
            s = self.merge([a, b])
            # boolean valued operands keep boolean diagrams
            v = T.ite(go, w, self._stay(v, go, is_and))
            st.become(s)
        return v

    def _stay(self, v, go, is_and):
        if v is TRUE or v is FALSE or v.op == 'ite':
            return v
        return v

    def e_IfExp(self, n, st):
        c = self.truth(st, self.expr(n.test, st))
        if st.dead:
            return BOT
        a, b = self.branch(st, c)
        items = []
        if not a.dead:
            items.append((a, self.expr(n.body, a)))
        if not b.dead:
            items.append((b, self.expr(n.orelse, b)))
        s, v = self.merge_values(items)
        if s is None:
            st.pc = FALSE
            return BOT
        st.become(s)
        return v

    def e_Compare(self, n, st):
        left = self.expr(n.left, st)
        r = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.expr(c, st)
            if st.dead:
                return BOT
            x = self.compare(type(op).__name__, left, right, st)
            r = T.and_(r, x) if x in (TRUE, FALSE) or all(
                l in (TRUE, FALSE) for l in T.leaves(x)) else x
            left = right
        return r

    def compare(self, o, a, b, st):
        if o in ('In', 'NotIn'):
            r = self.contains(st, a, b)
            return T.not_(r) if o == 'NotIn' else r
        if o in ('Is', 'IsNot') and {a.op, b.op} == {'type', 'ext'} and \
                {a.args[0], b.args[0]} & {'builtins.' + n for n in (
                    'str', 'list', 'dict', 'set', 'tuple', 'float')}:
            x, c = (a, b) if a.op == 'type' else (b, a)
            r = self.b_isinstance(st, [x.args[0], c], {})
            if r is not None:
                return T.not_(r) if o == 'IsNot' else r
        if o in ('Is', 'IsNot', 'Eq', 'NotEq') and \
                {a.op, b.op} == {'type', 'cls'}:
            # the only class of a kind of objects
            x, c = (a, b) if a.op == 'type' else (b, a)
            k = self.w.classes.get(c.args[0])
            if k is not None and self.w.subclasses(k) == [k]:
                r = self.b_isinstance(st, [x.args[0], c], {})
                if r is not None:
                    return T.not_(r) if o.startswith('Not') or \
                        o == 'IsNot' else r
        if o in ('Is', 'IsNot'):
            r = T.lift(lambda x, y: FALSE if self.not_none(st, x, y)
                       else self._is(st, x, y), a, b)
            return T.not_(r) if o == 'IsNot' else r
        ka, kb = self.kind_of(st, a), self.kind_of(st, b)
        va, vb = self.val(st, a), self.val(st, b)
        if 'array' in (ka, kb) and o in ('Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE'):
            if o in ('Gt', 'GtE'):
                o, va, vb = 'Lt' + o[2:], vb, va
            elif o in ('Eq', 'NotEq') and vb.id < va.id:
                va, vb = vb, va
            return mk('arrcmp', o, va, vb)
        if o == 'Eq':
            return T.eq(va, vb)
        if o == 'NotEq':
            return T.not_(T.eq(va, vb))
        if o == 'Lt':
            return T.lt(va, vb)
        if o == 'Gt':
            return T.lt(vb, va)
        if o == 'LtE':
            return T.le(va, vb)
        if o == 'GtE':
            return T.le(vb, va)
        return T.cond(mk('cmp', o, va, vb))

    def not_none(self, st, a, b):
        """An item or result declared to be an instance, against None."""
        if a is b or NONE not in (a, b):
            return False
        x = b if a is NONE else a
        return x.op in ('idx', 'rcall') and self.hints and \
            self.typeof(st, x) is not None

    def _is(self, st, a, b):
        if a is b:
            return TRUE
        if a.op in ('ref', 'obj') or b.op in ('ref', 'obj'):
            if a.op in ('ref', 'obj') and b.op in ('ref', 'obj'):
                return FALSE
            o = b if a.op in ('ref', 'obj') else a
            if T.is_const(o) or o.op in ('sym', 'cls', 'fn', 'ext', 'mod'):
                return FALSE
        e = T._eq(a, b)
        if e in (TRUE, FALSE) and NONE not in (a, b):
            return e
        for x in (a, b):
            if x.op in ('cls', 'fn', 'ext', 'mod', 'obj', 'ref') or \
                    x in (NONE, TRUE, FALSE) or x.op == 'type':
                return e
            t = self.typeof(st, x)
            if t is not None and t[0].find('__eq__') is None:
                return e
        return T.cond(mk('is', *sorted((a, b), key=lambda x: x.id)))

    def contains(self, st, x, s):
        """x in s"""
        if s.op == 'ite':
            return T.ite_map(s, lambda y: self.contains(st, x, y))
        t = self.typeof(st, s)
        if t is not None and t[0].find('__contains__') is not None:
            return self.truth(st, self.call(
                st, self.getattr(st, s, '__contains__'), [x], {}))
        c = self.val(st, s)
        vx = self.val(st, x)
        if c.op in ('keys',):
            c = c.args[0]
        return T.lift(lambda cc, xx: self._contains(cc, xx), c, vx)

    def _contains(self, c, x):
        if c.op == 'seq' or c.op == 'set':
            r = FALSE
            for p in c.args:
                if p[0] == 'e':
                    r = T.or_(r, T.eq(x, p[1]))
                elif p[0] == 's':
                    r = T.or_(r, self._contains(p[1], x))
                else:
                    iv = T.fresh_iv()
                    body = T.open_bind(p[2], iv)
                    cc = T.ite_map(body, lambda b: self._contains(b, x))
                    r = T.or_(r, T.exists(p[1], iv, cc))
            return r
        if c.op == 'dict':
            if all(p[0] == 'e' for p in c.args):
                return T.or_(*[T.eq(x, p[1]) for p in c.args])
        if c.op == 'upd':
            return T.or_(T.eq(x, c.args[1]), self._contains(c.args[0], x))
        if c.op == 'const' and T.is_str(c) and T.is_str(x):
            return TRUE if T.cval(x) in T.cval(c) else FALSE
        if c.op == 'elts':
            c = c.args[0]
            return self._contains(c, x)
        if c.op in ('sorted', 'reversed'):
            return self._contains(c.args[0], x)
        if c.op == 'removed':
            return T.and_(T.not_(T.eq(x, c.args[1])),
                          self._contains(c.args[0], x))
        if c.op == 'elt' or c.op == 'idx':
            pass
        return T.cond(mk('in', x, c))

    def e_Call(self, n, st):
        f = self.expr(n.func, st)
        args = []
        for a in n.args:
            v = self.expr(a, st)
            if v.op == 'starred':
                lit = T.seq_literal(self.as_seq(st, v.args[0]))
                if lit is not None:
                    args.extend(lit)
                    continue
            args.append(v)
        kw = {}
        for k in n.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                c = self.content(st, v)
                if c.op == 'dict' and all(p[0] == 'e' and T.is_str(p[1])
                                          for p in c.args):
                    for p in c.args:
                        kw[T.cval(p[1])] = p[2]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if st.dead:
            return BOT
        old = self.node
        self.node = n
        r = self.call(st, f, args, kw)
        self.node = old
        return r

    def e_Lambda(self, n, st):
        fr = self.stack[-1]
        fr.has_closures = True
        fi = self.w.lambda_info(n, fr.fi.module, fr.fi, None)
        return self.fnterm(fi, (fr.fid,) + fr.closure)

    def e_NamedExpr(self, n, st):
        v = self.expr(n.value, st)
        self.assign(n.target, v, st)
        return v

    # comprehensions: loops that append to a hidden container

    def comp(self, n, st, emit):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        fr = self.stack[-1]
        saved = {k: st.vars.get((fr.fid, k)) for k in names}

        def gen(i, s):
            if i == len(n.generators):
                emit(s)
                return
            g = n.generators[i]
            it = self.expr(g.iter, s)

            def body(b, e):
                self.assign(g.target, e, b)
                cur = b
                conds = TRUE
                for c in g.ifs:
                    t = self.under(cur, self.truth(cur, self.expr(c, cur)))
                    conds = T.and_(conds, t)
                    if conds is FALSE:
                        return
                if conds is TRUE:
                    gen(i + 1, b)
                else:
                    a, f = self.branch(b, conds)
                    if not a.dead:
                        gen(i + 1, a)
                    b.become(self.merge([a, f]))
            self.loop_over(s, it, body, n)
        gen(0, st)
        for k, v in saved.items():
            if v is None:
                st.vars.pop((fr.fid, k), None)
            else:
                st.vars[(fr.fid, k)] = v

    def hidden_append(self, s, r, v):
        self.quiet += 1
        self.m_append(s, r, [v], {}, 'list')
        self.quiet -= 1

    def e_ListComp(self, n, st):
        r = self.newref(st, T.seq(), 'list')
        self.comp(n, st, lambda s: self.hidden_append(s, r, self.expr(n.elt, s)))
        return r if not st.dead else BOT

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        r = self.newref(st, T.seq(), 'list')
        self.comp(n, st, lambda s: self.hidden_append(s, r, self.expr(n.elt, s)))
        if st.dead:
            return BOT
        return self.b_set(st, [r], {})

    def e_DictComp(self, n, st):
        r = self.newref(st, T.seq(), 'list')
        self.comp(n, st, lambda s: self.hidden_append(s, r, T.seq_elems(
            self.expr(n.key, s), self.expr(n.value, s))))
        if st.dead:
            return BOT
        return self.newref(st, self.dict_of_pairs(self.content(st, r)), 'dict')

    def e_Yield(self, n, st):
        v = NONE if n.value is None else self.expr(n.value, st)
        if st.dead:
            return BOT
        self.log('yield', st, value=v, val=self.val(st, v))
        fr = self.stack[-1]
        if fr.yields is not None:
            self.hidden_append(st, fr.yields, v)
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.expr(n.value, st)
        fr = self.stack[-1]
        self.quiet += 1
        self.m_extend(st, fr.yields, [v], {}, 'list')
        self.quiet -= 1
        return NONE

    def e_Await(self, n, st):
        return self.expr(n.value, st)

    # ------------------------------------------------------------ entry

    def run(self, fi, args=None, self_term=None, st=None, cls=None, kw=None):
        """Evaluates a function on symbolic arguments.

        :returns: Result with final state, value, raises and events."""
        st = State() if st is None else st
        self.root = fi
        self.prepare(st)
        args = dict(args or {})
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = []
        kws = {}
        for i, n in enumerate(names):
            if i == 0 and self_term is not None:
                vals.append(self_term)
                args.pop(n, None)
            elif n in args:
                kws[n] = args.pop(n)
            else:
                # leave defaults only if asked for
                kws[n] = mk('sym', n)
        for x in a.kwonlyargs:
            kws[x.arg] = args.pop(x.arg, mk('sym', x.arg))
        for k, v in args.items():
            if v is None:
                kws.pop(k, None)
        kws = {k: v for k, v in kws.items() if v is not None}
        self.sinks.append([])
        root = Frame(FunctionInfo(None, fi.module, '<root>'), self._fid())
        root.fi.locals = set()
        self.live = [st]
        n0 = len(self.events)
        f = self.fnterm(fi, ())
        self.stack.append(root)
        try:
            v = self.call_fn(st, f, vals, kws, self_term=self_term)
        finally:
            self.stack.pop()
            raises = self.sinks.pop()
        return Result(self, st, v, raises, self.events[n0:])

    def prepare(self, st):
        for k, v in getattr(self, 'globals_cont', {}).items():
            st.cont.setdefault(k, v)
        for k, v in getattr(self, 'globals_fields', {}).items():
            st.fields.setdefault(k, v)


class Result(object):

    def __init__(self, interp, st, value, raises, events):
        self.interp = interp
        self.st = st
        self.value = value
        self.raises = raises
        self.events = events

    @property
    def val(self):
        return self.interp.val(self.st, self.value)

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]
