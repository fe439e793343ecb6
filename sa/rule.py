"""Obligations: what the rules state about terms, and the three verdicts.

An obligation is `ok` (shown to hold on the current source), `violation` (the
analysed construct is completely understood and contradicts the property) or
`undecided` (the analysis lost precision; nothing is claimed nor reported).
"""

import ast
import itertools
import time

from . import terms as T
from .terms import mk, const
from .interp import Interp, State
from .world import World, FunctionInfo, ClassInfo, AnchorError

OK, BAD, UNKNOWN = 'ok', 'violation', 'undecided'

# Operators whose meaning the comparison knows: two different normal forms
# built only from these (and from the same opaque calls) denote different
# things.
KNOWN_OPS = set('''const sym fld idx len poly ite eq lt in seq dict set upd sum
bind bnd iv exists new isinstance key keys strcat truth slice map cls fn ext
mod bool inv pow mul add not exc e s g m elt sorted undef
type floordiv items values lam call rounded'''.split()) | {'min with a constant'}

# Functions that lose part of what they are given: nothing computed without
# them is the same as something computed with them
LOSSY = {p + n for p in ('builtins.', 'numpy.', '.')
         for n in ('round', 'around', 'rint', 'floor', 'ceil', 'trunc')}

CALL_OPS = ('call', 'mcall', 'icall', 'rcall')

# Summaries of the content of an array
AGGREGATES = {p + n for p in ('builtins.', 'numpy.', '.')
              for n in ('max', 'min', 'any', 'all', 'sum', 'mean', 'argmax',
                        'argmin', 'prod', 'std')}

# Functions that reorder the axes of an array
TRANSPOSITIONS = {p + n for p in ('numpy.', '.')
                  for n in ('swapaxes', 'transpose', 'moveaxis', 'rollaxis')}


# Operators for which the order of the items does not matter
ORDERLESS = ('exists', 'sum', 'set', 'in', 'sorted', 'min')


def free_aggregates(t, want, names):
    """Those of the functions which t only applies to values of which the
    specification neither compares nor computes anything."""
    of = {}
    for x in T.subterms(t):
        if isinstance(x, T.Term) and x.op in CALL_OPS and callee(x) in names:
            of.setdefault(callee(x), []).append(
                x.args[0] if x.op == 'mcall' else
                x.args[1][0] if x.op == 'call' and x.args[1] else None)
    used = set()
    for x in T.subterms(want):
        if isinstance(x, T.Term) and (
                x.op in ('lt', 'eq', 'truth', 'exists', 'poly', 'sum', 'in',
                         'map', 'sorted')
                or x.op in CALL_OPS and callee(x) in AGGREGATES):
            used.update(y for y in T.subterms(x) if isinstance(y, T.Term))
    return {n for n, xs in of.items()
            if all(x is not None and x.op in ('sym', 'fld', 'idx') and
                   x not in used for x in xs)}


def reordered(a, b):
    """One term is the other with other axes."""
    for x, y in ((a, b), (b, a)):
        if x.op in CALL_OPS and callee(x) in TRANSPOSITIONS:
            base = x.args[0] if x.op == 'mcall' else (
                x.args[1] if x.op == 'icall' and x.args[0] == 'method' else
                (x.args[1] or (None,))[0] if x.op == 'call' else None)
            if base is y and y.op in ('sym', 'fld', 'idx'):
                return True
        if x.op == 'fld' and x.args[1] == 'T' and x.args[0] is y:
            return True
        if x.op == 'idx' and x.args[0] is y and \
                y.op in ('sym', 'fld', 'idx') and \
                x.args[1] is mk('slc', T.NONE, T.NONE, const(-1)):
            return True
    return False


def callee(t):
    """Name of the called function of a call term."""
    if t.op == 'call':
        return t.args[0]
    if t.op == 'mcall':
        return '.' + t.args[1]
    if t.op == 'rcall':
        return t.args[0]
    if t.op == 'icall':
        how, f, name = t.args[0], t.args[1], t.args[2]
        if name is not None:
            return name if how != 'method' else '.' + name
        return T.show(f, 4)
    return None


# Functions that differ on some input of any kind they accept
SIBLINGS = [(p + a, r + b) for a, b in [
    ('min', 'max'), ('argmin', 'argmax'), ('any', 'all'), ('zeros', 'ones'),
    ('floor', 'ceil'), ('nanmin', 'nanmax'), ('nanargmin', 'nanargmax'),
    ('startswith', 'endswith'), ('upper', 'lower'), ('sum', 'prod'),
    ('index', 'count'), ('union', 'intersection'), ('mean', 'sum'),
    ('zeros_like', 'ones_like'), ('exp', 'log'), ('lstrip', 'rstrip'),
    ('hstack', 'vstack'), ('count_nonzero', 'sum'), ('nanstd', 'nanmax'),
    ('nanmean', 'nanmax'), ('nansum', 'nanmax'), ('nanvar', 'nanmax'),
    ('std', 'max'), ('var', 'max'), ('mean', 'max'), ('std', 'var')]
    for p in ('', '.', 'np.', 'numpy.', 'builtins.', 'math.')
    for r in ('', '.', 'np.', 'numpy.', 'builtins.', 'math.')]

SIBLING_OF = {}
for _a, _b in SIBLINGS:
    SIBLING_OF.setdefault(_a, set()).add(_b)
    SIBLING_OF.setdefault(_b, set()).add(_a)

# Functions whose value only depends on their arguments
PURE_CALLS = set(p + n for n in '''zeros ones min max argmin argmax any all
    floor ceil round abs sqrt log exp sum mean prod arange full eye zeros_like
    ones_like asarray array nanmin nanmax isnan len sorted reversed list
    tuple'''.split()
    for p in ('', '.', 'np.', 'numpy.', 'builtins.', 'math.'))


def chains(t, out=None):
    """Inputs that a term reads: maximal chains of fields and constant items
    from a parameter."""
    out = set() if out is None else out
    seen = set()

    def chain(x):
        if x.op == 'sym':
            return True
        if x.op == 'fld' and isinstance(x.args[0], T.Term):
            return chain(x.args[0])
        if x.op == 'idx' and isinstance(x.args[0], T.Term) and \
                x.args[1].op == 'const':
            return chain(x.args[0])
        return False

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T.Term) or x in seen:
            return
        seen.add(x)
        if chain(x):
            out.add(x)
            return
        for y in x.args:
            go(y)
    go(t)
    return out


def prefix(a, b):
    """Whether chain a starts chain b."""
    while b is not a:
        if b.op == 'sym' or not isinstance(b.args[0], T.Term):
            return False
        b = b.args[0]
    return True


def left_undefined(t, want):
    """The term is the other one, with arrays that are not initialised."""
    out = {}
    return differences(t, want, out, 3) and bool(out) and all(
        isinstance(a, T.Term) and isinstance(b, T.Term) and
        a.op == 'empty' and b.op == 'zeros' and a.args == b.args
        for a, b in out.values())


def lost_dependence(t, want, calls):
    """The term is a function of its inputs only, and does not read an input
    of which the specification is a function."""
    o, c = vocabulary(t)
    if not c <= (calls | PURE_CALLS) or o & {'mu', 'lres', 'unsupported',
                                             'bottom', 'closure', 'ref',
                                             'obj', 'raises', 'maybe'}:
        return False
    g, w = chains(t), chains(want)
    return any(not any(prefix(x, y) or prefix(y, x) for x in g) for y in w)


def spliced(i):
    """Sequence that includes all items of one of unknown length."""
    return i.op == 'seq' and any(
        p[0] == 's' and p[1].op in ('elt', 'idx', 'fld', 'sym', 'key')
        for p in i.args)


def vocabulary(t):
    ops, calls = set(), set()
    for x in T.subterms(t):
        if not isinstance(x, T.Term):
            continue
        if x.op == 'call' and callee(x) == 'builtins.max' and any(
                T.is_num(y) and T.num(y) > 0 for y in x.args[1]) and all(
                T.is_num(y) or y.op == 'sym' for y in x.args[1]) or \
                x.op == 'call' and callee(x) == 'builtins.max' and \
                len(x.args[1]) == 2 and all(
                    y.op in ('sym', 'fld', 'len') for y in x.args[1]):
            ops.add('call')  # not the value of the argument
        elif x.op in CALL_OPS:
            calls.add(callee(x))
        elif x.op == 'min' and any(T.is_num(y) for y in x.args) and \
                not T.any_op(x, 'len'):
            ops.add('min with a constant')
        else:
            ops.add(x.op)
        if x.op in ('idx', 'upd') and spliced(x.args[1]) or \
                x.op == 'updall' and any(
                    spliced(y) for y in T.subterms(x.args[2])
                    if isinstance(y, T.Term)):
            ops.add('index with unknown components')
        if x.op == 'fld' and x.args[1] in ('shape', 'size', 'ndim', 'dtype') \
                and x.args[0].op not in ('sym', 'fld'):
            ops.add('shape of a computed array')
    return ops, calls


def other_axes(t, want):
    """Whole axes are only taken in tables of which the specification takes
    items too."""
    full = FULL()

    def tables(t):
        return {x.args[0] for x in T.subterms(t)
                if isinstance(x, T.Term) and x.op == 'idx'}
    known = tables(want)
    for x in T.subterms(t):
        if not isinstance(x, T.Term) or x.op == 'slc':
            continue
        if x.op == 'seq' and any(isinstance(p[1], T.Term) and
                                 p[1].op == 'slc' for p in x.args):
            if not all(p[0] == 'e' and (p[1].op != 'slc' or p[1] is full)
                       for p in x.args):
                return False
        elif any(isinstance(y, T.Term) and y.op == 'slc' for y in x.args):
            return False
        if x.op == 'idx' and x.args[0] not in known and \
                x.args[1].op == 'seq' and any(
                    isinstance(p[1], T.Term) and p[1].op == 'slc'
                    for p in x.args[1].args):
            return False
    return True


def understood(t, calls=(), ops=(), want=None):
    """Whether the term only uses operators with a known meaning, or calls to
    the given functions."""
    if want is not None:
        # the same loops in both
        loops = {x for x in T.subterms(t) if x.op in ('mu', 'lres')}
        if loops:
            loops &= {x for x in T.subterms(want) if isinstance(x, T.Term)}
            if loops:
                m = {x: mk('sym', 'loop%d' % i)
                     for i, x in enumerate(sorted(loops, key=lambda x: x.id))}
                t, want = T.subst(t, m), T.subst(want, m) \
                    if isinstance(want, T.Term) else want
    o, c = vocabulary(t)
    calls = set(calls) | LOSSY
    if 'empty' in o and 'zeros' in ops and want is not None and \
            left_undefined(t, want):
        ops = set(ops) | {'empty'}
    if 'zeros' in ops or 'ones' in ops:
        ops = set(ops) | {'zeros', 'ones'}
    for a in list(calls):
        calls |= SIBLING_OF.get(a, set())
    if 'closure' in o:
        return False
    if c - calls and c - calls <= AGGREGATES and want is not None:
        c = c - free_aggregates(t, want, c - calls)
    if o - KNOWN_OPS - set(ops) == {'slc'} and want is not None and \
            other_axes(t, want):
        o = o - {'slc'}
    if not (o <= (KNOWN_OPS | set(ops)) and c <= calls):
        return want is not None and lost_dependence(t, want, calls)
    if o & {'mu', 'lres'}:
        return want is not None and (loops_comparable(t, want) or
                                     one_point(((t, want),), calls, ops))
    return True


def differences(a, b, out, limit=1, seen=None):
    """Collects the minimal pairs of different subterms at the same place of
    two terms. False when there are more than the limit."""
    if a is b:
        return True
    seen = set() if seen is None else seen
    if (id(a), id(b)) in seen:
        return True
    seen.add((id(a), id(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(differences(x, y, out, limit, seen) for x, y in zip(a, b))
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        if a.op == b.op and len(a.args) == len(b.args) and \
                a.op in STRUCTURE:
            return all(differences(x, y, out, limit, seen)
                       for x, y in zip(a.args, b.args))
        if a.op == b.op == 'poly':
            pairs = poly_pairs(a, b)
            if pairs is not None:
                return all(differences(x, y, out, limit, seen)
                           for x, y in pairs)
        key = (skeleton(a), skeleton(b))
        out.setdefault(key, (a, b))
        return len(out) <= limit
    return a == b and type(a) is type(b)


def poly_pairs(a, b):
    """Factors that take each other's place in two polynomials with the same
    coefficients and exponents, or None."""
    p, q = dict(T._as_poly(a)), dict(T._as_poly(b))
    for m in [m for m in p if q.get(m) == p[m]]:
        del p[m], q[m]
    if len(p) != 1 or len(q) != 1:
        return None
    (m, c), = p.items()
    (n, d), = q.items()
    if c != d:
        return None
    x = [f for f in m if f not in n]
    y = [f for f in n if f not in m]
    if len(x) != len(y) or not x:
        return None
    if len(x) > 1:
        # by exponent
        x.sort(key=lambda f: f[1])
        y.sort(key=lambda f: f[1])
        if len(set(f[1] for f in x)) != len(x):
            return None
    if [f[1] for f in x] != [f[1] for f in y]:
        return None
    return [(f[0], g[0]) for f, g in zip(x, y)]


# Operators inside which a difference is located
STRUCTURE = {'mu', 'lres', 'each', 'bind', 'bnd', 'ev', 'iters', 'ite', 'upd',
             'tup', 'seq', 'not', 'rcall', 'icall', 'mcall', 'call', 'idx',
             'updall', 'exists', 'raises', 'strcat', 'new', 'len', 'arrcmp',
             'fld', 'not', 'pyint', 'slice', 'indexof'}


def skeleton(x, memo=None):
    """The term, whatever the loops it is in."""
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return mk('tup', *[skeleton(y, memo) for y in x])
    if not isinstance(x, T.Term):
        return const(x)
    if x in memo:
        return memo[x]
    if x.op in ('bnd', 'mub', 'iv'):
        out = mk('sym', '?')
    else:
        out = mk('tup', const(x.op), *[skeleton(y, memo) for y in x.args])
    memo[x] = out
    return out


def one_point(pairs, calls, ops):
    """The terms follow those of the specification but for one understood
    subterm (the same one wherever they differ)."""
    out = {}
    for a, b in pairs:
        if not differences(a, b, out, 8):
            return False
    if len(out) > 1:
        # the others may contain the smallest one
        (a, b) = min(out.values(), key=lambda d: (
            sum(1 for _ in T.subterms(d[0])) + sum(
                1 for _ in T.subterms(d[1]))))
        try:
            if a.op in ('const', 'mub', 'iv', 'bnd') or not all(
                    same(T.subst(x, {a: b}), y) for x, y in pairs):
                return False
        except T.Limit:
            return False
        out = {0: (a, b)}
    if len(out) != 1:
        return False
    (a, b), = out.values()
    if reordered(a, b) and not any(
            isinstance(y, T.Term) and y.op in ORDERLESS
            for x, _ in pairs for y in T.subterms(x)):
        return True
    for x in (a, b):
        o, c = vocabulary(x)
        if o & {'mu', 'lres', 'closure', 'unsupported', 'bottom'}:
            return False
    o, c = vocabulary(a)
    if a.op in ('ite', 'slc') and not (
            a.op == 'ite' and any(y.op in ('idx', 'upd') and T.any_op(
                y, 'slc') for y in T.subterms(a) if isinstance(y, T.Term))):
        # an index: the whole axis instead of one place
        if all(all(z is T.NONE for z in y.args) for y in T.subterms(a)
               if isinstance(y, T.Term) and y.op == 'slc'):
            o.discard('slc')
    ops = set(ops)
    if ops & {'zeros', 'ones'}:
        ops |= {'zeros', 'ones'}
    # calls that the specification makes at the same place
    common = {callee(x) for x in T.subterms(a) if isinstance(x, T.Term) and
              x.op in CALL_OPS and callee(x) not in calls}
    common = {n for n in common if all(
        x in set(T.subterms(b)) for x in T.subterms(a)
        if isinstance(x, T.Term) and x.op in CALL_OPS and callee(x) == n)}
    return o <= (KNOWN_OPS | ops | {'mub'}) and c - common <= set(calls)


def other_records(t, want, calls, ops):
    """A list with one item per iteration, none of which comes from the call
    of which the specification records the results."""
    if t.op != 'seq' or len(t.args) != 1 or t.args[0][0] != 'm' or \
            want.op != 'lres' or not isinstance(want.args[2][0], tuple):
        return False
    init, step = want.args[2][0]
    item = T.open_bind(t.args[0][2], T.fresh_iv())
    if init is not T.seq() or step.op != 'seq' or len(step.args) != 2 or \
            step.args[0][0] != 's' or step.args[0][1].op != 'mub' or \
            step.args[1][0] != 'e' or item.op != 'seq' or \
            len(item.args) != 1 or item.args[0][0] != 'e':
        return False
    rec = step.args[1][1]
    while rec.op == 'idx' and T.is_int(rec.args[1]):
        rec = rec.args[0]
    o, c = vocabulary(item)
    return rec.op == 'icall' and callee(rec) not in c and c <= calls and \
        o <= KNOWN_OPS | ops | {'iv'}


def loops_comparable(t, want):
    """Summaries of loops without closed form only contradict a specification
    that they follow but for one component (domain, exits, initial values or
    step)."""
    ws = [x for x in T.subterms(want) if x.op in ('mu', 'lres')]
    inner = {}
    xs = [x for x in T.subterms(t) if x.op in ('mu', 'lres')]
    for y in sorted(xs, key=lambda x: sum(1 for _ in T.subterms(x))):
        try:
            x = T.subst(y, inner) if inner else y
        except T.Limit:
            return False
        if x.op in ('mu', 'lres') and x not in ws:
            for w in ws:
                if len(w.args[2]) > len(x.args[2]) and dropped(x, w):
                    break
                if len(w.args[2]) != len(x.args[2]):
                    continue
                d = [w.args[0] is not x.args[0], w.args[1] is not x.args[1],
                     [i for i, _ in w.args[2]] != [i for i, _ in x.args[2]],
                     [n for _, n in w.args[2]] != [n for _, n in x.args[2]]]
                if d[0] and d[1] and same_exits(w, x):
                    d[1] = False
                if d[0] and d[3] and same_steps(w, x):
                    d[3] = False
                if sum(d) <= 1:
                    inner[y] = w
                    break
            else:
                return False
    return True


def extra_update(t, want):
    """Each iteration also gives another value, that does not depend on
    those of the table, to a whole part of the table of which the
    specification only sets items."""
    if t.op != 'lres' or want.op != 'updall' or len(t.args[2]) != 1:
        return False
    init, step = t.args[2][0]
    if init is not want.args[0] or t.args[0] is not want.args[1] or \
            step.op != 'upd' or step.args[0].op != 'upd':
        return False
    c, k, v = T.seq_literal(T.open_bind(
        want.args[2], mk('mub', 1, -1))) or (None, None, None)
    base, k2, v2 = step.args[0].args
    if c is not T.TRUE or step.args[1] is not k or step.args[2] is not v or \
            base.op != 'mub' or T.any_op(v2, 'mub') or k.op != 'seq':
        return False
    return (k2.op == 'seq' and k2.args == k.args[:len(k2.args)] or
            ('e', k2) == k.args[0]) and not T.is_str(v2)


def same_exits(w, x):
    """While they go on, the loops are left under the same condition."""
    if w.args[0].op != 'iters' or x.args[0].op != 'iters':
        return False
    conds = [l.args[0].args[0] for l in (w, x)]
    if not all(isinstance(c, T.Term) for c in conds):
        return False
    return T.constrain(w.args[1], conds[0]) is T.constrain(
        x.args[1], conds[1])


def same_steps(w, x):
    """While they go on, the loops do the same."""
    if w.args[0].op != 'iters' or x.args[0].op != 'iters':
        return False
    conds = [l.args[0].args[0] for l in (w, x)]
    if not all(isinstance(c, T.Term) for c in conds):
        return False
    return all(T.constrain(a, conds[0]) is T.constrain(b, conds[1])
               for (_, a), (_, b) in zip(w.args[2], x.args[2]))


def dropped(x, w):
    """The loop is the one of the specification, without the updates of some
    of its variables."""
    if x.op != w.op or len(w.args[2]) > 6:
        return False
    import itertools
    n, m = len(w.args[2]), len(x.args[2])
    marks = sorted(set(t.args[0] for t in T.subterms(w)
                       if isinstance(t, T.Term) and t.op == 'mub'))
    own = sorted(set(t.args[0] for t in T.subterms(x)
                     if isinstance(t, T.Term) and t.op == 'mub'))
    if not marks or not own:
        return False
    a, b = marks[-1], own[-1]
    for keep in itertools.combinations(range(n), m):
        new = {mk('mub', a, i): mk('mub', b, keep.index(i)) if i in keep
               else w.args[2][i][0] for i in range(n)}
        new[mk('mub', a, -1)] = mk('mub', b, -1)
        try:
            parts = [(w.args[2][i][0], T.subst(w.args[2][i][1], new))
                     for i in keep]
            if all(p is q for (p, _), (q, _) in zip(parts, x.args[2])) and \
                    sum(r is not s for (_, r), (_, s) in zip(
                        parts, x.args[2])) <= (w.args[0] is x.args[0] and
                                               w.args[1] is x.args[1]):
                return True
        except T.Limit:
            return False
    return False


class Obligation(object):

    def __init__(self, rule, construct, verdict, detail, where):
        self.rule = rule
        self.construct = construct
        self.verdict = verdict
        self.detail = detail
        self.where = where

    def key(self):
        return '%s @ %s' % (self.rule, self.construct)


class Ctx(object):

    def __init__(self, world, prop, tier='quick'):
        self.world = world
        self.prop = prop
        self.tier = tier
        self.obligations = []
        self.notes = []
        self.functions = set()
        self.events = 0
        self.call_sites = set()
        self.runs = 0
        self.nspec = 0
        self.unresolved = set()     # methods whose receiver is not known

    # ---- recording

    def add(self, rule, construct, verdict, detail='', where=''):
        if not isinstance(construct, str):
            construct = name_of(construct)
        if verdict == BAD and self.unresolved:
            verdict = UNKNOWN
            detail = 'calls of unknown objects (%s): %s' % (
                ', '.join(sorted(self.unresolved)), detail)
        self.obligations.append(
            Obligation(rule, construct, verdict, detail, where))
        return verdict

    def ok(self, rule, construct, detail=''):
        return self.add(rule, construct, OK, detail)

    def bad(self, rule, construct, detail, where=''):
        return self.add(rule, construct, BAD, detail, where)

    def unknown(self, rule, construct, detail=''):
        return self.add(rule, construct, UNKNOWN, detail)

    def decide(self, rule, construct, cond, detail='', where=''):
        """cond: True, False or None (undecided)."""
        v = OK if cond is True else BAD if cond is False else UNKNOWN
        return self.add(rule, construct, v, detail if v != OK else '', where)

    def proved(self, since):
        """All the obligations recorded since then hold."""
        return all(o.verdict == OK for o in self.obligations[since:])

    # ---- analysis

    def interp(self, **kw):
        return Interp(self.world, **kw)

    def run(self, q, args=None, cls=None, types=None, setup=None, spec=None,
            self_term=None, hints=None, **kw):
        """Abstract evaluation of a function (given by qualified name) on
        symbolic arguments."""
        fi = q if isinstance(q, FunctionInfo) else self.world.fn(q)
        I = Interp(self.world, hints={
            k: self.world.cls(v) if isinstance(v, str) else v
            for k, v in (hints or {}).items()}, **kw)
        st = State()
        self_ = None
        owner = fi.cls
        if owner is not None and 'staticmethod' not in fi.decorators:
            c = self.world.cls(cls) if isinstance(cls, str) else cls or owner
            if self_term is not None:
                self_ = self_term
            elif 'classmethod' in fi.decorators:
                self_ = mk('cls', c.qualname)
            else:
                self_ = mk('sym', 'self')
                I.set_type(self_, c)
        for k, v in (types or {}).items():
            if v in ('set', 'dict', 'list', 'str', 'array'):
                I.term_kind[mk('sym', k)] = v
                continue
            c = self.world.cls(v) if isinstance(v, str) else v
            I.set_type(mk('sym', k) if isinstance(k, str) else k, c)
        if setup is not None:
            setup(I, st)
        r = I.run(fi, args=args, self_term=self_, st=st)
        r.fi = fi
        if spec is None:
            self.record(I)
        return r

    def record(self, I):
        self.runs += 1
        self.events += len(I.events)
        for f in I.analysed:
            if not f.qualname.startswith('<spec>'):
                self.functions.add(f.qualname)
        for e in I.events:
            if e.kind in ('call', 'pcall', 'enter', 'new') and e.fn is not None:
                self.call_sites.add((e.fn.qualname,
                                     getattr(e.node, 'lineno', 0),
                                     getattr(e.node, 'col_offset', 0)))

    def spec(self, source, like=None, module=None, cls=None):
        """FunctionInfo of a reference function (specification text), whose
        names are resolved in the module of `like`."""
        if like is not None:
            fi = like if isinstance(like, FunctionInfo) else self.world.fn(like)
            module, cls = fi.module, fi.cls
            outer = fi.outer
        else:
            module = self.world.modules['task_models.' + module]
            cls = self.world.cls(cls) if isinstance(cls, str) else cls
            outer = None
        import textwrap
        tree = ast.parse(textwrap.dedent(source))
        node = tree.body[0]
        self.nspec += 1
        f = FunctionInfo(node, module, '<spec>%d.%s' % (self.nspec, node.name),
                         cls, outer)
        f.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.world._scan_fn(f)
        self.world.node_fn[node] = f
        for s in node.body:
            self.world._index_stmt(s, module, f.qualname, None, f)
        return f

    # ---- comparing terms

    def compare(self, rule, construct, got, want, calls=(), ops=(), where='',
                what='value'):
        """got must denote the same as want."""
        v = same(got, want)
        if v is None:
            got, want = sized(got, want)
            got, want = unordered(got), unordered(want)
            v = same(got, want)
        if v is None and same_by_cases(got, want):
            v = True
        if v is None:
            extra = vocabulary(want)
            if understood(got, set(calls) | extra[1], set(ops) | extra[0],
                          want) or differs_in_a_case(
                              got, want, set(calls) | extra[1],
                              set(ops) | extra[0]) or other_records(
                                  got, want, set(calls) | extra[1],
                                  set(ops) | extra[0]) or \
                    extra_update(got, want):
                v = None if objects_only(got, want) or \
                    unknown_containers(got, want) else False
        if v is None:
            names = unassigned(got) - unassigned(want)
            if names:
                return self.bad(rule, construct, '%s uses local variable %s '
                                'where nothing has assigned it: %s' % (
                                    what, ', '.join(sorted(names)),
                                    T.show(got, 8)[:700]), where)
        detail = ''
        if v is not True:
            detail = '%s is %s, expected %s' % (
                what, T.show(got, 8)[:700], T.show(want, 8)[:700])
        return self.decide(rule, construct, v, detail, where)

    def implies(self, rule, construct, got, want, calls=(), ops=(), where='',
                what='condition'):
        """Condition got must imply condition want."""
        if T.implies(got, want):
            return self.ok(rule, construct)
        extra = vocabulary(want)
        v = None
        if understood(got, set(calls) | extra[1], set(ops) | extra[0], want):
            v = False
        return self.decide(rule, construct, v, '%s %s does not imply %s' % (
            what, T.show(got, 8)[:700], T.show(want, 8)[:700]), where)


def unknown_containers(got, want):
    """Whether the difference is only that the items of a container are taken
    for keys in one and for values in the other."""
    def plain_items(t):
        m = {x: mk('idx', x.args[0], x.args[1]) for x in T.subterms(t)
             if isinstance(x, T.Term) and x.op == 'key'}
        return replace(t, m)
    keys = [any(isinstance(x, T.Term) and x.op == 'key'
                for x in T.subterms(t)) for t in (got, want)]
    return any(keys) and plain_items(got) is plain_items(want)


def replace(t, m):
    """Replaces terms, below the binders too."""
    if isinstance(t, tuple):
        return tuple(replace(x, m) for x in t)
    if not isinstance(t, T.Term) or not t.args:
        return t
    new = tuple(replace(x, m) for x in t.args)
    r = t if all(x is y or x == y for x, y in zip(new, t.args)) else mk(
        t.op, *new)
    if t in m:
        return mk('idx', *r.args)
    return r


_unordered = {}


def unordered(t):
    """Mappings written out with constant keys are the same in any order."""
    if isinstance(t, tuple):
        return tuple(unordered(x) for x in t)
    if not isinstance(t, T.Term) or not t.args:
        return t
    r = _unordered.get(t)
    if r is not None:
        return r
    new = tuple(unordered(x) for x in t.args)
    if t.op == 'dict' and len(new) > 1 and all(
            p[0] == 'e' and T.is_str(p[1]) for p in new) and \
            len(set(p[1] for p in new)) == len(new):
        new = tuple(sorted(new, key=lambda p: T.cval(p[1])))
    if all(x is y or x == y for x, y in zip(new, t.args)):
        r = t
    else:
        r = T.rebuild(t.op, new)
    r = array_form(r)
    _unordered[t] = r
    return r


MADE = ('zeros', 'ones', 'empty', 'full')


def array_form(t):
    """One form for what can be written in several with arrays."""
    if t.op == 'idx' and t.args[1].op == 'seq' and len(t.args[1].args) > 1:
        parts = t.args[1].args
        # x[i, j] and x[i][j]
        if all(p[0] == 'e' for p in parts) and (
                parts[0][1].op in ('sym', 'fld', 'iv', 'bnd', 'mub', 'idx',
                                   'len', 'icall', 'rcall', 'call') or
                T.is_int(parts[0][1])):
            rest = parts[1:]
            return array_form(T.idx(
                T.idx(t.args[0], parts[0][1]),
                rest[0][1] if len(rest) == 1 and rest[0][1].op != 'seq'
                else T.seq(*rest)))
    if t.op == 'upd' and t.args[2].op == 'upd' and \
            t.args[2].args[0] is T.idx(t.args[0], t.args[1]) and \
            t.args[1].op not in ('seq', 'slc') and T.any_op(t.args[0],
                                                            *MADE):
        # x[i][j] = v and x[i, j] = v
        k = t.args[2].args[1]
        if k.op not in ('slc', 'ite'):
            return mk('upd', t.args[0], T.seq_concat(
                T.seq_elems(t.args[1]), k if k.op == 'seq' else
                T.seq_elems(k)), t.args[2].args[2])
    if t.op == 'icall' and t.args[0] == 'method' and t.args[2] == 'dot' and \
            len(t.args[3]) == 1 and not t.args[4]:
        recv, (b,) = t.args[1], t.args[3]
        if recv.op == 'fld' and recv.args[1] == 'T' and recv is not b:
            # x.T.dot(b) and b.dot(x)
            return mk('icall', 'method', b, 'dot', (recv.args[0],),
                      *t.args[4:])
    if t.op == 'mcall' and t.args[1] == 'dot' and len(t.args[2]) == 1 and \
            not t.args[3]:
        recv, (b,) = t.args[0], t.args[2]
        if recv.op == 'fld' and recv.args[1] == 'T' and recv is not b:
            return mk('mcall', b, 'dot', (recv.args[0],), ())
    if t.op == 'mcall' and t.args[1] == 'sum' and t.args[0].op == 'mcall' \
            and t.args[0].args[1] == 'sum':
        # over the first and the last axes, in any order
        axes = [dict(x.args[3]).get('axis') for x in (t.args[0], t)]
        if all(len(x.args[3]) == 1 and not x.args[2]
               for x in (t.args[0], t)) and set(axes) == {
                   T.ZERO, const(-1)}:
            return mk('mcall', t.args[0].args[0], 'sum', (), (
                ('axis', T.seq_elems(T.ZERO, const(-1))),))
    if t.op == 'mcall' and t.args[1] in ('argmax', 'argmin', 'max', 'min',
                                         'sum') and \
            not t.args[2] and not t.args[3] and t.args[0].op == 'mcall' and \
            t.args[0].args[1] == 'dot' and len(t.args[0].args[2]) == 1:
        # of a column, or of the vector
        dot = t.args[0]
        b = dot.args[2][0]
        if b.op == 'idx' and b.args[1] is T.seq_elems(FULL(), T.NONE):
            return mk('mcall', mk('mcall', dot.args[0], 'dot', (b.args[0],),
                                  ()), t.args[1], (), ())
    return t


def FULL():
    return mk('slc', T.NONE, T.NONE, T.NONE)


def open_shape(t, memo):
    """The term, whatever the index of the loop it is in."""
    if isinstance(t, tuple):
        return tuple(open_shape(x, memo) for x in t)
    if not isinstance(t, T.Term):
        return t
    if t.op in ('bnd', 'iv'):
        return '*'
    if t.op in ('const', 'sym'):
        return t
    r = memo.get(t)
    if r is None:
        r = memo[t] = mk('skeleton', t.op, open_shape(t.args, memo))
    return r


def sized(*ts):
    """The truth of values whose length is taken is that of their length."""
    lens, truths, shapes, nones = set(), set(), {}, set()
    for t in ts:
        for x in T.subterms(t):
            if isinstance(x, T.Term):
                if x.op == 'eq' and T.NONE in x.args:
                    nones.update(x.args)
                if x.op == 'len':
                    lens.add(x.args[0])
                elif x.op == 'truth':
                    truths.add(x.args[0])
    if not lens or not truths:
        return ts
    lens = {open_shape(x, shapes) for x in lens}
    if not any(open_shape(x, shapes) in lens for x in truths):
        return ts
    memo = {}

    def rewritten(t):
        if isinstance(t, tuple):
            return tuple(rewritten(x) for x in t)
        if not isinstance(t, T.Term) or not t.args or \
                not T.any_op(t, 'truth'):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'bind':
            iv = T.fresh_iv()
            r = T.close_bind(iv, rewritten(T.open_bind(t, iv)))
        elif t.op == 'truth' and open_shape(t.args[0], shapes) in lens:
            r = T.not_(T.eq(T.length(rewritten(t.args[0])), T.ZERO))
            if t.args[0] in nones:
                r = T.and_(T.not_(T.eq(t.args[0], T.NONE)), r)
        else:
            new = rewritten(t.args)
            r = t if all(x is y or x == y for x, y in zip(new, t.args)) \
                else T.rebuild(t.op, new)
        memo[t] = r
        return r
    return tuple(rewritten(t) for t in ts)


def objects_only(a, b):
    """Whether the terms only differ by testing items of collections
    against None or for their truth."""
    nones = {x.args[0] if x.args[1] is T.NONE else x.args[1]
             for t in (a, b) for x in T.subterms(t)
             if x.op == 'eq' and T.NONE in x.args}
    m = {x: T.not_(T.eq(T.NONE, x.args[0])) for t in (a, b)
         for x in T.subterms(t) if x.op == 'truth' and x.args[0] in nones and
         T.any_op(x.args[0], 'mub', 'bnd')}
    return bool(m) and same(*[T.subst(t, m) for t in (a, b)]) is True


def same(a, b):
    """True, False or None."""
    if a is b:
        return True
    if not isinstance(a, T.Term) or not isinstance(b, T.Term):
        return None
    e = T.eq(a, b)
    if e is T.TRUE:
        return True
    if e is T.FALSE:
        return False
    return None


def open_atoms(t, out, memo=None):
    """Conditions decided in t, at any depth, that do not depend on the
    variables of its loops. Returns the variables t depends on."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r = r | open_atoms(x, out, memo)
        return r
    if not isinstance(t, T.Term):
        return frozenset()
    r = memo.get(t)
    if r is not None:
        return r
    r = frozenset()
    for x in t.args:
        r = r | open_atoms(x, out, memo)
    if t.op in ('bnd', 'mub', 'iv', 'rec'):
        r = frozenset([t])
    elif t.op == 'bind':
        r = r - {mk('bnd', t.args[0])}
    elif t.op == 'mu':
        r = frozenset(x for x in r if x.op != 'mub')
    elif t.op == 'ite' and not memo[t.args[0]]:
        out.setdefault(t.args[0], None)
    memo[t] = r
    return r


def decided(t, atom, val):
    """t, wherever the condition (and those it settles) is decided in it."""
    found = {}
    open_atoms(t, found)
    m = {}
    for x in found:
        i = T._implied(atom, val, x)
        if i is not None:
            m[x] = T.TRUE if i else T.FALSE
    t = T.subst(t, m)
    if val and atom.op == 'eq':
        t = T.subst(t, solved(atom))
    return t


def solved(atom):
    """An equality of numbers, as the replacement of one term."""
    if not any(x.op in ('poly', 'len') for x in atom.args):
        return {}
    d = T.sub(*atom.args)
    if d.op != 'poly':
        return {}
    alone = []
    for m, c in d.args:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            x = m[0][0]
            if not any(T.contains(y, x) for m2, _ in d.args if m2 != m
                       for y, _ in m2):
                alone.append((x.op == 'len', x.id, x, c))
    if not alone:
        return {}
    x, c = max(alone, key=lambda y: y[:2])[2:]
    # c * x + rest is 0
    rest = T.sub(d, T.mul(const(c), x))
    return {x: T.neg(rest) if c > 0 else rest}


def same_by_cases(a, b, budget=None):
    """Whether the terms are the same in each case of the conditions decided
    inside them (a bounded number of cases)."""
    budget = [300] if budget is None else budget
    v = same(a, b)
    if v is not None:
        return v
    budget[0] -= 1
    if budget[0] < 0:
        return False
    found = {}
    open_atoms(a, found)
    open_atoms(b, found)
    # conditions that are themselves without conditions first
    for x in found:
        inner = {}
        open_atoms(x.args, inner)
        if not inner:
            break
    else:
        return False
    try:
        return all(same_by_cases(decided(a, x, val), decided(b, x, val),
                                 budget) for val in (True, False))
    except T.Limit:
        return False


def unassigned(t):
    """Local variables that are read on a path that never assigns them."""
    return {x.args[0][len('unbound '):] for x in T.subterms(t)
            if isinstance(x, T.Term) and x.op == 'unsupported' and
            isinstance(x.args[0], str) and x.args[0].startswith('unbound ')}


def differs_in_a_case(a, b, calls, ops, depth=3):
    """The terms differ in one case of an understood condition that is only
    made by the first one."""
    out = {}
    if differences(a, b, out) and len(out) == 1 and \
            reordered(*list(out.values())[0]):
        return True
    found, known = {}, {}
    open_atoms(a, found)
    open_atoms(b, known)
    if depth == 0:
        return False
    if not any(x not in known for x in found):
        return False
    for x in sorted(found, key=lambda x: x in known)[:6]:
        own = {callee(y) for y in T.subterms(x)
               if isinstance(y, T.Term) and y.op == 'rcall' and
               all(z.op in ('sym', 'fld') for z in y.args[1])}
        if not understood(x, calls | own, ops, b):
            continue
        for val in (True, False):
            try:
                g, w = decided(a, x, val), decided(b, x, val)
                if same_by_cases(g, w):
                    continue
                if understood(g, calls, ops, w) or \
                        differs_in_a_case(g, w, calls, ops, depth - 1):
                    return True
            except T.Limit:
                pass
    return False


def name_of(x):
    if isinstance(x, FunctionInfo):
        return x.qualname.replace('task_models.', '')
    if isinstance(x, ClassInfo):
        return x.qualname.replace('task_models.', '')
    if hasattr(x, 'where'):
        return x.where
    return str(x)


# ---------------------------------------------------------------- canonical
# form of what is observed (loop summaries do not mention the names and the
# order of the variables of the program)

class Canon(object):

    def __init__(self, I):
        self.I = I
        self.by_dom = {}
        for l in I.all_loops:
            if l.dom is not None and l.dom.op == 'iters':
                self.by_dom[l.dom] = l
        self.memo = {}
        self.busy = set()
        self.open = ()

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T.Term):
            return t
        for _ in range(12):
            m = {}
            for x in T.subterms(t):
                if x.op == 'len' and x in self.I.len_of and (
                        x.args[0].op == 'loopout' or
                        self.I.loop_of_rec[x.args[0]][0] in self.busy or
                        self.I.loop_of_rec[x.args[0]][0] in self.open):
                    r = self.I.len_of[x]
                elif x.op in ('rec', 'loopout') and x in self.I.loop_of_rec:
                    r = self.rec(x)
                elif x.op == 'iters' and x in self.by_dom:
                    r = self.iters(x)
                else:
                    continue
                if r is not x:
                    m[x] = r
            if not m:
                return t
            t = T.subst(t, m)
        return t

    def rec(self, x):
        loop, loc = self.I.loop_of_rec[x]
        if loop in self.busy:
            return x
        if x in self.memo:
            return self.memo[x]
        if x.op == 'rec':
            r = x
        else:
            r = [k for k in loop.recs
                 if self.I.loop_of_rec.get(k, (0, 0))[1] == loc]
            if not r:
                return x
            r = r[0]
        c = self.alone(loop, lambda: self.system(loop, [r]))
        c = mk('mu' if x.op == 'rec' else 'lres', *c)
        self.memo[x] = c
        return c

    def alone(self, loop, f):
        """The values of the enclosing loops stay open."""
        busy = self.busy
        self.busy = set(loop.outer) | {loop}
        try:
            return f()
        finally:
            self.busy = busy

    def system(self, loop, heads):
        """Recurrences of a loop that the heads (and the end of the loop)
        depend on: (domain, condition to leave, ((initial, next), ...))."""
        reach = list(heads)
        nxts, inits = {}, {}
        stop = self(self.snap(loop.exits))
        D = NONE_ if loop.dom is None else loop.dom
        if loop.dom is not None and loop.dom.op == 'iters':
            D = mk('iters', 'unknown' if loop.cond is None
                   else self(loop.cond))
        for z in T.subterms((D, stop)):
            if z in loop.recs and z not in reach:
                reach.append(z)
        todo = list(reach)
        while todo:
            y = todo.pop(0)
            init, nxt = loop.recs[y]
            inits[y] = self(self.snap(init))
            nxts[y] = self(self.snap(nxt))
            for z in T.subterms(nxts[y]):
                if z in loop.recs and z not in reach:
                    reach.append(z)
                    todo.append(z)
        rest = sorted(reach[len(heads):],
                      key=lambda y: (T.show(inits[y], 6), y.args[1]))
        order = heads + rest
        level = 1 + max([0] + [z.args[0] for y in order
                               for z in T.subterms((inits[y], nxts[y], D, stop))
                               if z.op == 'mub'])
        ph = {y: mk('mub', level, i) for i, y in enumerate(order)}
        ph[loop.iv] = mk('mub', level, -1)
        return (T.subst(D, ph), T.subst(stop, ph),
                tuple((inits[y], T.subst(nxts[y], ph)) for y in order))

    def snap(self, t):
        return t

    def iters(self, x):
        loop = self.by_dom[x]
        if loop in self.busy:
            return x
        if x in self.memo:
            return self.memo[x]
        if loop.cond is None:
            return x
        D, ex, sys_ = self.alone(loop, lambda: self.system(loop, []))
        r = mk('mu', D, ex, sys_) if sys_ else D
        self.memo[x] = r
        return r


NONE_ = T.NONE


def closed(canon, e, body):
    """Closes a term over the loops enclosing an event."""
    canon.open = e.loops
    t = canon(body)
    canon.open = ()
    for l in reversed(e.loops):
        d = canon(l.dom) if l.dom is not None else mk('iters', 'unknown')
        if l.leaves is not T.FALSE:
            canon.open = e.loops
            x = canon(l.leaves)
            canon.open = ()
            if not (T.free(x) & set(k.iv for k in e.loops if k is not l)):
                d = mk('until', d, T.close_bind(l.iv, x))
        t = mk('each', d, T.close_bind(l.iv, t))
    return t


def lifted(x):
    """A tuple of decision diagrams as a diagram of tuples."""
    if x.op != 'tup' or not all(isinstance(y, T.Term) for y in x.args):
        return x
    xs = [lifted(y) for y in x.args]
    n = 1
    for y in xs:
        n *= len(T.leaves(y)) if y.op == 'ite' else 1
    if n == 1:
        return x
    if n > 8:
        return x
    try:
        return T.lift(make_tup, *xs)
    except T.Limit:
        return x


def make_tup(*xs):
    return mk('tup', *xs)


def event_table(r, pick, canon=None):
    """Effects of a run, in canonical form: {effect: condition}, where
    pick(event) gives the tuple of terms that identifies the effect (or
    None)."""
    canon = canon or Canon(r.interp)
    out = {}
    once = getattr(pick, 'once', ())
    for e in r.events:
        d = pick(e)
        if d is None:
            continue
        combos = [((), e.pc)]
        for x in d:
            nxt = []
            x = x if isinstance(x, T.Term) else const(x) \
                if not isinstance(x, tuple) else mk('tup', *x)
            x = lifted(x)
            for pre, pc in combos:
                cs = T.cases(x, pc) if x.op == 'ite' and len(
                    T.leaves(x)) <= 8 else [(pc, x)]
                for c, leaf in cs:
                    nxt.append((pre + (leaf,), c))
            combos = nxt if len(nxt) <= 64 else [(p + (x,), c)
                                                 for p, c in combos]
        for args, pc in combos:
            key = closed(canon, e, mk('ev', *args))
            canon.open = e.loops
            c = canon(pc)
            canon.open = ()
            ivs = [l.iv for l in e.loops]
            # the condition is expressed with the same bound variables
            for n, iv in enumerate(reversed(ivs)):
                c = T.subst(c, {iv: mk('mub', -1, n)})
            keys = [(c, key)]
            if key.op == 'each' and isinstance(key.args[0], T.Term) and \
                    key.args[0].op == 'ite':
                # loops on one of several domains
                keys = [(x, mk('each', dom, *key.args[1:]))
                        for x, dom in T.cases(key.args[0], c)]
            for c, key in keys:
                if e.kind == 'call' and getattr(e, 'name', None) in once:
                    again = T.and_(out.get(key, T.FALSE), c)
                    out['twice', key] = T.or_(
                        out.get(('twice', key), T.FALSE), again)
                out[key] = T.or_(out.get(key, T.FALSE), c)
                out.setdefault(('at', key), e.where)
    return out


def effects(table):
    return {k: v for k, v in table.items() if not isinstance(k, tuple)}


def outer_ites(t):
    """Maximal conditional subterms that depend on no bound variable."""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T.Term) and x not in seen:
            seen.add(x)
            if x.op == 'ite':
                out.append(x)
            elif x.op != 'bind':
                stack.extend(x.args)
    return out


def deep_cases(k, c, limit=64):
    """[(condition, effect)] where no effect depends on a condition, or None
    if there are too many."""
    todo, out = [(k, c)], []
    while todo:
        if len(todo) + len(out) > limit:
            return None
        k, c = todo.pop()
        ites = outer_ites(k)
        if not ites:
            out.append((k, c))
            continue
        atom = ites[0].args[0]
        for val, lit in ((True, T.cond(atom)), (False, T.not_(T.cond(atom)))):
            c2 = T.and_(c, lit)
            if c2 is not T.FALSE:
                todo.append((T.subst(k, {i: T.assume(i, atom, val)
                                         for i in ites}), c2))
    return out


def split_effects(g, w, got, want):
    """Both tables, where the effects that are not in both are told apart
    by the conditions they depend on."""
    odd = [set(k for k in a if not (k in b and T.implies(a[k], b[k]) and
                                    T.implies(b[k], a[k])))
           for a, b in ((g, w), (w, g))]
    if not odd[0] or not odd[1] or len(odd[0]) + len(odd[1]) > 40:
        return g, w
    out = []
    for a, table, o in ((g, got, odd[0]), (w, want, odd[1])):
        n = {}
        for k, c in a.items():
            cs = None
            if k in o:
                try:
                    cs = deep_cases(k, c)
                except T.Limit:
                    cs = None
            for k2, c2 in cs or [(k, c)]:
                n[k2] = T.or_(n.get(k2, T.FALSE), c2)
                table.setdefault(('at', k2), table.get(('at', k), ''))
        out.append(n)
    return tuple(out)


def compare_effects(ctx, rule, construct, got, want, calls=(), ops=(),
                    partial=False):
    """The effects of the analysed code are those of the specification, under
    the same conditions."""
    g, w = effects(got), effects(want)
    ks = list(g) + list(w)
    vs = tuple(unordered(v) for v in sized(
        *(ks + [g[k] for k in g] + [w[k] for k in w])))
    if vs != tuple(ks + [g[k] for k in g] + [w[k] for k in w]):
        n, p = len(g), len(g) + len(w)
        g2, w2 = {}, {}
        for i, k in enumerate(g):
            g2[vs[i]] = T.or_(g2.get(vs[i], T.FALSE), vs[p + i])
            got.setdefault(('at', vs[i]), got.get(('at', k), ''))
        for i, k in enumerate(w):
            w2[vs[n + i]] = T.or_(w2.get(vs[n + i], T.FALSE), vs[p + n + i])
        g, w = g2, w2
    g, w = split_effects(g, w, got, want)
    vocab_calls, vocab_ops = set(calls), set(ops) | {'ev', 'each', 'tup',
                                                     'mub', 'iters'}
    for k, c in w.items():
        o, cs = vocabulary(k)
        o2, cs2 = vocabulary(c)
        vocab_calls |= cs | cs2
        vocab_ops |= (o | o2)
    every = mk('tup', *(tuple(w) + tuple(w.values())))
    bad = None
    unknown = None
    for k in list(g) + [k for k in w if k not in g]:
        cg, cw = g.get(k, T.FALSE), w.get(k, T.FALSE)
        if cg is cw or (T.implies(cg, cw) and T.implies(cw, cg)):
            continue
        if k not in w and unread(ctx, k):
            continue
        if k not in w:
            known = understood(k, vocab_calls, vocab_ops, every) and \
                understood(cg, vocab_calls, vocab_ops, every)
            msg = 'effect %s under %s is not part of the specification' % (
                T.show(k, 8)[:400], T.show(cg, 6)[:300])
        elif k not in g:
            known = all(understood(x, vocab_calls, vocab_ops, every) and
                        understood(g[x], vocab_calls, vocab_ops, every)
                        for x in g if x not in w)
            msg = 'no effect %s (expected under %s)' % (
                T.show(k, 8)[:400], T.show(cw, 6)[:300])
        else:
            known = understood(cg, vocab_calls, vocab_ops, every)
            msg = 'effect %s happens under %s, expected %s' % (
                T.show(k, 8)[:300], T.show(cg, 6)[:300], T.show(cw, 6)[:300])
        if known and bad is None:
            bad = (msg, got.get(('at', k), ''))
        elif not known:
            unknown = msg
    if bad is None and unknown is None:
        for k in got:
            if isinstance(k, tuple) and k[0] == 'twice' and \
                    got[k] is not T.FALSE and not T.implies(
                        got[k], want.get(k, T.FALSE)):
                bad = ('effect %s happens twice under %s' % (
                    T.show(k[1], 8)[:300], T.show(got[k], 6)[:200]),
                    got.get(('at', k[1]), ''))
    if bad is not None and unknown is None:
        return ctx.bad(rule, construct, bad[0], bad[1])
    if unknown is not None:
        bad = loops_differ(g, w, got, vocab_calls, vocab_ops)
        if bad is not None:
            return ctx.bad(rule, construct, bad[0], bad[1])
    if bad is not None or unknown is not None:
        return ctx.unknown(rule, construct, unknown)
    return ctx.ok(rule, construct)


def unread(ctx, k):
    """An effect that writes an attribute that nothing reads."""
    for x in T.subterms(k):
        if x.op == 'ev':
            return x.args[0] is const('write') and len(x.args) > 2 and \
                T.is_str(x.args[2]) and \
                T.cval(x.args[2]) not in ctx.world.names_read()
    return False


def without_leaving(t):
    """The term as if loops were not left early, and the conditions."""
    m = {x: x.args[0] for x in T.subterms(t)
         if isinstance(x, T.Term) and x.op == 'until'}
    return T.subst(t, m), [x.args[1] for x in m]


def left_early(gs, ws, got, calls, ops):
    """Loops that do the same but are not left at the same time."""
    if len(gs) != len(ws) or not any(
            T.any_op(k, 'until') for k, _ in gs + ws):
        return None
    rest = {}
    for k, c in ws:
        k2, left = without_leaving(k)
        rest[k2] = (k, c, left)
    if len(rest) != len(ws):
        return None
    for k, c in gs:
        k2, left = without_leaving(k)
        if k2 not in rest:
            return None
        k3, c3, left3 = rest[k2]
        for x in left + [c]:
            if not understood(x, calls, ops, ()):
                return None
        if left != left3:
            return ('the loop of %s is left under %s, expected %s' % (
                T.show(k2, 8)[:300], T.show(tuple(left), 6)[:300],
                T.show(tuple(left3), 6)[:300]), got.get(('at', k), ''))
    return None


def attempts(ts):
    """Calls that may raise, identified by what is called and when."""
    m = {}
    for t in ts:
        for x in T.subterms(t):
            if x.op == 'raises' and len(x.args) > 1 and \
                    isinstance(x.args[1], T.Term) and \
                    x.args[1].op in ('icall', 'rcall'):
                y = x.args[1]
                name = y.args[2] if y.op == 'icall' else y.args[0]
                m[x] = mk('raises', x.args[0], mk(
                    'attempt', name, *y.args[-2:]), *x.args[2:])
    return m


def loops_differ(g, w, got, calls, ops):
    """Effects in loops that differ in one understood point only, or miss a
    call (nothing outside of the vocabulary of the specification is done)."""
    gs = [(k, c) for k, c in g.items() if w.get(k) is not c]
    ws = [(k, c) for k, c in w.items() if g.get(k) is not c]
    bad = left_early(gs, ws, got, calls, ops)
    if bad is not None:
        return bad
    try:
        m = attempts([x for p in gs + ws for x in p])
    except T.Limit:
        m = {}
    if m and len(gs) + len(ws) <= 40:
        # whatever the arguments of the calls that may fail
        g2, w2 = [{}, {}]
        for new, old in ((g2, gs), (w2, ws)):
            for k, c in old:
                k2 = T.subst(k, m)
                new[k2] = T.or_(new.get(k2, T.FALSE), T.subst(c, m))
                got.setdefault(('at', k2), got.get(('at', k), ''))
        fewer = ([(k, c) for k, c in g2.items() if w2.get(k) is not c],
                 [(k, c) for k, c in w2.items() if g2.get(k) is not c])
        if fewer[0] and fewer[1]:
            gs, ws = fewer
    if len(gs) == len(ws) and len(gs) <= 4:
        for perm in itertools.permutations(ws):
            if one_point(tuple(zip(gs, perm)), calls, ops):
                k, c = gs[0]
                return ('effect %s happens under %s, expected %s under %s' % (
                    T.show(k, 8)[:300], T.show(c, 6)[:200],
                    T.show(perm[0][0], 8)[:300],
                    T.show(perm[0][1], 6)[:200]), got.get(('at', k), ''))
    if len(g) < len(w):
        done, known = set(), True
        for k, c in g.items():
            for x in (k, c):
                o, cs = vocabulary(x)
                known = known and cs <= calls and o <= (
                    KNOWN_OPS | ops | {'mu', 'lres'})
            done |= {x for x in T.subterms(k) if x.op == 'const'}
        if known:
            for k, c in ws:
                ev = [x for x in T.subterms(k) if x.op == 'ev']
                names = {x.args[0] for x in ev[:1]}
                if names and not names & done and all(
                        n.op == 'const' for n in names):
                    return ('%s is never done (expected under %s)' % (
                        T.show(k, 8)[:400], T.show(c, 6)[:300]), '')
    return None


def raise_table(r):
    """{exception class: condition under which it leaves the function}"""
    canon = Canon(r.interp)
    out = {}
    for b, exc in r.raises:
        pc = b.pc
        for c, x in T.cases(exc, pc):
            n = r.interp.exc_name(x) or 'unknown'
            out[n] = T.or_(out.get(n, T.FALSE), canon(c))
    for n, c in out.items():
        # the loop around a loop summarised on its own
        around = [x for x in T.free(c) if x.op == 'iv']
        if len(around) == 1:
            out[n] = T.subst(c, {around[0]: mk('sym', 'around')})
    return out


def final_fields(r, base, names):
    """Final value of fields of an object (snapshots)."""
    I, st = r.interp, r.st
    out = {}
    for n in names:
        t = st.fields.get((base, n))
        if t is None:
            t = mk('fld', base, n)
        out[n] = I.val(st, t)
    return out


def rename_args(fi, sp, run):
    """The arguments are those of the specification, by position."""
    a, b = fi.node.args, sp.node.args
    na = [x.arg for x in a.posonlyargs + a.args]
    nb = [x.arg for x in b.posonlyargs + b.args]
    if na == nb or len(na) != len(nb):
        return run
    args = dict(run.get('args') or {})
    out = {x: v for x, v in args.items() if x not in nb}
    for x, y in zip(na, nb):
        out[x] = args.get(y, mk('sym', y)) if y in args or x != y \
            else mk('sym', y)
    return dict(run, args=out)


def defaults_of(fi):
    """{position or keyword-only name: (name, literal default)}"""
    a = fi.node.args
    pos = list(a.posonlyargs) + list(a.args)
    pairs = [(len(pos) - len(a.defaults) + i, d)
             for i, d in enumerate(a.defaults)]
    pairs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
              if d is not None]
    out = {}
    for k, d in pairs:
        try:
            v = ast.literal_eval(d)
        except (ValueError, TypeError, SyntaxError):
            continue
        out[k] = (pos[k].arg if isinstance(k, int) else k, v)
    return out


def default_obligation(ctx, rule, name, fi, n, g, w):
    """A flag, a missing value or a neutral number that is assumed when an
    argument is left out (other numbers are settings, which are free)."""
    if not (w is None or isinstance(w, (bool, str)) or w in (0, 1)):
        return
    same = g == w and (g is None) == (w is None)
    if not same and type(g) is not type(w) and not (
            isinstance(g, (int, float)) and isinstance(w, (int, float))):
        same = None                     # a marker for a missing argument?
    if same is not True:
        ctx.decide(rule, '%s: default of %s' % (name, n), same,
                   '%s is %r when not given, expected %r' % (n, g, w),
                   where='%s:%s' % (fi.module.path.split('/repo/')[-1],
                                    fi.node.lineno))


def same_defaults(ctx, rule, name, fi, sp):
    if fi.qualname.startswith('<spec>'):
        return
    want, got = defaults_of(sp), defaults_of(fi)
    for k, (n, w) in sorted(want.items(), key=str):
        if k in got:
            default_obligation(ctx, rule, name, fi, got[k][0], got[k][1], w)


def defaults(ctx, rule, q, **want):
    """What the function assumes for these arguments when left out."""
    try:
        fi = ctx.world.fn(q)
    except AnchorError:
        ctx.unknown(rule, q, 'no such function')
        return
    ctx.functions.add(fi.qualname)
    got = {n: v for n, v in defaults_of(fi).values()}
    for n, w in sorted(want.items()):
        if n in got:
            default_obligation(ctx, rule, q, fi, n, got[n], w)
    ctx.ok(rule, q + ': defaults')


CONTAINER = set(dir(list) + dir(dict) + dir(set) + dir(str) + dir(tuple))


def unresolved(ctx, r):
    """Methods of the program called on objects of unknown class."""
    own = getattr(ctx, 'own_methods', None)
    if own is None:
        own = ctx.own_methods = {
            n for c in ctx.world.classes.values() for n in c.fns
            if not c.qualname.startswith('<spec>')} - CONTAINER
    return {e.name for e in r.events if e.kind == 'call' and
            e.d.get('how') == 'method' and e.d.get('name') in own}


def equiv(ctx, rule, q, source, *args, **run):
    """accept: other specifications that are as good."""
    lost = ctx.unresolved
    others = run.pop('accept', ())
    n = len(ctx.obligations)
    try:
        r = equiv_(ctx, rule, q, source, *args, **run)
        first = ctx.obligations[n:]
        for other in others:
            if ctx.proved(n):
                return r
            del ctx.obligations[n:]
            ctx.unresolved = lost
            r2 = equiv_(ctx, rule, q, other, *args, **run)
            if ctx.proved(n):
                return r2
            del ctx.obligations[n:]
            ctx.obligations.extend(first)
        return r
    finally:
        ctx.unresolved = lost


def equiv_(ctx, rule, q, source, val=True, raises=True, fields=(), pick=None,
          calls=(), ops=(), conts=(), construct=None, normal=True,
          transform=None, parts=None, want_run={}, effects_too=False, **run):
    """The function does what its specification says, as far as the given
    observables are concerned (returned value, exceptions, final fields of
    the receiver, effects selected by `pick`)."""
    try:
        fi = q if isinstance(q, FunctionInfo) else ctx.world.fn(q)
    except AnchorError as e:
        ctx.unknown(rule, str(q), 'no such function')
        return None
    name = construct or name_of(fi)
    try:
        sp = ctx.spec(source, like=fi)
        same_defaults(ctx, rule, name, fi, sp)
        sp.decorators += [d for d in fi.decorators
                          if d in ('classmethod', 'staticmethod')]
        got = ctx.run(fi, **rename_args(fi, sp, run))
        wr = dict(run, **want_run)
        if not fi.qualname.startswith('<spec>'):
            # recursion
            wr['opaque'] = set(wr.get('opaque', ())) | {fi.qualname}
        want = ctx.run(sp, spec=True, **wr)
    except (T.Limit, RecursionError) as e:
        ctx.unknown(rule, name, 'analysis limit: %s' % e)
        return None
    if got.interp.unsupported:
        ctx.unknown(rule, name, 'unsupported construct: %s' %
                    got.interp.unsupported[:3])
        return None
    ctx.unresolved = unresolved(ctx, got) - unresolved(ctx, want) - {
        c[1:] for c in calls if c[:1] == '.'}
    cg, cw = Canon(got.interp), Canon(want.interp)
    tr = transform or (lambda t: t)
    where = '%s:%s' % (fi.module.path.split('/repo/')[-1], fi.node.lineno)
    verdicts = []
    wd = want.st.dead
    gd = got.st.dead
    pc_w, pc_g = cw(want.st.pc), cg(got.st.pc)

    def cmp(what, g, w):
        g, w = tr(g), tr(w)
        if pc_w is not T.TRUE:
            g, w, p = sized(g, w, pc_w)
            g, w = T.constrain(g, p), T.constrain(w, p)
        verdicts.append(ctx.compare(rule, name + ': ' + what, g, w,
                                    calls=calls, ops=ops, where=where,
                                    what=what))
    if normal and raises:
        gr, wr = raise_table(got), raise_table(want)
        for n in sorted(set(gr) | set(wr)):
            a, b = tr(gr.get(n, T.FALSE)), tr(wr.get(n, T.FALSE))
            a, b = sized(a, b)
            if a is b or (T.implies(a, b) and T.implies(b, a)):
                verdicts.append(ctx.ok(rule, '%s: raises %s' % (name, n)))
            else:
                verdicts.append(ctx.compare(
                    rule, '%s: raises %s' % (name, n), a, b, calls=calls,
                    ops=ops, where=where, what='condition to raise ' + n))
    if val and not (wd and gd):
        if wd or gd:
            ctx.decide(rule, name + ': returns', None,
                       'one of the two never returns')
        else:
            vg, vw = cg(got.val), cw(want.val)
            if parts is None:
                cmp('value', vg, vw)
            else:
                for i, n in sorted(parts.items()):
                    cmp(n, T.idx(vg, const(i)), T.idx(vw, const(i)))
    if fields and not (wd or gd):
        s = mk('sym', 'self')
        fg, fw = final_fields(got, s, fields), final_fields(want, s, fields)
        for n in fields:
            cmp('self.' + n, cg(fg[n]), cw(fw[n]))
    for c in conts:
        t = mk('sym', c) if isinstance(c, str) else c
        if not (wd or gd):
            cmp('content of ' + T.show(t), cg(got.interp.val(got.st, t)),
                cw(want.interp.val(want.st, t)))
    d = zero_division(got, want, cg, cw)
    if d is not None:
        ctx.decide(rule, name + ': divisions', False, d, where=where)
    if pick is not None:
        tables = event_table(got, pick, cg), event_table(want, pick, cw)
        if effects_too and transform:
            tables = [transformed(t, transform) for t in tables]
        verdicts.append(compare_effects(
            ctx, rule, name + ': effects', *tables, calls=calls, ops=ops))
    return got, want


def transformed(table, tr):
    out = {}
    for k, c in table.items():
        if isinstance(k, tuple):
            out.setdefault((k[0], tr(k[1])), c)
        else:
            out[tr(k)] = T.or_(out.get(tr(k), T.FALSE), tr(c))
    return out


def divisors(r, canon):
    """{denominator: condition of the divisions by it}, out of loops"""
    out = {}
    for e in r.events:
        if e.kind == 'div' and not e.loops:
            d = canon(e.by)
            out[d] = T.or_(out.get(d, T.FALSE), canon(e.pc))
    return out


def zero_division(got, want, cg, cw):
    """A division by something the specification only divides by where it is
    not zero, under conditions that do not depend on it."""
    w = divisors(want, cw)
    if not w:
        return None
    for d, c in divisors(got, cg).items():
        if d not in w:
            continue
        zero = T.eq(d, const(0))
        if zero is T.FALSE or T.and_(w[d], zero) is not T.FALSE:
            continue
        parts = {x for x in T.subterms(d) if x.op not in ('sym', 'const')}
        if parts and T.and_(c, zero) is not T.FALSE and not any(
                x in parts for a in T.atoms(c) if a is not zero
                for x in T.subterms(a)):
            return 'divides by %s where it is zero' % T.show(d)
    return None


def law(ctx, rule, like, got, want, construct, **run):
    """Two programs over the analysed functions (`like` gives the class and
    module in which names are resolved) behave the same."""
    try:
        f = ctx.spec(got, like=like)
    except AnchorError as e:
        ctx.unknown(rule, construct, 'no such function: %s' % e)
        return None
    return equiv(ctx, rule, f, want, construct=construct, **run)


# ------------------------------------------------------------ usual effects

def plain(t):
    """Term identifying a value in an effect."""
    if isinstance(t, T.Term):
        return t
    if isinstance(t, tuple):
        return mk('tup', *[plain(x) for x in t])
    return const(t)


def watch(*names, **opts):
    """Effects of a function: calls of the named functions or methods, and
    (unless writes=False) changes of objects that it did not create."""
    full = set()
    for n in names:
        full.add(n)
        full.add('task_models.' + n)
        if n[:1].isalpha() and '.' in n and n.split('.')[-2][:1] in '_' + \
                'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
            full.add(n.split('.')[-1])      # receiver of unknown class
    writes = opts.get('writes', True)
    once = set(opts.get('once', ()))
    skip = set(opts.get('skip', ()))

    def outside(x):
        return x is not None and not T.any_op(x, 'ref', 'obj', 'new')

    def pick(e):
        if e.kind == 'call' and e.d.get('name') in full:
            r = e.d.get('recv')
            how = e.d.get('how')
            out = (const(e.name),)
            if how == 'method' and isinstance(r, T.Term):
                out += (r,)
            return out + (plain(tuple(e.args)), plain(tuple(
                plain((k, v)) for k, v in sorted(dict(
                    e.d.get('kw') or {}).items()))))
        if not writes:
            return None
        if e.kind == 'write' and outside(e.base) and e.attr not in skip:
            return (const('write'), e.base, const(e.attr), plain(e.val))
        if e.kind == 'setitem' and outside(e.base):
            return (const('item'), e.base, plain(e.index), plain(e.val))
        if e.kind == 'mutate' and outside(e.base):
            return (const('change'), e.base, const(e.name),
                    plain(tuple(e.val)))
        return None
    pick.once = once
    return pick


def sources(interp, t):
    """Terms that the value may come from, through the variables of the
    loops."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo.extend(T.leaves(x))
        elif x.op == 'maybe':
            todo.extend(x.args)
        elif x.op in ('rec', 'loopout') and x in interp.loop_of_rec:
            loop, loc = interp.loop_of_rec[x]
            for y, (init, nxt) in loop.recs.items():
                if y is x or interp.loop_of_rec.get(y, (0, 0))[1] == loc:
                    todo.extend((init, nxt))
        else:
            out.append(x)
    return out


def in_order(ctx, rule, q, pairs, **run):
    """In the order of the program, every call of the first function comes
    before every call of the second one."""
    try:
        fi = ctx.world.fn(q)
    except AnchorError:
        return ctx.unknown(rule, q, 'no such function')
    try:
        r = ctx.run(fi, **run)
    except (T.Limit, RecursionError) as e:
        return ctx.unknown(rule, q, 'analysis limit: %s' % e)
    name = name_of(fi)
    seen = {}
    for i, e in enumerate(r.events):
        if e.kind == 'call' and isinstance(e.d.get('name'), str):
            seen.setdefault(e.name.split('.')[-1], []).append((i, e))
    for a, b in pairs:
        what = '%s: %s before %s' % (name, a, b)
        if a not in seen or b not in seen:
            ctx.unknown(rule, what, 'not called here')
            continue
        late = [(x, y) for i, x in seen[a] for j, y in seen[b]
                if i > j and T.and_(x.pc, y.pc) is not T.FALSE]
        if late:
            ctx.bad(rule, what, '%s is called after %s' % (a, b),
                    late[0][0].where)
        else:
            ctx.ok(rule, what)
