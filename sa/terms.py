"""Value numbering: interned terms with canonical forms.

A term describes the *value* an expression denotes, independently of how the
source computes it.  Terms are hash-consed, so that two expressions denote the
same value (as far as this domain can tell) iff they are the same object.

Canonical forms implemented here:
 - numbers: polynomials with rational coefficients over opaque atoms;
 - booleans and joins of control flow: ordered, reduced decision diagrams
   (`ite` nodes over atomic conditions), so that the order and the nesting of
   the branches in the source are immaterial;
 - sequences: concatenations of elements, unknown sequences and maps;
 - bound variables of maps/sums/quantifiers are named by binder height, so
   that alpha-equivalent terms are identical.

No solver is involved: everything is rewriting to normal form.
"""

from fractions import Fraction
import itertools


class Limit(Exception):
    """The analysis gave up on a term that is too large (never an alarm)."""


class Term(object):
    __slots__ = ('op', 'args', 'id', 'h', '_free', '_atoms')

    def __repr__(self):
        return show(self)


_table = {}
_memo_gap = {}
_count = itertools.count()
MAX_TERMS = 3000000


def reset():
    """Forget all terms (called between independent analyses)."""
    _table.clear()
    _memo_ite.clear()
    _memo_lift.clear()
    _memo_simplify.clear()
    _memo_subst.clear()
    _memo_gap.clear()


def mk(op, *args):
    """Interns a term.  Args may be terms, tuples, strings, numbers, ..."""
    key = (op, args)
    # 1 == True == 1.0 in python: constants are tagged (see const)
    t = _table.get(key)
    if t is None:
        if len(_table) > MAX_TERMS:
            raise Limit('too many terms')
        t = Term()
        t.op = op
        t.args = args
        t.id = next(_count)
        t.h = _height(op, args)
        t._free = None
        t._atoms = None
        _table[key] = t
    return t


def _height(op, args):
    h = 0
    for a in args:
        if isinstance(a, Term):
            if a.h > h:
                h = a.h
        elif isinstance(a, tuple):
            k = _height('', a)
            if k > h:
                h = k
    if op == 'bind':
        h += 1
    return h


# ---------------------------------------------------------------- constants

def const(v):
    if isinstance(v, Term):
        return v
    if v is None or v is Ellipsis or v is NotImplemented:
        return mk('const', 'x', repr(v))
    if isinstance(v, bool):
        return mk('const', 'b', v)
    if isinstance(v, (int, Fraction)):
        return mk('const', 'n', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', 'x', repr(v))
        return mk('const', 'n', Fraction(repr(v)))
    if isinstance(v, str):
        return mk('const', 's', v)
    if isinstance(v, bytes):
        return mk('const', 'y', v)
    if isinstance(v, complex):
        return mk('const', 'c', repr(v))
    raise TypeError(v)


TRUE = FALSE = NONE = ZERO = ONE = None


def is_const(t):
    return t.op == 'const'


def cval(t):
    """Python value of a constant term."""
    k, v = t.args
    if k == 'x':
        return {'None': None, 'Ellipsis': Ellipsis}.get(v, v)
    return v


def is_num(t):
    return t.op == 'const' and t.args[0] in 'nb'


def num(t):
    return Fraction(t.args[1])


def is_str(t):
    return t.op == 'const' and t.args[0] == 's'


def is_int(t):
    return is_num(t) and num(t).denominator == 1


# ---------------------------------------------------------------- utilities

def subterms(t, seen=None):
    """All distinct subterms of t (including t)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, what):
    if t is what:
        return True
    return any(x is what for x in subterms(t))


def any_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


def free(t):
    """Set of free 'iv' and 'rec' symbols in t."""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            r = frozenset()
            for a in t:
                r = r | free(a)
            return r
        return frozenset()
    if t._free is None:
        r = frozenset([t]) if t.op in ('iv', 'rec') else frozenset()
        for a in t.args:
            if isinstance(a, (Term, tuple)):
                r = r | free(a)
        t._free = r
    return t._free


_uid = itertools.count()


def fresh_iv(hint=''):
    return mk('iv', next(_uid), hint)


_memo_subst = {}


def subst(t, m):
    """Substitutes terms by terms (rebuilding canonical forms)."""
    if not m:
        return t
    key = tuple(sorted(((k.id, v.id) for k, v in m.items())))
    memo = _memo_subst.setdefault(key, {})
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(a, m, memo) for a in t)
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ('const', 'sym', 'iv', 'rec', 'bnd'):
        return t
    if t.op == 'bind':
        # open, substitute, close again
        iv = fresh_iv()
        body = _subst(open_bind(t, iv), m, memo)
        r = close_bind(iv, body)
    else:
        new = tuple(_subst(a, m, memo) for a in t.args)
        if new == t.args and all(x is y for x, y in zip(new, t.args)):
            r = t
        else:
            r = rebuild(t.op, new)
    memo[t] = r
    return r


def close_bind(iv, body):
    """Binds iv in body (a term): returns a 'bind' term."""
    h = body.h
    if iv in free(body):
        b = mk('bnd', h)
        body = subst(body, {iv: b})
        if body.h != h:  # substitution may have simplified the body
            return close_bind(iv, subst(body, {b: iv}))
    return mk('bind', h, body)


def open_bind(b, x):
    """Instantiates a 'bind' term with x."""
    return subst(b.args[1], {mk('bnd', b.args[0]): x})


# Some ops have smart constructors: rebuild dispatches to them.
_ctors = {}


def ctor(op):
    def deco(f):
        _ctors[op] = f
        return f
    return deco


def rebuild(op, args):
    f = _ctors.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


# ------------------------------------------------- decision diagrams (joins)

_memo_ite = {}
_memo_lift = {}
_memo_simplify = {}
MAX_ITE = 20000

# hook set by the interpreter: (class1, class2) -> 'sub', 'disjoint' or None
class_relation = [lambda a, b: None]


def _gap(atom):
    """The atom as a comparison of p + c with 0 (p without constant): returns
    (p, c, -p), or None when not about numbers."""
    r = _memo_gap.get(atom, 0)
    if r != 0:
        return r
    r = None
    a, b = atom.args
    if all(x.op not in ('const', 'ite') or is_num(x) for x in atom.args):
        d = dict(_as_poly(b))
        for m, c in _as_poly(a).items():
            d[m] = d.get(m, 0) - c
        k = d.pop((), Fraction(0))
        d = {m: c for m, c in d.items() if c}
        if d:
            r = (frozenset(d.items()), k,
                 frozenset((m, -c) for m, c in d.items()))
    _memo_gap[atom] = r
    return r


def _ordered(atom, val, other):
    """_implied, for comparisons of numbers."""
    g, h = _gap(atom), _gap(other)
    if g is None or h is None:
        return None
    if g[0] == h[0]:
        sign, c = 1, h[1] - g[1]
    elif g[2] == h[0]:
        sign, c = -1, h[1] + g[1]
    else:
        return None
    # the atom tells the sign of d; the other is about sign * d + c
    if atom.op == 'eq':
        if not val:
            return None
        return c > 0 if other.op == 'lt' else c == 0
    if val:                             # d > 0
        if sign > 0 and c >= 0:
            return other.op == 'lt'
        if sign < 0 and c <= 0:
            return False
    else:                               # d <= 0
        if other.op == 'lt':
            if sign > 0 and c <= 0:
                return False
            if sign < 0 and c > 0:
                return True
        elif sign * c < 0:
            return False
    return None


def _implied(atom, val, other):
    """Value of atom `other` knowing that `atom` is `val` (or None)."""
    if atom is other:
        return val
    o1, o2 = atom.op, other.op
    if o1 == 'eq' and o2 == 'eq' and val:
        a, b = atom.args
        c, d = other.args
        for x, y in ((a, b), (b, a)):
            for z, w in ((c, d), (d, c)):
                if x is z and is_const(y) and is_const(w):
                    return y is w
    if o1 == 'isinstance' and o2 == 'isinstance':
        if atom.args[0] is not other.args[0]:
            return None
        r = class_relation[0](atom.args[1], other.args[1])
        if val:
            if r == 'sub':       # atom's class is a subclass of other's
                return True
            if r == 'disjoint':
                return False
        else:
            if class_relation[0](other.args[1], atom.args[1]) == 'sub':
                return False
        return None
    if o1 == 'eq' and o2 == 'isinstance' and val:
        if other.args[0] in atom.args and NONE in atom.args:
            return False
        return None
    if o1 == 'isinstance' and o2 == 'eq' and val:
        if atom.args[0] in other.args and NONE in other.args:
            return False
        return None
    if o1 in ('lt', 'eq') and o2 in ('lt', 'eq'):
        return _ordered(atom, val, other)
    if o1 == 'truth' and val and o2 == 'eq' and atom.args[0] in other.args \
            and NONE in other.args:
        return False
    if o1 == 'in' and val and isinstance(atom.args[1], Term):
        # what holds something is not empty
        if o2 == 'eq' and ZERO in other.args and \
                mk('len', atom.args[1]) in other.args:
            return False
        if o2 == 'truth' and other.args[0] is atom.args[1]:
            return True
    if o2 == 'in' and isinstance(other.args[1], Term):
        if o1 == 'eq' and val and ZERO in atom.args and \
                mk('len', other.args[1]) in atom.args:
            return False
        if o1 == 'truth' and not val and atom.args[0] is other.args[1]:
            return False
    if o1 == 'eq' and val and o2 == 'truth' and other.args[0] in atom.args \
            and NONE in atom.args:
        return False
    return None


def atoms(t):
    """Set of condition atoms in the decision diagram of t (top structure)."""
    if t.op != 'ite':
        return frozenset()
    if t._atoms is None:
        t._atoms = frozenset([t.args[0]]) | atoms(t.args[1]) | atoms(t.args[2])
    return t._atoms


def assume(t, atom, val):
    """Simplifies the decision diagram t knowing that atom is val."""
    if t.op != 'ite':
        if val and atom.op == 'eq' and t in atom.args and NONE in atom.args:
            return NONE
        return t
    key = (t, atom, val)
    r = _memo_simplify.get(key)
    if r is None:
        c, a, b = t.args
        i = _implied(atom, val, c)
        if i is True:
            r = assume(a, atom, val)
        elif i is False:
            r = assume(b, atom, val)
        else:
            r = _node(c, assume(a, atom, val), assume(b, atom, val))
        _memo_simplify[key] = r
    return r


def _node(atom, a, b):
    a = assume(a, atom, True)
    b = assume(b, atom, False)
    if a is b:
        return a
    if b.op == 'ite' and assume(b, atom, True) is a:
        return b
    if a.op == 'ite' and assume(a, atom, False) is b:
        return a
    if atom.op == 'in' and b.op in ('set', 'upd') and already(atom, a, b):
        return b
    i = atom.id
    if a.op == 'ite' and a.args[0].id < i or \
            b.op == 'ite' and b.args[0].id < i:
        return ite(cond(atom), a, b)   # keeps the order of the atoms
    return mk('ite', atom, a, b)


def already(atom, a, b):
    """Adding an item to a set that has it changes nothing."""
    e, s = atom.args[:2]
    if b.op == 'upd':
        if b.args[0] is not a or s is not idx(a, b.args[1]):
            return False
        a, b = s, b.args[2]
    if b.op != 'set' or s.op == 'ite':
        return False
    return (s is a or a.op == 'set' and ('s', s) in a.args) and \
        b is setunion(('s', a), ('e', e))


def _top(*ts):
    best = None
    for t in ts:
        if t.op == 'ite':
            c = t.args[0]
            if best is None or c.id < best.id:
                best = c
    return best


def ite(c, a, b):
    """if c then a else b (c: boolean decision diagram)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    if len(_memo_ite) > 400000:
        raise Limit('decision diagrams too large')
    if c.op != 'ite':
        raise Limit('not a condition: %s' % c.op)
    x = _top(c, a, b)
    r = _node(x,
              ite(assume(c, x, True), assume(a, x, True), assume(b, x, True)),
              ite(assume(c, x, False), assume(a, x, False), assume(b, x, False)))
    _memo_ite[key] = r
    return r


_ctors['ite'] = lambda c, a, b: ite(as_bool_atom(c), a, b)


def as_bool_atom(c):
    """c was an atom, possibly rewritten to a general boolean."""
    if c.op == 'ite' or c is TRUE or c is FALSE:
        return c
    return mk('ite', c, TRUE, FALSE)


def cond(atom):
    return mk('ite', atom, TRUE, FALSE)


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def leaves(t):
    """Leaves of the decision diagram."""
    seen = set()
    stack = [t]
    out = []
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            stack.extend(x.args[1:])
        else:
            out.append(x)
    return out


def cases(t, pc=None):
    """List of (condition, leaf): one entry for each distinct leaf."""
    acc = {}

    def rec(x, c):
        if x.op == 'ite':
            a = cond(x.args[0])
            rec(x.args[1], and_(c, a))
            rec(x.args[2], and_(c, not_(a)))
        else:
            acc[x] = or_(acc.get(x, FALSE), c)
    rec(t, TRUE if pc is None else pc)
    return [(c, x) for x, c in acc.items() if c is not FALSE]


def lift(f, *ts):
    """Applies f to the leaves of decision diagrams."""
    if all(t.op != 'ite' for t in ts):
        return f(*ts)
    key = (f,) + ts
    r = _memo_lift.get(key)
    if r is not None:
        return r
    if len(_memo_lift) > 600000:
        raise Limit('decision diagrams too large')
    x = _top(*ts)
    r = _node(x, lift(f, *[assume(t, x, True) for t in ts]),
              lift(f, *[assume(t, x, False) for t in ts]))
    _memo_lift[key] = r
    return r


def restrict(t, pc):
    """Simplifies t under path condition pc (only uses literals of pc)."""
    for a, v in literals(pc):
        t = assume(t, a, v)
    return t


_memo_lits = {}


def literals(pc):
    """Literals (atom, value) implied by the condition pc."""
    if pc is TRUE or pc is FALSE or pc.op != 'ite':
        return []
    out = []
    x = pc
    # pc = a & rest  or  !a & rest: peel off forced atoms
    done = set()
    for a in sorted(atoms(pc), key=lambda z: z.id):
        if a in done:
            continue
        if assume(pc, a, False) is FALSE:
            out.append((a, True))
        elif assume(pc, a, True) is FALSE:
            out.append((a, False))
    return out


# ---------------------------------------------------------------- arithmetic

def _as_poly(t):
    """dict monomial -> coeff; monomial = tuple of (atom, power) sorted."""
    if t.op == 'poly':
        return dict(t.args)
    if is_num(t):
        v = num(t)
        return {(): v} if v else {}
    return {((t, 1),): Fraction(1)}


def _from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(p) > 400:
        raise Limit('polynomial too large')
    return mk('poly', *sorted(p.items(),
                              key=lambda mc: [(a.id, k) for a, k in mc[0]]))


@ctor('poly')
def _rebuild_poly(*items):
    r = ZERO
    for m, c in items:
        x = const(c)
        for a, k in m:
            x = mul(x, power(a, const(k)))
        r = add(r, x)
    return r


def _add(a, b):
    # concatenation
    for x, y in ((a, b), (b, a)):
        if x.op == 'seq':
            return seq_concat(a, b)
        if is_str(x) or x.op == 'strcat':
            return strcat(a, b)
    p = dict(_as_poly(a))
    for m, c in _as_poly(b).items():
        p[m] = p.get(m, 0) + c
    return _from_poly(p)


def add(a, b):
    return lift(_add, a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    d = {}
    for a, k in m1 + m2:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(((a, k) for a, k in d.items() if k),
                        key=lambda ak: ak[0].id))


def _mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'seq':
            if x.args == () or is_num(y) and num(y) <= 0:
                return seq()
            if is_int(y) and num(y) <= 64:
                return seq(*(x.args * int(num(y))))
            # [x] * n == [x for _ in range(n)]
            iv = fresh_iv()
            return seq(('m', y, close_bind(iv, x)))
        if is_str(x):
            if is_int(y) and num(y) * len(x.args[1]) <= 400:
                return const(x.args[1] * max(int(num(y)), 0))
            return mk('call', 'strmul', (x, y), ())
    pa, pb = _as_poly(a), _as_poly(b)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mul_mono(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return _from_poly(p)


def mul(a, b):
    return lift(_mul, a, b)


def _inv(b):
    if is_num(b):
        if num(b) == 0:
            return mk('inv', b)
        return const(1 / num(b))
    p = _as_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return _from_poly({tuple((a, -k) for a, k in m): 1 / c})
    # normalise leading coefficient
    items = sorted(p.items(), key=lambda mc: [(a.id, k) for a, k in mc[0]])
    c0 = items[0][1]
    monic = _from_poly({m: c / c0 for m, c in p.items()})
    return _from_poly({((mk('inv', monic), 1),): 1 / c0})


def div(a, b):
    return mul(a, lift(_inv, b))


_ctors['inv'] = lambda x: lift(_inv, x)


def _pow(a, b):
    if is_int(b) and abs(num(b)) <= 64:
        n = int(num(b))
        if is_num(a) and not (num(a) == 0 and n < 0):
            return const(num(a) ** n)
        p = _as_poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            return _from_poly({tuple((x, k * n) for x, k in m): c ** n})
        if 0 <= n <= 4:
            r = ONE
            for _ in range(n):
                r = mul(r, a)
            return r
    if is_num(a) and num(a) == 1:
        return ONE
    # a ** (x + y) == a ** x * a ** y ; a ** (k * x) == (a ** x) ** k
    p = _as_poly(b)
    r = ONE
    for m, c in p.items():
        if m == ():
            if c.denominator == 1:
                r = mul(r, _pow(a, const(c)))
            else:
                r = mul(r, mk('pow', a, const(c)))
        elif c.denominator == 1 and is_num(a) and num(a) != 0:
            at = mk('pow', a, _from_poly({m: Fraction(1)}))
            r = mul(r, _from_poly({((at, int(c)),): Fraction(1)}))
        else:
            at = mk('pow', a, _from_poly({m: c}))
            r = mul(r, at)
    return r


def power(a, b):
    return lift(_pow, a, b)


_ctors['pow'] = power


def _floordiv(a, b):
    if is_num(a) and is_num(b) and num(b) != 0:
        return const(num(a) // num(b))
    if is_num(b) and num(b) == 1:
        return a
    if a.op == 'poly' and two(b) and not is_num(b):
        # (x + b * y) // b with y integer
        (m, c), = _as_poly(b).items()
        q, r = {}, {}
        for n, k in a.args:
            e = dict(n)
            for x, i in m:
                e[x] = e.get(x, 0) - i
            e = {x: i for x, i in e.items() if i}
            if (k / c).denominator == 1 and all(
                    i > 0 and (x.op in ('mod', 'floordiv', 'len', 'bnd', 'iv')
                               or x.op == 'pow' and x.args[0] is const(2))
                    for x, i in e.items()):
                q[tuple(sorted(e.items(), key=lambda y: y[0].id))] = k / c
            else:
                r[n] = k
        if q:
            return add(_floordiv(_from_poly(r), b), _from_poly(q))
    return mk('floordiv', a, b)


def floordiv(a, b):
    return lift(_floordiv, a, b)


_ctors['floordiv'] = floordiv


def two(p):
    """Whether the term is a power of two, whatever the (natural) numbers."""
    if is_int(p):
        n = int(num(p))
        return n > 0 and n & (n - 1) == 0
    q = _as_poly(p)
    if len(q) != 1:
        return False
    (m, c), = q.items()
    return c.denominator == 1 and c > 0 and int(c) & (int(c) - 1) == 0 and \
        all(a.op == 'pow' and a.args[0] is const(2) and k > 0 for a, k in m)


def bit(x, p):
    return mod(floordiv(x, p), const(2))


def _bits(op, x, y):
    """Operations on the bits of (natural) numbers."""
    if is_int(x) and is_int(y):
        a, b = int(num(x)), int(num(y))
        return const({'bitand': a & b, 'bitor': a | b, 'bitxor': a ^ b}[op])
    for x, y in ((x, y), (y, x)):
        if y is ZERO:
            return ZERO if op == 'bitand' else x
        if op == 'bitand' and x is y:
            return x
        if two(y):
            b = bit(x, y)
            if op == 'bitand':
                return mul(y, b)
            if op == 'bitor':
                return add(x, mul(y, sub(ONE, b)))
            return add(x, mul(y, sub(ONE, mul(const(2), b))))
        if op == 'bitand':
            if two(add(y, ONE)):
                return mod(x, add(y, ONE))
            if y.op == 'invert' and two(y.args[0]):
                return sub(x, mul(y.args[0], bit(x, y.args[0])))
        if op == 'bitor':
            p = one_bit(y)
            if p is not None:
                return add(x, mul(y, sub(ONE, bit(x, p))))
            # numbers with no bit in common
            d = below(y)
            if d is not None and multiple(x, d):
                return add(x, y)
    if x.id > y.id:
        x, y = y, x
    return mk(op, x, y)


def one_bit(y):
    """The power of two p, when the term is p * b or p * (1 - b) for a bit
    b."""
    if y.op != 'poly' or len(y.args) > 2:
        return None
    for m, c in y.args:
        bs = [a for a, k in m
              if a.op == 'mod' and a.args[1] is const(2) and k == 1]
        if len(bs) != 1:
            continue
        p = _from_poly({tuple(x for x in m if x[0] is not bs[0]): abs(c)})
        if two(p) and y in (mul(p, bs[0]), mul(p, sub(ONE, bs[0]))):
            return p
    return None


def below(y):
    """A power of two above the term: it is what remains of the division of
    a number by it."""
    q = _as_poly(y)
    for m, c in q.items():
        for a, _ in m:
            if a.op == 'floordiv' and two(a.args[1]) and \
                    y is mod(a.args[0], a.args[1]):
                return a.args[1]
    return y.args[1] if y.op == 'mod' and two(y.args[1]) else None


def multiple(x, d):
    d = dict(_as_poly(d))
    (m, c), = d.items()
    need = dict(m)
    return all((k / c).denominator == 1 and all(
        dict(n).get(a, 0) >= i for a, i in need.items())
        for n, k in _as_poly(x).items())


def bits(op, x, y):
    return lift(lambda a, b: _bits(op, a, b), x, y)


for _op in ('bitand', 'bitor', 'bitxor'):
    _ctors[_op] = lambda x, y, op=_op: bits(op, x, y)


def _mod(a, b):
    if is_num(a) and is_num(b) and num(b) != 0:
        return const(num(a) % num(b))
    if not is_num(b) and two(b):
        return sub(a, mul(b, floordiv(a, b)))
    if a.op == 'poly' and is_int(b):
        # x % n and x are the same modulo n
        r = ZERO
        for n, k in a.args:
            x = n[0][0] if len(n) == 1 and n[0][1] == 1 and \
                k.denominator == 1 else None
            if x is not None and x.op == 'mod' and x.args[1] is b:
                r = add(r, mul(const(k), x.args[0]))
            else:
                r = add(r, _from_poly({n: k}))
        if r is not a:
            return mod(r, b)
    return mk('mod', a, b)


def shape_of_item(v):
    """Shape of an item of an array."""
    x, i = v.args

    def number(j):
        return is_int(j) or j.op in ('iv', 'len')
    js = seq_literal(i) if i.op == 'seq' else [i]
    if js:
        s = mk('fld', x, 'shape')
        if js[0] is const(Ellipsis) and all(number(j) for j in js[1:]):
            return slice_(s, ZERO, const(1 - len(js)))
        if all(number(j) for j in js):
            return slice_(s, const(len(js)), NONE)
    return mk('fld', v, 'shape')


def _eq_shape(y, lit):
    """Equality of the shape (or part of the shape) of an array with given
    sizes, one axis at a time."""
    n = len(lit)
    if y.op == 'fld' and y.args[1] == 'shape':
        s, rank = y, eq(mk('len', y), const(n))
    elif y.op == 'slice' and y.args[0].op == 'fld' and \
            y.args[0].args[1] == 'shape' and is_int(y.args[2]) and \
            y.args[1] is ZERO and n > 0:
        s, hi = y.args[0], int(num(y.args[2]))
        if hi < 0:
            rank = eq(mk('len', s), const(n - hi))
        elif n == hi:
            rank = lt(const(hi - 1), mk('len', s))
        elif n < hi:
            rank = eq(mk('len', s), const(n))
        else:
            return FALSE
    else:
        return None
    return and_(rank, *[eq(idx(s, const(i)), v) for i, v in enumerate(lit)])


def mod(a, b):
    return lift(_mod, a, b)


_ctors['mod'] = mod


# ---------------------------------------------------------------- comparison

def _eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if is_num(a) and is_num(b):
            return TRUE if num(a) == num(b) else FALSE
        return FALSE
    for x, y in ((a, b), (b, a)):
        if is_const(y) and not is_num(y):
            if x.op in ('seq', 'obj', 'ref', 'fn', 'cls', 'new', 'dict', 'set',
                        'poly', 'bm', 'zeros'):
                return FALSE
            if x.op == 'strcat' and not is_str(y):
                return FALSE
    if a.op == 'obj' and b.op == 'obj':
        return FALSE  # distinct allocations (identity)
    if a.op in ('cls', 'fn', 'ext') and b.op in ('cls', 'fn', 'ext'):
        return FALSE
    if a.op == 'seq' and b.op == 'seq':
        la, lb = seq_literal(a), seq_literal(b)
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(la, lb)])
    for x, y in ((a, b), (b, a)):
        if x is ZERO and not is_num(y) and two(y):
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'seq' and y.op in ('fld', 'slice'):
            lit = seq_literal(x)
            r = None if lit is None else _eq_shape(y, lit)
            if r is not None:
                return r
    # numbers: compare the difference to 0
    if (a.op == 'poly' or b.op == 'poly' or (is_num(a) or is_num(b))):
        try:
            d = sub(a, b)
        except Limit:
            d = None
        if d is not None and d.op != 'ite':
            if is_num(d):
                return TRUE if num(d) == 0 else FALSE
            if d.op == 'poly':
                # canonical: scale by the coefficient of the last monomial
                lead = [c for m, c in d.args if m != ()][-1]
                p = {m: c / lead for m, c in d.args}
                cst = p.pop((), Fraction(0))
                a, b = _from_poly(p), const(-cst)
    for x, y in ((a, b), (b, a)):
        if y is ZERO and x.op == 'sum' and x.args[1].op == 'bind' and \
                count_atom(x):
            iv = fresh_iv()
            return not_(exists(x.args[0], iv, ite_map(
                open_bind(x.args[1], iv),
                lambda l: FALSE if l is ZERO else TRUE)))
    if a.id > b.id:
        a, b = b, a
    return cond(mk('eq', a, b))


def eq(a, b):
    return lift(_eq, a, b)


_ctors['eq'] = eq


def count_atom(t):
    """Whether t is a number of elements."""
    if t.op == 'len' or t.op == 'call' and \
            t.args[0] == 'numpy.count_nonzero' and not t.args[2] and \
            len(t.args[1]) == 1:
        return True
    if t.op == 'sum':
        b = t.args[1]
        while b.op == 'bind':
            b = b.args[-1]
        return all(is_num(x) and num(x) >= 0 and num(x) == int(num(x))
                   for x in leaves(b))
    return False


def len_sign(t):
    """True if t is known to be >= 0 (a length)."""
    if count_atom(t):
        return True
    if t.op == 'poly':
        return all(c > 0 and all(count_atom(a) for a, _ in m)
                   for m, c in t.args)
    return is_num(t) and num(t) >= 0


def _lt(a, b):
    """a < b"""
    # the different items of a collection are at most as many as its items
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and x.args[0].op == 'set' and \
                x.args[0].args == (('s', y.args[0] if y.op == 'len' else y),):
            return not_(eq(x, y)) if x is a else FALSE
    if is_num(a) and is_num(b):
        return TRUE if num(a) < num(b) else FALSE
    if a is b:
        return FALSE
    if a.op == 'const' or b.op == 'const' or a.op == 'poly' or b.op == 'poly':
        try:
            d = sub(b, a)  # 0 < d
        except Limit:
            d = None
        if d is not None and d.op != 'ite':
            if is_num(d):
                return TRUE if num(d) > 0 else FALSE
            # 0 < len(x) <=> len(x) != 0
            p = _as_poly(d)
            cst = p.pop((), Fraction(0))
            rest = _from_poly(p)
            if len_sign(rest) and cst == 0:
                return not_(eq(rest, ZERO))
            if len_sign(rest) and cst == -1 and count_atom(rest):
                # 1 < len(x): keep as is
                pass
            mrest = neg(rest)
            if len_sign(mrest):  # 0 < cst - len
                if cst <= 0:
                    return FALSE
                if cst == 1:
                    return eq(mrest, ZERO)
                if count_atom(mrest) and cst == int(cst):
                    return not_(cond(mk('lt', const(cst - 1), mrest)))
            if len_sign(rest) and cst > 0:
                return TRUE
            # scale so that the leading coefficient has absolute value 1
            items = rest.args if rest.op == 'poly' else (((((rest, 1),)), Fraction(1)),)
            lead = abs(items[0][1])
            pos = {m: c / lead for m, c in _as_poly(rest).items() if c > 0}
            ng = {m: -c / lead for m, c in _as_poly(rest).items() if c < 0}
            cst = cst / lead
            a, b = _from_poly(ng), _from_poly(pos)
            if not pos:
                b = const(cst)
            elif cst != 0:
                a = add(a, const(-cst))
    return cond(mk('lt', a, b))


def lt(a, b):
    return lift(_lt, a, b)


_ctors['lt'] = lt


@ctor('min')
def _rebuild_min(*args):
    keep = sorted(set(args), key=lambda x: x.id)
    if all(a.op != 'ite' for a in keep) and 1 < len(keep) < 5:
        def above(a, b):
            try:
                d = sub(a, b)
            except Limit:
                return False
            return is_num(d) and num(d) > 0
        keep = [a for a in keep if not any(above(a, b) for b in keep)]
    return keep[0] if len(keep) == 1 else mk('min', *keep)


def le(a, b):
    # integers and floats alike (nan aside): a <= b iff not b < a
    return not_(lt(b, a))


# ---------------------------------------------------------------- strings

def strcat(*parts):
    out = []
    for p in parts:
        if p.op == 'strcat':
            items = p.args
        else:
            items = (p,)
        for x in items:
            if x.op == 'call' and x.args[0] == 'builtins.str' and \
                    len(x.args[1]) == 1 and not x.args[2]:
                x = x.args[1][0]    # what is joined is converted anyway
            if is_str(x):
                if x.args[1] == '':
                    continue
                if out and is_str(out[-1]):
                    out[-1] = const(out[-1].args[1] + x.args[1])
                    continue
            out.append(x)
    if not out:
        return const('')
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    if len(out) == 1 and out[0].op not in ('fmt', 'join'):
        return mk('call', 'builtins.str', (out[0],), ())
    return mk('strcat', *out)


def join(sep, c):
    """sep.join(c)"""
    if sep is const('') and c.op == 'seq' and len(c.args) > 1:
        # in pieces
        out = []
        for p in c.args:
            if p[0] == 'e':
                out.append(p[1])
            else:
                out.append(mk('call', 'join', (sep, rebuild('seq', (p,))),
                              ()))
        return lift(strcat, *out)
    return mk('call', 'join', (sep, c), ())


@ctor('strcat')
def _l_strcat(*parts):
    if any(p.op == 'ite' for p in parts):
        return lift(strcat, *parts)
    return strcat(*parts)


# ---------------------------------------------------------------- sequences
# seq(args): parts are ('e', term) | ('s', term) | ('m', domain, bind)
#   where bind maps the index to a sequence term.

def seq(*parts):
    out = []
    for p in parts:
        if p[0] == 's':
            x = p[1]
            if x.op == 'seq':
                out.extend(x.args)
            else:
                out.append(p)
        elif p[0] == 'm':
            q = _norm_map(p[1], p[2])
            out.extend(q)
        else:
            out.append(p)
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return mk('seq', *out)


def _norm_map(dom, b):
    if dom is ZERO:
        return []
    if b.args[1].op == 'seq' and b.args[1].args == ():
        return []
    if is_int(dom) and 0 <= num(dom) <= 12:
        out = []
        for i in range(int(num(dom))):
            x = open_bind(b, const(i))
            out.extend(x.args if x.op == 'seq' else [('s', x)])
        return out
    body = b.args[1]
    if body.op == 'ite' and all(
            l.op == 'seq' and len(l.args) == 1 and l.args[0][0] == 'e'
            for l in leaves(body)):
        # exactly one element per iteration
        iv = fresh_iv()
        body = ite_map(open_bind(b, iv), lambda l: l.args[0][1])
        b = close_bind(iv, mk('seq', ('e', body)))
        body = b.args[1]
    # [x[i] for i in range(len(x))] == x
    if body.op == 'seq' and len(body.args) == 1 and body.args[0][0] == 'e':
        e = body.args[0][1]
        if e.op == 'idx' and e.args[1].op == 'bnd' and \
                e.args[1].args[0] == b.args[0]:
            src = e.args[0]
            if not contains(src, e.args[1]) and dom is length(src):
                return list(src.args) if src.op == 'seq' else [('s', src)]
        if e.op == 'elt' and e.args[1].op == 'bnd' and \
                e.args[1].args[0] == b.args[0]:
            src = e.args[0]
            if not contains(src, e.args[1]) and dom is mk('len', src):
                return [('s', mk('elts', src))]
        if e.op == 'key' and e.args[1].op == 'bnd' and \
                e.args[1].args[0] == b.args[0]:
            src = e.args[0]
            if not contains(src, e.args[1]) and dom is length(src):
                return [('s', mk('keys', src))]
    split = _split_domain(dom, b)
    if split is not None:
        out = []
        for d, c in split:
            out.extend(_norm_map(d, c))
        return out
    return [('m', dom, b)]


def _open(t):
    """Whether a term depends on variables bound outside of it."""
    def rec(t, bound):
        if isinstance(t, tuple):
            return any(rec(x, bound) for x in t)
        if not isinstance(t, Term):
            return False
        if t.op == 'bnd':
            return t not in bound
        if t.op in ('iv', 'rec', 'mub'):
            return True
        if t.op == 'bind':
            bound = bound | {mk('bnd', t.args[0])}
        return any(rec(x, bound) for x in t.args)
    return rec(t, frozenset())


def _split_domain(dom, b):
    """[f(x[i], i) for i in range(len(x))], x in several parts: part by part.
    List of (domain, body), or None."""
    bnd = mk('bnd', b.args[0])
    src = None
    for t in subterms(b.args[1]):
        if isinstance(t, Term) and t.op == 'idx' and t.args[1] is bnd and \
                t.args[0].op == 'seq' and len(t.args[0].args) > 1 and \
                all(p[0] in 'sm' for p in t.args[0].args) and \
                not _open(t.args[0]) and \
                length(t.args[0]) is dom:
            src = t.args[0]
            break
    if src is None:
        return None
    out = []
    start = ZERO
    for p in src.args:
        part = seq(p)
        n = length(part)
        iv = fresh_iv()
        mark = mk('sym', '<own item>')
        i0 = fresh_iv()
        body = subst(open_bind(b, i0), {mk('idx', src, i0): mark})
        body = subst(body, {i0: add(start, iv)})
        body = subst(body, {mark: idx(part, iv)})
        out.append((n, close_bind(iv, body)))
        start = add(start, n)
    return out


def dictionary(*parts):
    """Dictionary term."""
    out = []
    for n, p in enumerate(parts):
        x = all_items(p)
        if x is not None and (out or parts[n + 1:]):
            r = merged(mk('dict', *out), x)
            for q in parts[n + 1:]:
                r = upd(r, q[1], q[2]) if q[0] == 'e' else \
                    merged(r, dictionary(q))
            return r
        if x is not None:
            return merged(mk('dict'), x)
        split = _split_domain(p[1], p[2]) if p[0] == 'm' else None
        if split is None:
            out.append(p)
        else:
            for d, c in split:
                out.extend(dictionary(('m', d, c)).args)
    return mk('dict', *out)


_ctors['dict'] = dictionary


def all_items(p):
    """The mapping of which all the items are taken, if any."""
    if p[0] != 'm' or p[1].op != 'len' or p[2].op != 'bind':
        return None
    x = p[1].args[0]
    iv = fresh_iv()
    kv = seq_literal(open_bind(p[2], iv))
    kv = seq_literal(kv[0]) if kv and len(kv) == 1 and kv[0].op == 'seq' \
        else None
    if kv is None or len(kv) != 2 or kv[1] is not mk('idx', x, kv[0]) or \
            kv[0] not in (mk('idx', x, iv), mk('key', x, iv)):
        return None
    return x


def merged(a, x):
    """Items of a, then all those of a mapping x."""
    if a.op == 'dict' and not a.args:
        iv = fresh_iv()
        k = mk('key', x, iv)
        return mk('dict', ('m', mk('len', x), close_bind(iv, seq_elems(
            seq_elems(k, mk('idx', x, k))))))
    if x.op == 'dict' and len(x.args) == 1:
        y = all_items(x.args[0])
        if y is not None:
            x = y
    return mk('merged', a, x)


_ctors['merged'] = merged


@ctor('seq')
def _rebuild_seq(*parts):
    ts = []
    for p in parts:
        ts.append(p[1])
    if any(t.op == 'ite' for p, t in zip(parts, ts) if p[0] in 'sm'):
        idx = [i for i, p in enumerate(parts) if p[0] in 'sm' and p[1].op == 'ite']
        i = idx[0]

        def f(x):
            q = list(parts)
            q[i] = (parts[i][0], x) + tuple(parts[i][2:])
            return _rebuild_seq(*q)
        c = parts[i][1]
        return ite_map(c, f)
    return seq(*parts)


def ite_map(t, f):
    if t.op == 'ite':
        return _node(t.args[0], ite_map(t.args[1], f), ite_map(t.args[2], f))
    return f(t)


def seq_elems(*ts):
    return seq(*[('e', t) for t in ts])


def _concat(a, b):
    pa = a.args if a.op == 'seq' else (('s', a),)
    pb = b.args if b.op == 'seq' else (('s', b),)
    return seq(*(tuple(pa) + tuple(pb)))


def seq_concat(a, b):
    return lift(_concat, a, b)


def seq_map(dom, iv, body):
    """Concatenation of body[iv] for iv in 0..dom-1 (body: sequence term)."""
    return seq(('m', dom, close_bind(iv, body)))


def seq_literal(t):
    """List of the elements if t is a literal sequence, else None."""
    if t.op == 'seq' and all(p[0] == 'e' for p in t.args):
        return [p[1] for p in t.args]
    return None


def _length(t):
    if t.op == 'keys':
        return length(t.args[0])
    if t.op == 'idx' and t.args[1] is mk('slc', NONE, NONE, const(-1)):
        return length(t.args[0])
    if t.op == 'seq':
        n = ZERO
        for p in t.args:
            if p[0] == 'e':
                n = add(n, ONE)
            elif p[0] == 's':
                n = add(n, length(p[1]))
            else:
                dom, b = p[1], p[2]
                iv = fresh_iv()
                k = length(open_bind(b, iv))
                n = add(n, sum_over(dom, iv, k))
        return n
    if t.op == 'slice':
        x, lo, hi = t.args
        if is_int(lo) and num(lo) >= 0 and hi is NONE:
            return sub(length(x), lo)
        if is_int(lo) and num(lo) >= 0 and is_int(hi) and num(hi) < 0:
            return sub(add(length(x), hi), lo)
        return mk('len', t)
    if t.op == 'upd':
        x = t.args[0]
        if x.op == 'seq' or x.op == 'updall' or True:
            # assignment to an index of a list keeps its length; a dictionary
            # may grow: only trust it for sequences
            base = x
            while base.op in ('upd',):
                base = base.args[0]
            if base.op == 'seq':
                return length(base)
        return mk('len', t)
    if t.op == 'updall':
        base = t.args[0]
        while base.op in ('upd', 'updall'):
            base = base.args[0]
        if base.op == 'seq':
            return length(base)
        return mk('len', t)
    if t.op == 'dict':
        if all(p[0] == 'e' for p in t.args):
            return const(len(t.args))
        return mk('len', t)
    if t.op == 'const' and is_str(t):
        return const(len(cval(t)))
    if t.op == 'sorted' or t.op == 'reversed':
        return length(t.args[0])
    if t.op in ('zeros', 'ones') and len(t.args) == 1 and \
            (t.args[0].op == 'len' or is_int(t.args[0])):
        return t.args[0]
    return mk('len', t)


def length(t):
    return lift(_length, t)


_ctors['len'] = length


def sum_over(dom, iv, body):
    """Sum of body[iv] for iv in 0..dom-1."""
    if body is ZERO or dom is ZERO:
        return ZERO
    if iv not in free(body):
        return mul(dom, body)
    if is_int(dom) and 0 <= num(dom) <= 12:
        r = ZERO
        for i in range(int(num(dom))):
            r = add(r, subst(body, {iv: const(i)}))
        return r
    # pull out constant factors of a single monomial
    if body.op == 'poly':
        tot = ZERO
        for m, c in body.args:
            inv = _from_poly({tuple((a, k) for a, k in m if iv not in free(a)): c})
            dep = _from_poly({tuple((a, k) for a, k in m if iv in free(a)): Fraction(1)})
            if iv not in free(dep):
                tot = add(tot, mul(dom, mul(inv, dep)))
            else:
                tot = add(tot, mul(inv, mk('sum', dom, close_bind(iv, dep))))
        return tot
    if body.op == 'ite' and all(is_num(x) for x in leaves(body)):
        # a combination of counts: of the indices for which each value is met
        base = body
        while base.op == 'ite':
            base = base.args[2]
        if len(leaves(body)) > 2 or ZERO not in leaves(body):
            tot = mul(dom, base)
            for c, x in cases(body):
                if x is not base:
                    tot = add(tot, mul(sub(x, base), mk(
                        'sum', dom, close_bind(iv, ite(c, ONE, ZERO)))))
            return tot
        other = [x for x in leaves(body) if x is not ZERO][0]
        if other is not ONE:
            return mul(other, mk('sum', dom, close_bind(
                iv, div(body, other))))
    return mk('sum', dom, close_bind(iv, body))


@ctor('sum')
def _rebuild_sum(dom, b):
    iv = fresh_iv()
    if b.op != 'bind':
        return mk('sum', dom, b)
    return sum_over(dom, iv, open_bind(b, iv))


def exists(dom, iv, c):
    """Exists iv in 0..dom-1 such that c (boolean) holds."""
    if c is FALSE or dom is ZERO:
        return FALSE
    if c is TRUE:
        return not_(eq(dom, ZERO))
    if is_int(dom) and 0 <= num(dom) <= 12:
        return or_(*[subst(c, {iv: const(i)}) for i in range(int(num(dom)))])
    if iv not in free(c):
        return and_(c, not_(eq(dom, ZERO)))
    if c.op == 'ite' and c.args[0].op == 'eq' and dom.op == 'len' and \
            c.args[1] is TRUE and c.args[2] is FALSE:
        # one of the items
        for a, b in (c.args[0].args, c.args[0].args[::-1]):
            if a.op == 'idx' and a.args[0] is dom.args[0] and \
                    a.args[1] is iv and iv not in free(b):
                return cond(mk('in', b, a.args[0]))
    return cond(mk('exists', dom, close_bind(iv, c)))


@ctor('exists')
def _rebuild_exists(dom, b):
    iv = fresh_iv()
    return exists(dom, iv, open_bind(b, iv))


# idx ----------------------------------------------------------------------

def definitely_different(i, j):
    if is_const(i) and is_const(j):
        return i is not j
    try:
        d = sub(i, j)
    except (Limit, Exception):
        return False
    if d.op == 'ite':
        return False
    return is_num(d) and num(d) != 0


def shape(t):
    """Shape of an array term (a sequence), or None."""
    if t.op in ('zeros', 'ones'):
        x = t.args[0]
        if x.op == 'seq':
            return x
        return seq_elems(x) if x.op == 'len' or is_int(x) else None
    if t.op in ('upd', 'updall'):
        return shape(t.args[0])
    if t.op == 'after':
        return shape(t.args[2])
    if t.op == 'call' and t.args[0] == 'numpy.concatenate' and \
            len(t.args[1]) == 1 and t.args[1][0].op == 'seq':
        lit = seq_literal(t.args[1][0])
        kw = dict(t.args[2])
        axis = kw.pop('axis', ZERO)
        if not lit or kw or not is_int(axis):
            return None
        shapes = [shape(x) for x in lit]
        if any(x is None or seq_literal(x) is None for x in shapes):
            return None
        shapes = [seq_literal(x) for x in shapes]
        k = int(num(axis))
        if len(set(map(len, shapes))) != 1 or \
                not -len(shapes[0]) <= k < len(shapes[0]):
            return None
        out = list(shapes[0])
        for x in shapes[1:]:
            out[k] = add(out[k], x[k])
        return seq_elems(*out)
    return None


def _idx(x, i):
    if x.op == 'call' and x.args[0] in ('numpy.eye', 'numpy.identity') and \
            len(x.args[1]) == 1 and not x.args[2] and is_int(i) and \
            is_int(x.args[1][0]):
        n, k = int(num(x.args[1][0])), int(num(i))
        if -n <= k < n <= 12:
            return seq_elems(*[ONE if j == k % n else ZERO
                               for j in range(n)])
    if x.op == 'reversed' or \
            x.op == 'idx' and x.args[1] is mk('slc', NONE, NONE, const(-1)):
        # from the end
        if is_int(i) and num(i) < 0:
            return idx(x.args[0], sub(const(-1), i))
        if is_int(i) or i.op in ('iv', 'bnd', 'mub'):
            return idx(x.args[0], sub(sub(length(x.args[0]), ONE), i))
    if i.op == 'icall' and i.args[2] == 'numpy.random.choice' and \
            i.args[3] == (mk('len', x),) and not i.args[4]:
        # an item at random
        return mk('icall', *(i.args[:3] + ((x,),) + i.args[4:]))
    if x.op == 'keys' and i.op in ('iv', 'bnd'):
        return mk('key', x.args[0], i)
    if x.op in ('zeros', 'ones') and (
            x.args[0].op == 'len' or is_int(x.args[0])) and \
            i.op in ('const', 'bnd', 'iv', 'poly', 'len'):
        return ZERO if x.op == 'zeros' else ONE
    if x.op == 'seq':
        lit = seq_literal(x)
        if is_int(i):
            n = int(num(i))
            parts = x.args
            if lit is not None:
                if -len(lit) <= n < len(lit):
                    return lit[n]
                return mk('idx', x, i)
            if n >= 0:
                if n < len(parts) and all(p[0] == 'e' for p in parts[:n + 1]):
                    return parts[n][1]
            else:
                k = -n
                if k <= len(parts) and all(p[0] == 'e' for p in parts[-k:]):
                    return parts[-k][1]
                m = 0
                while m < len(parts) and parts[-1 - m][0] == 'e':
                    m += 1
                if m and m < len(parts):
                    return idx(seq(*parts[:-m]), const(n + m))
        elif i.op == 'poly' or i.op == 'len':
            d = sub(i, length(x))
            if is_int(d) and num(d) < 0:
                return idx(x, d)
        # leading literal elements: not resolved; pure map: beta reduction
        if len(x.args) == 1 and x.args[0][0] == 'm':
            _, dom, b = x.args[0]
            body = b.args[1]
            if body.op == 'seq' and len(body.args) == 1 and body.args[0][0] == 'e':
                if is_int(i) and num(i) < 0:
                    i = add(dom, i)
                r = open_bind(b, i)
                return r.args[0][1]
        # index splits: concatenation of literal and maps with 1 elem/iteration
        if i.op != 'slice_obj' and not is_int(i):
            # [c0] + map: idx k+1 -> map[k] when i = j + n with j an iv >= 0
            n = 0
            parts = list(x.args)
            while parts and parts[0][0] == 'e':
                n += 1
                parts.pop(0)
            if n and parts:
                j = sub(i, const(n))
                base = _as_poly(j)
                if base.get((), 0) >= 0 and all(
                        c > 0 and all(a.op in ('iv', 'len', 'bnd') for a, _ in m)
                        for m, c in base.items() if m != ()):
                    return idx(seq(*parts), j)
        return mk('idx', x, i)
    if x.op == 'upd':
        b, k, v = x.args
        if k is i:
            return v
        if definitely_different(k, i):
            return idx(b, i)
        return mk('idx', x, i)
    if x.op == 'dict':
        # later entries win
        for p in reversed(x.args):
            if p[0] == 'e':
                if p[1] is i:
                    return p[2]
                if not definitely_different(p[1], i):
                    return mk('idx', x, i)
            else:
                return mk('idx', x, i)
        return mk('idx', x, i)
    if x.op == 'slice':
        y, lo, hi = x.args
        if is_int(lo) and num(lo) >= 0:
            if is_int(i) and num(i) < 0:
                if hi is NONE:
                    return idx(y, i)
                if is_int(hi) and num(hi) < 0:
                    return idx(y, add(hi, i))
            else:
                return idx(y, add(lo, i))
    if x.op == 'const' and is_str(x) and is_int(i):
        s = cval(x)
        n = int(num(i))
        if -len(s) <= n < len(s):
            return const(s[n])
    if x.op == 'unzipv' and is_int(i) and num(i) >= 0:
        iv = fresh_iv()
        return seq_map(length(x.args[0]), iv,
                       seq_elems(idx(idx(x.args[0], iv), i)))
    if x.op == 'fld' and x.args[1] == 'shape' and i is ZERO:
        return length(x.args[0])
    # x[len(x) - 1] == x[-1]
    if i.op == 'poly' or i.op == 'len':
        d = sub(i, length(x))
        if is_int(d) and num(d) < 0:
            return mk('idx', x, d)
    return mk('idx', x, i)


def table(x):
    """Content of a dictionary with constant keys."""
    if x.op == 'dict' and all(p[0] == 'e' and is_const(p[1])
                              for p in x.args):
        return {p[1]: p[2] for p in x.args}
    return None


def idx(x, i):
    if i.op == 'idx' and x.op == 'dict':
        # composed tables
        f, g = table(x), table(i.args[0])
        if f is not None and g is not None and \
                all(v in f for v in g.values()):
            return idx(mk('dict', *[('e', p[1], f[p[2]])
                                    for p in i.args[0].args]), i.args[1])
    return lift(_idx, x, i)


_ctors['idx'] = idx


def _slice(x, lo, hi):
    if hi is not NONE and hi is length(x):
        hi = NONE
    elif hi is not NONE and not is_const(hi):
        d = sub(hi, length(x))
        if is_int(d) and num(d) < 0:
            hi = d
    if lo is NONE:
        lo = ZERO
    if lo is ZERO and hi is NONE:
        return x
    lit = seq_literal(x)
    if lit is not None and is_int(lo) and (hi is NONE or is_int(hi)):
        return seq_elems(*lit[int(num(lo)):None if hi is NONE else int(num(hi))])
    if x.op == 'slice' and is_int(lo) and num(lo) >= 0 and hi is NONE and \
            is_int(x.args[1]) and num(x.args[1]) >= 0:
        return slice_(x.args[0], add(x.args[1], lo), x.args[2])
    if x.op == 'const' and is_str(x) and is_int(lo) and (hi is NONE or is_int(hi)):
        return const(cval(x)[int(num(lo)):None if hi is NONE else int(num(hi))])
    return mk('slice', x, lo, hi)


def slice_(x, lo, hi):
    return lift(_slice, x, lo, hi)


_ctors['slice'] = slice_


# updates --------------------------------------------------------------------

def _upd(x, k, v):
    if x.op == 'seq':
        lit = seq_literal(x)
        if lit is not None and is_int(k) and -len(lit) <= num(k) < len(lit):
            lit[int(num(k))] = v
            return seq_elems(*lit)
    if x.op == 'upd':
        b, k2, v2 = x.args
        if k2 is k:
            return _upd(b, k, v)
        if definitely_different(k, k2) and k.id < k2.id:
            return mk('upd', upd(b, k, v), k2, v2)
    if x.op == 'dict':
        parts = list(x.args)
        if all(p[0] == 'e' for p in parts):
            for n, p in enumerate(parts):
                if p[1] is k:
                    parts[n] = ('e', k, v)
                    return mk('dict', *parts)
            if all(definitely_different(p[1], k) for p in parts):
                return mk('dict', *(parts + [('e', k, v)]))
    if x.op == 'zeros' and v is ZERO:
        return x
    return mk('upd', x, k, v)


def upd(x, k, v):
    # values are not lifted (they may be diagrams)
    if x.op == 'ite' or k.op == 'ite':
        return lift(lambda a, b: _upd(a, b, v), x, k)
    return _upd(x, k, v)


_ctors['upd'] = upd


def setunion(*parts):
    """Set term; parts ('e', t) | ('s', t) | ('m', dom, bind)."""
    out = {}
    for p in parts:
        if p[0] == 's':
            x = p[1]
            if x.op in ('elts', 'keys'):
                x = x.args[0]
                p = ('s', x)
            if x.op in ('set',):
                for q in x.args:
                    out[q] = 1
                continue
            if x.op == 'seq':
                for q in x.args:
                    if q[0] == 's':
                        for r in setunion(q).args if q[1].op in ('set', 'seq') else [q]:
                            out[r] = 1
                    else:
                        out[q] = 1
                continue
        out[p] = 1
    if len(out) == 1:
        (p, _), = out.items()
        if p[0] == 's':
            return mk('set', p)
    return mk('set', *sorted(out, key=lambda p: (p[0], p[1].id,
                                                 p[2].id if len(p) > 2 else 0)))


@ctor('set')
def _rebuild_set(*parts):
    for i, p in enumerate(parts):
        if p[0] in 'sm' and p[1].op == 'ite':
            return ite_map(p[1], lambda x: _rebuild_set(
                *(parts[:i] + ((p[0], x) + tuple(p[2:]),) + parts[i + 1:])))
    return setunion(*parts)


# ---------------------------------------------------------------- printing

def show(t, depth=7):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(a, depth) for a in t) + ')'
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[1]) if a[0] == 's' else str(a[1])
    if o == 'sym':
        return str(a[0])
    if o == 'fld':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'slice':
        return '%s[%s:%s]' % (show(a[0], d), show(a[1], d),
                              '' if a[2] is NONE else show(a[2], d))
    if o == 'len':
        return 'len(%s)' % show(a[0], d)
    if o == 'poly':
        out = []
        for m, c in a:
            s = '*'.join(show(x, d) + ('' if k == 1 else '^%s' % k) for x, k in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return 'not ' + show(a[0], d)
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'lt':
        return '%s < %s' % (show(a[0], d), show(a[1], d))
    if o == 'truth':
        return 'bool(%s)' % show(a[0], d)
    if o == 'seq':
        out = []
        for p in a:
            if p[0] == 'e':
                out.append(show(p[1], d))
            elif p[0] == 's':
                out.append('*' + show(p[1], d))
            else:
                out.append('*{%s for i%s<%s}' % (show(p[2].args[1], d),
                                                p[2].args[0], show(p[1], d)))
        return '[' + ', '.join(out) + ']'
    if o == 'bnd':
        return 'i%s' % a[0]
    if o == 'iv':
        return '#%s' % (a[0])
    if o == 'rec':
        return 'rec.%s' % (a[-1],)
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1],
                              ', '.join(show(x, d) for x in a[2]))
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1]))
    if o == 'strcat':
        return ' ++ '.join(show(x, d) for x in a)
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def _pin():
    """Constants survive reset()."""
    for t in (TRUE, FALSE, NONE, ZERO, ONE):
        _table[(t.op, t.args)] = t


_old_reset = reset


def reset():  # noqa
    _old_reset()
    _pin()


_memo_constrain = {}


def constrain(f, c):
    """Generalised cofactor: canonical form of f where only c matters."""
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    key = (f, c)
    r = _memo_constrain.get(key)
    if r is not None:
        return r
    if len(_memo_constrain) > 600000:
        raise Limit('decision diagrams too large')
    x = _top(f, c)
    c1, c0 = assume(c, x, True), assume(c, x, False)
    f1, f0 = assume(f, x, True), assume(f, x, False)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    else:
        r = _node(x, constrain(f1, c1), constrain(f0, c0))
    _memo_constrain[key] = r
    return r


def implies(a, b):
    """a implies b, as far as the atoms tell."""
    return constrain(b, a) is TRUE or a is FALSE


def disjoint(a, b):
    return and_(a, b) is FALSE
