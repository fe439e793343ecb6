"""Contents of arrays, region by region.

The index space of a table is partitioned according to the indices that a
function distinguishes (own states, following states, other ones...); each
region is represented by one position. `Layout.elem` gives the (symbolic)
value of an array term in such a region, following the chain of updates that
the abstract interpretation collected, whatever their order and the way they
select their items.
"""

from . import terms as T
from .terms import mk, const
from .rule import (Canon, name_of, understood, vocabulary, rename_args, BAD, UNKNOWN)
from .world import AnchorError


class Unknown(Exception):
    pass


UFUNCS = set('''numpy.exp numpy.log numpy.sqrt numpy.abs numpy.power
    numpy.square numpy.negative numpy.around'''.split())
COPIES = set('''numpy.asarray numpy.array numpy.copy copy
    numpy.asfarray'''.split())


class Layout(object):

    def __init__(self, ints=(), lists=(), arrays=()):
        """ints: {index term: position}, lists: {term of a list of indices:
        positions}, arrays: {array term: (sizes, initial item or None)}."""
        self.ints = dict(ints)
        self.lists = dict(lists)
        self.arrays = dict(arrays)
        for a, (sizes, _) in self.arrays.items():
            self.ints.setdefault(mk('len', a), sizes[0])
            for i, n in enumerate(sizes):
                self.ints.setdefault(
                    mk('idx', mk('fld', a, 'shape'), const(i)), n)
        for l, ps in self.lists.items():
            self.ints.setdefault(mk('len', l), len(ps))
            for i, p in enumerate(ps):
                self.ints.setdefault(mk('idx', l, const(i)), p)

    # ---- positions

    def position(self, t):
        """Position denoted by a term, or None."""
        if t in self.ints:
            return self.ints[t]
        if T.is_num(t):
            v = T.num(t)
            return int(v) if v.denominator == 1 else None
        if t.op == 'poly':
            tot = 0
            for m, c in t.args:
                x = c
                for a, k in m:
                    p = self.position(a)
                    if p is None or k < 0:
                        return None
                    x = x * p ** k
                tot += x
            return int(tot) if tot == int(tot) else None
        if t.op == 'len':
            l = self.positions(t.args[0])
            return None if l is None else len(l)
        if t.op == 'idx':
            l = self.positions(t.args[0])
            i = self.position(t.args[1])
            if l is not None and i is not None and -len(l) <= i < len(l):
                return l[i]
        return None

    def positions(self, t):
        if t in self.lists:
            return list(self.lists[t])
        if t.op == 'seq':
            n = self.position(T.length(t))
            if n is None or n > 64:
                return None
            out = [self.position(T.idx(t, const(i))) for i in range(n)]
            return None if any(x is None for x in out) else out
        if t.op == 'slice' and len(t.args) == 3:
            l = self.positions(t.args[0])
            lo, hi = [None if x is None or x is T.NONE else self.position(x)
                      for x in t.args[1:]]
            if l is None:
                return None
            return l[lo:hi]
        return None

    # ---- sizes

    def sizes(self, t):
        """Sizes of the axes of an array term, () if it is not an array."""
        if t in self.arrays:
            return self.arrays[t][0]
        if t in self.lists:
            return (len(self.lists[t]),)
        if t.op in ('upd', 'updall'):
            return self.sizes(t.args[0])
        if t.op == 'ite':
            s = set(self.sizes(x) for x in T.leaves(t))
            if len(s) != 1:
                raise Unknown('sizes')
            return s.pop()
        if t.op == 'seq':
            n = self.position(T.length(t))
            if n is None:
                raise Unknown('length of ' + T.show(t, 4))
            return (n,) + (self.sizes(T.idx(t, const(0))) if n else ())
        if t.op == 'idx':
            base = self.sizes(t.args[0])
            if not base:
                return ()
            return self._select(base, t.args[1])[0]
        if t.op == 'poly':
            return self._broadcast([self.sizes(a) for m, _ in t.args
                                    for a, _ in m])
        if t.op in ('zeros', 'ones'):
            return self._shape(t.args[0])
        if t.op == 'call':
            if t.args[0] == 'numpy.outer':
                return tuple(self.sizes(x)[0] for x in t.args[1][:2])
            if t.args[0] in UFUNCS | COPIES:
                return self.sizes(t.args[1][0])
            if t.args[0] in ('numpy.zeros', 'numpy.ones'):
                return self._shape(t.args[1][0])
        if t.op == 'mcall' and t.args[1] in ('copy', 'astype'):
            return self.sizes(t.args[0])
        if t.op == 'mcall' and t.args[1] in ('sum', 'max', 'min', 'mean'):
            base = self.sizes(t.args[0])
            if base and (t.args[2] or t.args[3]):
                raise Unknown('reduction')
            return ()
        for x in T.subterms(t):
            if x in self.arrays or x in self.lists:
                if t.op in ('len', 'call', 'mcall', 'icall', 'rcall', 'mu',
                            'lres', 'map', 'slice'):
                    if t.op == 'len':
                        return ()
                    raise Unknown('operation ' + T.show(t, 4))
        return ()

    def _shape(self, s):
        s = [T.idx(s, const(i)) for i in range(len(s.args))] \
            if s.op == 'seq' else [s]
        s = [self.position(x) for x in s]
        if any(x is None for x in s):
            raise Unknown('shape')
        return tuple(s)

    @staticmethod
    def _broadcast(shapes):
        n = max([len(s) for s in shapes] + [0])
        out = []
        for i in range(n):
            d = set(s[len(s) - n + i] for s in shapes if len(s) - n + i >= 0)
            d.discard(1)
            if len(d) > 1:
                raise Unknown('shapes')
            out.append(d.pop() if d else 1)
        return tuple(out)

    # ---- selections

    def components(self, index, rank):
        """Index components: ('i', p) | ('s', lo, hi) | ('l', positions) |
        ('n',) for a new axis."""
        comps = list(T.seq_literal(index)) if index.op == 'seq' and \
            T.seq_literal(index) is not None and \
            self.multi(index) else [index]
        out = []
        dots = None
        for c in comps:
            if c is const(Ellipsis):
                dots = len(out)
            elif c.op == 'ext' and c.args[0] == 'numpy.newaxis' or \
                    c is T.NONE:
                out.append(('n',))
            elif c.op == 'call' and c.args[0] == 'slc' or c.op == 'slc':
                lo, hi, step = c.args if c.op == 'slc' else c.args[1]
                if step is not None and step is not T.NONE:
                    raise Unknown('step')
                lo, hi = [None if x is None or x is T.NONE
                          else self._need(x) for x in (lo, hi)]
                out.append(('s', lo, hi))
            else:
                p = self.position(c)
                if p is not None:
                    out.append(('i', p))
                    continue
                l = self.positions(c)
                if l is None:
                    raise Unknown('index ' + T.show(c, 5))
                out.append(('l', l))
        n = sum(1 for c in out if c[0] != 'n')
        if n > rank:
            raise Unknown('too many indices')
        fill = [('s', None, None)] * (rank - n)
        if dots is None:
            dots = len(out)
        return out[:dots] + fill + out[dots:]

    def multi(self, index):
        """A tuple of components (lists of positions are given by symbols or
        by plain lists of integers, which select along one axis)."""
        return index not in self.lists

    def _need(self, t):
        p = self.position(t)
        if p is None:
            raise Unknown('position ' + T.show(t, 5))
        return p

    def _select(self, sizes, index):
        comps = self.components(index, len(sizes))
        if sum(1 for c in comps if c[0] == 'l') > 1:
            raise Unknown('several lists of indices')
        out = []
        src = []            # for each axis of the array: how it is read
        k = 0
        lists = [i for i, c in enumerate(comps) if c[0] == 'l']
        if lists:
            # an index separated from the list by a slice moves its axis
            fancy = [i for i, c in enumerate(comps) if c[0] in 'li']
            if fancy[-1] - fancy[0] + 1 != len(fancy):
                raise Unknown('moved axis')
        for c in comps:
            if c[0] == 'n':
                out.append(1)
                continue
            n = sizes[k]
            if c[0] == 'i':
                p = c[1] + n if c[1] < 0 else c[1]
                src.append(('i', p))
            elif c[0] == 's':
                r = range(*slice(c[1], c[2]).indices(n))
                src.append(('s', r.start, len(r)))
                out.append(len(r))
            else:
                src.append(('l', [x + n if x < 0 else x for x in c[1]]))
                out.append(len(c[1]))
            k += 1
        return tuple(out), src, comps

    # ---- items

    def elem(self, t, at):
        """Item of an array term at the given positions."""
        memo = {}
        return self._elem(t, tuple(at), memo)

    def _elem(self, t, at, memo):
        key = (t, at)
        if key not in memo:
            memo[key] = self.__elem(t, at, memo)
        return memo[key]

    def __elem(self, t, at, memo):
        if t.op == 'ite':
            return T.ite_map(t, lambda x: self._elem(x, at, memo))
        if t.op == 'len' and t.args[0] in self.lists:
            return const(len(self.lists[t.args[0]]))
        if t.op == 'const' or t.op == 'len':
            return t
        if t in self.arrays:
            sizes, init = self.arrays[t]
            at = at[len(at) - len(sizes):]
            at = tuple(0 if n == 1 else p for p, n in zip(at, sizes))
            if init is not None:
                return init
            r = t
            for p in at:
                r = mk('idx', r, const(p))
            return r
        if t in self.lists:
            return mk('idx', t, const(at[-1]))
        if t.op == 'upd':
            base, index, v = t.args
            sizes = self.sizes(base)
            at = at[len(at) - len(sizes):]
            out, src, comps = self._select(sizes, index)
            rest = []
            for p, s in zip(at, src):
                if s[0] == 'i':
                    if p != s[1]:
                        break
                elif s[0] == 's':
                    if not s[1] <= p < s[1] + s[2]:
                        break
                    rest.append(p - s[1])
                else:
                    if p not in s[1]:
                        break
                    rest.append(len(s[1]) - 1 - s[1][::-1].index(p))
            else:
                if any(c[0] == 'n' for c in comps):
                    raise Unknown('new axis')
                return self._elem(v, tuple(rest), memo)
            return self._elem(base, at, memo)
        if t.op == 'updall':
            base, dom, b = t.args
            n = self.position(dom)
            if n is None or n > 64:
                raise Unknown('loop domain')
            x = base
            for i in range(n):
                body = T.open_bind(b, const(i))
                lit = T.seq_literal(body)
                if lit is None or len(lit) != 3:
                    raise Unknown('loop')
                c, k, v = lit
                x = T.ite(c, mk('upd', x, k, v), x)
            return self._elem(x, at, memo)
        if t.op == 'idx':
            sizes = self.sizes(t.args[0])
            if not sizes:
                return t
            out, src, comps = self._select(sizes, t.args[1])
            at = at[len(at) - len(out):]
            full = []
            it = iter(at)
            k = 0
            for c in comps:
                if c[0] == 'n':
                    next(it)
                    continue
                s = src[k]
                k += 1
                if s[0] == 'i':
                    full.append(s[1])
                elif s[0] == 's':
                    p = next(it)
                    full.append(s[1] + (p if s[2] != 1 else 0))
                else:
                    p = next(it)
                    full.append(s[1][p if len(s[1]) != 1 else 0])
            return self._elem(t.args[0], tuple(full), memo)
        if t.op == 'poly':
            r = T.ZERO
            for m, c in t.args:
                x = const(c)
                for a, k in m:
                    x = T.mul(x, T.power(self._elem(a, at, memo), const(k)))
                r = T.add(r, x)
            return r
        if t.op == 'seq':
            sizes = self.sizes(t)
            at = at[len(at) - len(sizes):]
            p = at[0] if sizes[0] != 1 else 0
            return self._elem(T.idx(t, const(p)), at[1:], memo)
        if t.op in ('zeros', 'ones'):
            return const(0 if t.op == 'zeros' else 1)
        if t.op == 'call':
            n, args = t.args[0], t.args[1]
            if n == 'numpy.outer':
                return T.mul(self._elem(args[0], at[-2:-1], memo),
                             self._elem(args[1], at[-1:], memo))
            if n in UFUNCS:
                return mk('call', n, tuple(self._elem(x, at, memo)
                                           for x in args), t.args[2])
            if n in COPIES:
                return self._elem(args[0], at, memo)
            if n == 'numpy.zeros':
                return const(0)
            if n == 'numpy.ones':
                return const(1)
        if t.op == 'mcall' and t.args[1] in ('copy', 'astype'):
            return self._elem(t.args[0], at, memo)
        if t.op == 'mcall' and t.args[1] in ('sum', 'max', 'min', 'mean') \
                and self.sizes(t.args[0]):
            self.sizes(t)
            xs = [self._elem(t.args[0], p, memo)
                  for p in regions(self, self.sizes(t.args[0]))]
            if t.args[1] in ('sum', 'mean'):
                r = T.ZERO
                for x in xs:
                    r = T.add(r, x)
                return r if t.args[1] == 'sum' else \
                    T.mul(r, T.power(const(len(xs)), const(-1)))
            xs = sorted(set(xs), key=T.show)
            if len(xs) == 1:
                return xs[0]
            if all(x.op == 'const' for x in xs):
                return const((max if t.args[1] == 'max' else min)(
                    T.cval(x) for x in xs))
            return mk('call', 'builtins.' + t.args[1], tuple(xs), ())
        if not self.sizes(t):
            return t
        raise Unknown('array ' + T.show(t, 4))


def regions(layout, sizes):
    """All the positions of a table."""
    out = [()]
    for n in sizes:
        out = [c + (i,) for c in out for i in range(n)]
    return out


def content(ctx, q, name, **run):
    """Final content of the array given as a parameter."""
    r = ctx.run(q, **run)
    if r.interp.unsupported:
        raise Unknown('unsupported construct: %s' % r.interp.unsupported[:2])
    st = r.st
    if st.dead:
        raise Unknown('never returns')
    t = mk('sym', name) if isinstance(name, str) else name
    return Canon(r.interp)(r.interp.val(st, t)), Canon(r.interp)(st.pc), r


def same_table(ctx, rule, q, source, name, layout, construct=None, label=None,
               blank=None, **run):
    """The function fills the table like its specification, in every region.
    label: describes a position. blank: whether a position holds zero at
    first."""
    try:
        fi = ctx.world.fn(q)
    except AnchorError:
        ctx.unknown(rule, q, 'no such function')
        return
    construct = construct or '%s: %s' % (name_of(fi), T.show(
        name, 2) if not isinstance(name, str) else name)
    where = '%s:%s' % (fi.module.path.split('/repo/')[-1], fi.node.lineno)
    try:
        sp = ctx.spec(source, like=fi)
        sp.decorators += [d for d in fi.decorators
                          if d in ('classmethod', 'staticmethod')]
        g, pg, r = content(ctx, fi, name, **rename_args(fi, sp, run))
        w, pw, _ = content(ctx, sp, name, spec=True, **run)
        root = mk('sym', name) if isinstance(name, str) else name
        cells = regions(layout, layout.arrays[root][0])
        n = 0
        diff = None
        for at in cells:
            a = T.constrain(layout.elem(g, at), pw)
            b = T.constrain(layout.elem(w, at), pw)
            n += 1
            if blank is not None and blank(at):
                item = root
                for i in at:
                    item = mk('idx', item, const(i))
                a, b = (T.subst(x, {item: const(0)}) for x in (a, b))
            if a is b or T.eq(a, b) is T.TRUE:
                continue
            diff = (at, a, b)
            break
    except (Unknown, T.Limit, RecursionError) as e:
        ctx.unknown(rule, construct, str(e))
        return
    if diff is None:
        ctx.ok(rule, construct, '%d regions' % n)
        return
    at, a, b = diff
    ops, calls = vocabulary(w)
    ctx.compare(rule, construct, a, b, where=where,
                calls=calls | {'builtins.max', 'builtins.min'},
                ops=ops | {'ext'}, what='item %s' % (label(at) if label else str(at)))


def unit_sums(ctx, rule, q, name, layout, rows, total, construct=None,
              given=None, **run):
    """The items of each of the rows sum to the total. given: {term: term}
    known equalities (probabilities that sum to one)."""
    try:
        fi = ctx.world.fn(q)
    except AnchorError:
        ctx.unknown(rule, q, 'no such function')
        return
    construct = construct or '%s: %s' % (name_of(fi), name)
    where = '%s:%s' % (fi.module.path.split('/repo/')[-1], fi.node.lineno)
    a = fi.node.args
    try:
        g, pc, r = content(ctx, fi, name, **run)
        sizes = layout.arrays[mk('sym', name)][0]
        n = 0
        for row in rows:
            x = T.ZERO
            for j in range(sizes[-1]):
                x = T.add(x, layout.elem(g, row + (j,)))
            x = T.constrain(T.ite_map(x, lambda l: T.subst(l, given or {})),
                            pc)
            n += 1
            if x is const(total):
                continue
            bad = [l for l in T.leaves(x) if l is not const(total)]
            known = all(understood(l, UFUNCS) for l in bad) and \
                understood(x, UFUNCS)
            ctx.add(rule, construct, BAD if known else UNKNOWN,
                    'row %s sums to %s, expected %s' % (
                        row, T.show(x, 8)[:400], total), where)
            return
    except (Unknown, T.Limit, RecursionError) as e:
        ctx.unknown(rule, construct, str(e))
        return
    ctx.ok(rule, construct, '%d rows' % n)
