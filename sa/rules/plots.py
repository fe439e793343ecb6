"""What plots draw."""

from .. import terms as T
from ..terms import mk, const
from ..rule import equiv, law, watch
from . import rule

P = 'utils.plot.'
DRAWN = ('pcolormesh', 'set_xticks', 'set_xticklabels', 'set_yticks',
         'set_yticklabels', 'set_xlim', 'set_ylim', 'plot', 'errorbar',
         'fill_between', 'boxplot', 'set_ticklabels', 'legend',
         'matplotlib.pyplot.gca')
JUNK = 'task_models.utils.plot.remove_chartjunk'


def drawing(t):
    """Axes are true, ranges of numbers are lists."""
    ax = mk('sym', 'ax')
    t = T.subst(t, {mk('truth', ax): T.not_(T.eq(ax, T.NONE))})
    found = {}
    for x in T.subterms(t):
        if x.op == 'len' and x.args[0].op == 'mcall' and \
                x.args[0].args[1] in ('mean', 'std') and \
                x.args[0].args[2:] == ((), (('axis', const(1)),)):
            found[x] = T.length(x.args[0].args[0])
    t = T.subst(t, found)
    found = {}
    for x in T.subterms(t):
        n = numbers(x)
        if n is not None:
            found[x] = n
        elif x.op == 'poly':
            rest = [y for y in T.subterms(x) if numbers(y) is not None]
            if len(rest) == 1 and T.is_num(T.sub(x, rest[0])):
                found[x] = numbers(rest[0], T.sub(x, rest[0]))
    return T.subst(t, found)


DRAWING = dict(transform=drawing, effects_too=True)


def numbers(x, more=T.ZERO):
    """The list of the numbers of a range."""
    if x.op != 'call' or x.args[0] != 'numpy.arange' or x.args[2] or \
            not 1 <= len(x.args[1]) <= 2:
        return None
    a = x.args[1]
    start, stop = (T.ZERO, a[0]) if len(a) == 1 else a
    iv = T.fresh_iv()
    return T.seq_map(T.sub(stop, start), iv,
                     T.seq(('e', T.add(T.add(iv, start), more))))


@rule('C42')
def beliefs(ctx):
    spec = '''
        def f(array, states=None, ylabels=None, xlabels_rotation=0, ax=None,
              cmap=plt.cm.Blues, other=None):
            if not ax:
                ax = plt.gca()
            columns, rows = array.shape[1], array.shape[0]
            xs = states
            if states is None:
                xs = []
                for i in range(columns):
                    xs.append(str(i))
            assert len(xs) == columns
            ys = ylabels
            if ylabels is None:
                ys = []
                for i in range(rows):
                    ys.append(str(i))
            assert len(ys) == rows
            drawn = ax.pcolormesh(array, cmap=cmap%s)
            ax.set_xticks(np.arange(0.5, columns + 0.5))
            ax.set_xticklabels(xs, rotation=xlabels_rotation, ha='right')
            ax.set_yticks(np.arange(0.5, rows + 0.5))
            ax.set_yticklabels(ys)
            ax.set_xlim([0, columns])
            ax.set_ylim([0, rows])
            return drawn
        '''
    pick = watch(*DRAWN, writes=False)
    law(ctx, 'beliefs', 'plot.plot_beliefs', '''
        def f(array, states=None, ylabels=None, xlabels_rotation=0):
            return plot_beliefs(array, states=states, ylabels=ylabels,
                                xlabels_rotation=xlabels_rotation)
        ''', spec.replace(''', ax=None,
              cmap=plt.cm.Blues, other=None''', '').replace(
                  'if not ax', 'if True').replace('cmap=cmap%s',
                                                  'cmap=plt.cm.Blues'),
        'plot.plot_beliefs (beliefs)', pick=pick, **DRAWING)
    law(ctx, 'beliefs', 'plot.plot_beliefs', '''
        def f(array, states=None, ylabels=None, xlabels_rotation=0, ax=None,
              cmap=plt.cm.Blues, other=None):
            return plot_beliefs(array, states, ylabels, xlabels_rotation,
                                ax=ax, cmap=cmap, other=other)
        ''', spec % ', other=other', 'plot.plot_beliefs (options)', pick=pick,
        **DRAWING)


@rule('C42')
def samples(ctx):
    source = '''
        def f(y, x, color, var, var_style, ax, other):
            if not ax:
                ax = plt.gca()
            centers = np.mean(y, axis=1)
            spread = np.std(y, axis=1)
            at = np.arange(len(y)) if x is None else x
            bars = var and (var_style == 'bar' or var_style == 'both')
            if bars:
                if color is None:
                    lines = ax.errorbar(at, centers, other=other, yerr=spread)
                else:
                    lines = ax.errorbar(at, centers, other=other, yerr=spread,
                                        color=color, markeredgecolor=color)
            elif color is None:
                lines = ax.plot(at, centers, other=other)
            else:
                lines = ax.plot(at, centers, other=other, color=color,
                                markeredgecolor=color)
            if color is None:
                color = lines[0].get_color()
            at = lines[0].get_xdata()
            if var and (var_style == 'fill' or var_style == 'both'):
                ax.fill_between(at, centers - spread, centers + spread,
                                color=color, alpha=.2, linewidth=0)
            return lines
        '''
    law(ctx, 'samples', P + 'plot_var', '''
        def f(y, x, color, var, var_style, ax, other):
            return plot_var(y, x, color, var, var_style, ax=ax, other=other)
        ''', source, P + 'plot_var', accept=(source.replace('''
            if color is None:
                color = lines''', '''
            if True:
                color = lines'''), source.replace('''
            if color is None:
                color = lines''', '''
            if not color:
                color = lines''')), opaque=set([JUNK]), raises=False,
        pick=watch(*DRAWN, writes=False), **DRAWING)
    equiv(ctx, 'defaults', P + 'plot_var', '''
        def plot_var(y, x=None, color=None, var=True, var_style='fill',
                     **kwargs):
            pass
        ''', val=False, raises=False)


@rule('C42')
def lines(ctx):
    law(ctx, 'lines', P + 'plot', '''
        def f(x, y, ax, other):
            return plot(x, y, ax=ax, other=other)
        ''', '''
        def f(x, y, ax, other):
            return (ax if ax else plt.gca()).plot(x, y, other=other,
                                                  linewidth=0.75)
        ''', P + 'plot', opaque=set([JUNK]), raises=False,
        pick=watch(*DRAWN, writes=False), **DRAWING)
    law(ctx, 'lines', P + 'plot', '''
        def f(x, y, linewidth):
            return plot(x, y, linewidth=linewidth)
        ''', '''
        def f(x, y, linewidth):
            return plt.gca().plot(x, y, linewidth=linewidth)
        ''', P + 'plot (width)', opaque=set([JUNK]), raises=False,
        pick=watch(*DRAWN, writes=False), **DRAWING)


@rule('C42')
def boxes(ctx):
    law(ctx, 'boxes', P + 'boxplot', '''
        def f(x, ax, xticklabels, other):
            return boxplot(x, ax=ax, xticklabels=xticklabels, other=other)
        ''', '''
        def f(x, ax, xticklabels, other):
            where = ax or plt.gca()
            drawn = where.boxplot(x, other=other, widths=0.15)
            if not (xticklabels is None):
                where.xaxis.set_ticklabels(xticklabels)
            return drawn
        ''', P + 'boxplot', opaque=set([JUNK]), raises=False,
        pick=watch(*DRAWN, writes=False), **DRAWING)


@rule('C42')
def heat(ctx):
    law(ctx, 'heat map', P + 'pcolormesh', '''
        def f(x, ax, xticklabels, yticklabels, cmap, other):
            return pcolormesh(x, ax=ax, xticklabels=xticklabels,
                              yticklabels=yticklabels, cmap=cmap, other=other)
        ''', '''
        def f(x, ax, xticklabels, yticklabels, cmap, other):
            where = ax or plt.gca()
            drawn = where.pcolormesh(x, cmap=cmap, other=other)
            if xticklabels:
                where.set_xticks(np.arange(0.5, x.shape[1] + 0.5))
                where.set_xticklabels(xticklabels)
            if yticklabels:
                where.set_yticks(np.arange(0.5, x.shape[0] + 0.5))
                where.set_yticklabels(yticklabels)
            where.set_xlim([0, x.shape[1]])
            where.set_ylim([0, x.shape[0]])
            return drawn
        ''', P + 'pcolormesh', opaque=set([JUNK]), raises=False,
        pick=watch(*DRAWN, writes=False), **DRAWING)
    law(ctx, 'colors', P + 'pcolormesh', '''
        def f(x):
            return pcolormesh(x)
        ''', '''
        def f(x):
            if np.alltrue(x >= 0):
                colors = plt.cm.Reds
            elif np.alltrue(x <= 0):
                colors = plt.cm.Blues
            else:
                colors = plt.cm.Blues_r
            return plt.gca().pcolormesh(x, cmap=colors)
        ''', P + 'pcolormesh (colors)', opaque=set([JUNK]), raises=False,
        pick=watch('pcolormesh', writes=False))


@rule('C42')
def lengths(ctx):
    equiv(ctx, 'colors', P + 'get_n_colors', '''
        def get_n_colors(n, color_map=plt.get_cmap()):
            out = []
            for i in range(n):
                out.append(color_map(float(i) / n))
            return out
        ''')


@rule('C42')
def frame(ctx):
    source = '''
        def remove_chartjunk(ax, spines, grid=None, ticks=None,
                             ticklabels=None):
            for name in spines:
                ax.spines[name].set_visible(False)
            if ticks is not None and 'x' in ticks:
                ax.xaxis.set_ticks_position('none')
            if ticks is not None and 'y' in ticks:
                ax.yaxis.set_ticks_position('none')
            if grid is not None:
                for g in grid:
                    if g not in ('x', 'y'):
                        raise AssertionError
            if ticklabels is None:
                return
            which = ticklabels
            if type(which) is str:
                which = [which]
            if len(set(which) & set(('x', 'y'))) == 0:
                raise AssertionError
            if 'x' in which:
                ax.set_xticklabels([])
            if 'y' in which:
                ax.set_yticklabels([])
        '''
    equiv(ctx, 'frame', P + 'remove_chartjunk', source, accept=(
        source.replace('''in spines:
                ax.''', '''in ['top', 'bottom', 'right', 'left']:
                if name in spines: ax.'''),), raises=False, pick=watch(
            'set_visible', 'set_ticks_position', 'set_xticklabels',
            'set_yticklabels', writes=False))


@rule('C42')
def legends(ctx):
    for given, where in (('ax=a, ', 'a'), ('fig=a, ', 'a'),
                         ('ax=a, fig=b, ', 'a'), ('', 'plt.gca()')):
        law(ctx, 'legends', P + 'legend', '''
            def f(a, b, names, other):
                assert a is not None and a
                assert b is not None and b
                return legend(names, %sother=other)
            ''' % given, '''
            def f(a, b, names, other):
                assert a is not None and a
                assert b is not None and b
                return %s.legend(names, frameon=True, scatterpoints=1,
                                 other=other, loc='best')
            ''' % where, P + 'legend (%s)' % given, raises=False,
            pick=watch('legend', 'matplotlib.pyplot.gca', writes=False))
    law(ctx, 'legends', P + 'legend', '''
        def f(names, loc):
            return legend(names, loc=loc)
        ''', '''
        def f(names, loc):
            return plt.gca().legend(names, frameon=True, scatterpoints=1,
                                    loc=loc)
        ''', P + 'legend (place)', raises=False,
        pick=watch('legend', writes=False))
