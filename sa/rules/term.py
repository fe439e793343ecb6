"""What progress bars show."""

from .. import terms as T
from ..rule import equiv, watch
from . import rule

B = 'utils.term.'
PROGRESS = 'task_models.' + B + 'progress_bar'


def whole(t):
    """Whole parts of the shares of what there is to do, as quotients."""
    todo = T.mk('sym', 'todo')
    return T.subst(t, {x: T.floordiv(T.mul(x.args[1][0], todo), todo)
                       for x in T.subterms(t)
                       if x.op == 'call' and x.args[0] == 'builtins.int' and
                       len(x.args[1]) == 1 and x.args[1][0].op != 'rounded'})


@rule('C44')
def bars(ctx):
    equiv(ctx, 'bar', B + 'progress_bar', '''
        def progress_bar(done, todo, count=True, size=50):
            counts = ''
            if count:
                width = len('{:,d}'.format(todo))
                counts = ' {:{digits},d}/{:{digits},d}'.format(
                    done, todo, digits=width)
            filled = '#' * int(size * done / todo)
            return '[{done_bar:.<{size}} {percent:>3d}%] {count}'.format(
                done_bar=filled, size=size, percent=int(100 * done / todo),
                count=counts)
        ''', transform=whole, calls=('builtins.int', 'builtins.str'))
    equiv(ctx, 'line', B + 'print_progress_bar', '''
        def print_progress_bar(done, todo, count=True, size=50, color=None,
                               prefix=''):
            if done <= todo:
                print(prefix + colored(progress_bar(done, todo, count, size),
                                       color=color), end='\\r')
                if not done != todo:
                    print()
                sys.stdout.flush()
        ''', opaque={PROGRESS}, types={'prefix': 'str'}, pick=watch('builtins.print', 'sys.stdout.flush',
                                           writes=False))
