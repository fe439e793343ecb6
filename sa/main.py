"""Runs checks, reports violations and writes the evidence files."""

import importlib
import json
import os
import pkgutil
import sys
import time

from . import terms as T
from .rule import Ctx, OK, BAD, UNKNOWN
from .world import World, AnchorError
from . import rules

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_rules():
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module('sa.rules.' + m.name)
    return rules.CHECKS


def known_findings(prop):
    """Keys listed as `finding: property=<id> <key>` (recorded defects)."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    return out


def check(prop, tier, repo):
    world = World(repo)
    ctx = Ctx(world, prop, tier)
    broken = []
    for f in load_rules().get(prop, []):
        T.reset()
        try:
            f(ctx)
        except AnchorError as e:
            broken.append('%s: %s' % (f.__name__, e))
        except (T.Limit, RecursionError) as e:
            ctx.unknown(f.__name__, f.__name__, 'analysis limit: %s' % e)
        except Exception as e:
            # a construct that the analysis does not support: nothing is
            # claimed about it
            import traceback
            ctx.unknown(f.__name__, f.__name__, 'internal error: %r at %s' % (
                e, traceback.format_tb(e.__traceback__)[-1].strip()[:200]))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
    return ctx, broken


def main(argv):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(_main(argv)))
    t.start()
    t.join()
    return out[0] if out else 2


def _main(argv):
    repo = '/repo'
    verbose = '-v' in argv
    argv = [a for a in argv if a != '-v']
    if '--repo' in argv:
        i = argv.index('--repo')
        repo = argv[i + 1]
        del argv[i:i + 2]
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx, broken = check(prop, tier, repo)
    known = known_findings(prop)
    bad = [o for o in ctx.obligations if o.verdict == BAD]
    new = [o for o in bad if o.key() not in known]
    old = [o for o in bad if o.key() in known]
    unk = [o for o in ctx.obligations if o.verdict == UNKNOWN]
    ok = [o for o in ctx.obligations if o.verdict == OK]
    for o in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, o.key()))
    evdir = os.path.join(HERE, 'evidence')
    if not os.path.isdir(evdir):
        os.makedirs(evdir)
    by_rule = {}
    for o in ctx.obligations:
        d = by_rule.setdefault(o.rule, {OK: 0, BAD: 0, UNKNOWN: 0})
        d[o.verdict] += 1
    ev = {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis: every obligation below was '
            'decided from the current source of the listed functions, by '
            'abstract interpretation, or dataflow over syntax trees and '
            'symbol tables (no execution, no solver).',
            'obligations': len(ctx.obligations),
            'discharged': len(ok),
            'undecided': [o.key() + (': ' + o.detail if o.detail else '')
                          for o in unk],
            'by_rule': by_rule,
            'functions_analysed': sorted(ctx.functions),
            'functions': len(ctx.functions),
            'abstract_runs': ctx.runs,
            'events': ctx.events,
            'call_sites': len(ctx.call_sites),
            'samples': [o.key() for o in ok][:40],
        },
        'assumptions': ctx.notes,
        'violations': [{'rule': o.rule, 'construct': o.construct,
                        'where': o.where, 'detail': o.detail} for o in new],
        'wall_s': round(time.time() - t0, 3),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if verbose:
        for o in ctx.obligations:
            print('%-10s %s %s' % (o.verdict, o.key(), o.detail[:1500]))
    if broken:
        for b in broken:
            print('analysis broken: property=%s %s' % (prop, b))
        return 2
    if new:
        rp = os.path.join(evdir, prop + '.violation.txt')
        with open(rp, 'w') as f:
            for o in new:
                f.write('property: %s\nrule: %s\nconstruct: %s\nwhere: %s\n'
                        '%s\n\n' % (prop, o.rule, o.construct, o.where,
                                    o.detail))
        for o in new:
            print('%s: %s [%s]: %s' % (o.where, o.construct, o.rule, o.detail))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('property %s: %d obligations, %d hold, %d undecided, %d functions, '
          '%.1fs' % (prop, len(ctx.obligations), len(ok), len(unk),
                     len(ctx.functions), time.time() - t0))
    return 0
