"""Evaluations, experiments and parallel repetitions."""

import ast

from .. import terms as T
from ..terms import mk, const
from ..world import AnchorError
from ..rule import equiv, in_order, law, plain, watch
from . import rule

E = 'evaluation.'
EXP = E + 'SupportiveExperiment.'
FIN = E + 'FinishedOrNTransitionsHorizon.'
ELAPSED = 'task_models.utils.multiprocess.get_process_elapsed_time'
MP = 'utils.multiprocess.'

ONE = '''
    def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
                                discount=True):
        calls = model.n_simulator_calls
        pol.reset()
        states = [model.sample_start()]
        actions, observations, rewards = [], [], []
        total = 0
        horizon = FinishedOrNTransitionsHorizon(model, max_horizon)
        while not horizon.is_reached():
            previous = states[-1]
            action = model.actions.index(pol.get_action())
            new, obs, reward = model.sample_transition(action, previous)
            weight = 1.
            if discount:
                weight = model.discount ** len(rewards)
            total = total + weight * reward
            actions.append(action)
            observations.append(obs)
            rewards.append(reward)
            horizon.decrement(action, previous, new, obs)
            pol.step(model.observations[obs])
            states.append(new)
        elapsed = get_process_elapsed_time()
        calls = model.n_simulator_calls - calls
        if logger is not None:
            logger(episode_summary(model, total, states, actions,
                                   observations, rewards, calls,
                                   elapsed=elapsed))
        out = {}
        out['return'] = total
        out['states'] = states
        out['actions'] = actions
        out['observations'] = observations
        out['rewards'] = rewards
        out['elapsed-time'] = elapsed.total_seconds()
        out['simulator-calls'] = calls
        return out
    '''
OPAQUE = set([ELAPSED, 'task_models.' + E + 'episode_summary'])


@rule('C17')
def returns(ctx):
    equiv(ctx, 'discounted return', E + 'simulate_one_evaluation', ONE,
          opaque=OPAQUE, parts={'return': 'return'})


@rule('C29')
def records(ctx):
    equiv(ctx, 'records', E + 'simulate_one_evaluation', ONE, opaque=OPAQUE,
          parts={k: k for k in ('states', 'actions', 'observations',
                                'rewards', 'simulator-calls',
                                'elapsed-time')},
          pick=watch('reset', 'step', 'get_action', 'sample_start',
                     'sample_transition', E + 'episode_summary',
                     once=('reset', 'step', 'get_action')))
    steps = OPAQUE | set('task_models.' + FIN + n
                         for n in ('decrement', 'is_reached'))
    equiv(ctx, 'horizon', E + 'simulate_one_evaluation', ONE, opaque=steps,
          val=False, raises=False, pick=watch(
              'decrement', FIN + 'decrement', writes=False,
              once=('decrement', 'task_models.' + FIN + 'decrement')))


@rule('C29')
def counted(ctx):
    """Each simulated transition counts as one call of the simulator."""
    equiv(ctx, 'calls of the simulator',
          'supportive.SupportivePOMDP.sample_transition', '''
        def sample_transition(self, a, s, random=True):
            self.n_simulator_calls = 1 + self.n_simulator_calls
        ''', val=False, raises=False, fields=('n_simulator_calls',))


@rule('C29')
@rule('C17')
def evaluations(ctx):
    equiv(ctx, 'evaluations', E + 'evaluate', '''
        def evaluate(model, pol, n_evaluation, max_horizon=200, logger=None):
            def one():
                return simulate_one_evaluation(
                    model, pol, max_horizon=max_horizon, logger=logger,
                    discount=True)
            return repeat(one, n_evaluation)
        ''', opaque=set(['task_models.utils.multiprocess.repeat',
                         'task_models.' + E + 'simulate_one_evaluation']),
          pick=watch('utils.multiprocess.repeat',
                     E + 'simulate_one_evaluation'))


@rule('C29')
def summary(ctx):
    equiv(ctx, 'summary', E + 'episode_summary', '''
        def episode_summary(model, full_return, h_s, h_a, h_o, h_r, n_calls,
                            elapsed=None):
            lines = ["Evaluation: {} transitions, return: {:4.0f} [{:,} calls"
                     " in {}]".format(len(h_a), full_return, n_calls,
                                      elapsed)]
            text = lines[0] + "\\n"
            for s, a, o, r in zip(h_s, h_a, h_o, h_r):
                text += "    {}: {} → {} [{}]\\n".format(
                    model._int_to_state(s), model.actions[a],
                    model.observations[o], r)
            return text + "    {}".format(model._int_to_state(h_s[-1]))
        ''')


@rule('C28')
@rule('C02')
def horizons(ctx):
    n = 'number of transitions'
    equiv(ctx, n, FIN + '__init__', '''
        def __init__(self, model, n):
            self.model = model
            self.n = n
            self._is_final = False
        ''', fields=('n', 'model', '_is_final'))
    law(ctx, n, FIN + 'is_reached', '''
        def f(self):
            return (True if self.is_reached() else False, self.n)
        ''', '''
        def f(self):
            return (True if self._is_final else self.n <= 0, self.n)
        ''', FIN + 'is_reached', accept=('''
        def f(self):
            return (True if self._is_final else self.n < 1, self.n)
        ''',))
    equiv(ctx, n, FIN + 'decrement', '''
        def decrement(self, a, s, new_s, o):
            self.n = self.n - 1
            self._is_final = self.model._int_to_state(new_s).is_final()
        ''', fields=('n', '_is_final', 'model'))
    law(ctx, n, FIN + 'copy', '''
        def f(self):
            c = self.copy()
            return (type(c), c.n, c.model, c._is_final, c is self, self.n,
                    self._is_final)
        ''', '''
        def f(self):
            return (FinishedOrNTransitionsHorizon, self.n, self.model,
                    self._is_final, False, self.n, self._is_final)
        ''', FIN + 'copy')
    law(ctx, n, FIN + 'copy', '''
        def f(cls, model, n):
            g = FinishedOrNTransitionsHorizon.generator(model, n=n)
            h = g()
            return (type(h), h.n, h.model, h.is_reached(), h is g())
        ''', '''
        def f(cls, model, n):
            return (FinishedOrNTransitionsHorizon, n, model, n <= 0, False)
        ''', FIN + 'generator', accept=('''
        def f(cls, model, n):
            return (FinishedOrNTransitionsHorizon, n, model, n < 1, False)
        ''',))


@rule('C28')
@rule('C02')
def step_horizons(ctx):
    n = 'number of transitions'
    H = 'supportive.NHTMHorizon.'
    equiv(ctx, n, H + '__init__', '''
        def __init__(self, model, n):
            self.n = n
            self.model = model
        ''', fields=('n', 'model'))
    equiv(ctx, n, H + 'is_reached', '''
        def is_reached(self):
            return self.n <= 0
        ''', fields=('n',), accept=('''
        def is_reached(self):
            return not self.n >= 1
        ''',))
    equiv(ctx, n, H + 'decrement', '''
        def decrement(self, a, s, new_s, o):
            before = self.model._int_to_state(s)
            after = self.model._int_to_state(new_s)
            if after.is_final():
                self.n = 0
            elif after.htm != before.htm:
                self.n = self.n - 1
        ''', fields=('n', 'model'), accept=('''
        def decrement(self, a, s, new_s, o):
            before = self.model._int_to_state(s)
            after = self.model._int_to_state(new_s)
            if self.model.is_final(new_s):
                self.n = 0
            elif after.htm != before.htm:
                self.n = self.n - 1
        ''',))
    law(ctx, n, H + 'copy', '''
        def f(self):
            c = self.copy()
            return (type(c), c.n, c.model, c is self, self.n)
        ''', '''
        def f(self):
            return (NHTMHorizon, self.n, self.model, False, self.n)
        ''', H + 'copy', calls=('builtins.max', 'builtins.min'))
    law(ctx, n, H + 'copy', '''
        def f(cls, model, n):
            g = NHTMHorizon.generator(model, n=n)
            h = g()
            return (type(h), h.n, h.model, h is g())
        ''', '''
        def f(cls, model, n):
            return (NHTMHorizon, n, model, False)
        ''', H + 'generator', calls=('builtins.max', 'builtins.min'))


# ---------------------------------------------------------------- experiments

@rule('C22')
def parameters(ctx):
    law(ctx, 'parameters', EXP + 'run', '''
        def f(cls, given):
            e = SupportiveExperiment(parameters=given)
            return (e.parameters, e.results, e.path)
        ''', '''
        def f(cls, given):
            p = dict(SupportiveExperiment.DEFAULT_PARAMETERS)
            if given:
                p.update(given)
            return (p, {}, None)
        ''', EXP + '__init__', accept=('''
        def f(cls, given):
            p = dict(SupportiveExperiment.DEFAULT_PARAMETERS)
            if given is not None:
                p.update(given)
            return (p, {}, None)
        ''',))
    law(ctx, 'parameters', EXP + 'run', '''
        def f(cls, v, w):
            e = SupportiveExperiment(parameters={'n_warmup': v, 'more': w})
            return (e.parameters['n_warmup'], e.parameters['more'],
                    e.parameters['iterations'], e.parameters['policy'],
                    len(e.parameters))
        ''', '''
        def f(cls, v, w):
            d = SupportiveExperiment.DEFAULT_PARAMETERS
            return (v, w, d['iterations'], d['policy'], len(d) + 1)
        ''', EXP + '__init__ (override)')
    law(ctx, 'parameters', EXP + 'run', '''
        def f(cls, v):
            e = SupportiveExperiment(parameters={'n_warmup': v})
            g = SupportiveExperiment()
            return (SupportiveExperiment.DEFAULT_PARAMETERS is e.parameters,
                    SupportiveExperiment.DEFAULT_PARAMETERS is g.parameters,
                    e.parameters is g.parameters, e.results is g.results,
                    g.parameters['n_warmup'])
        ''', '''
        def f(cls, v):
            return (False, False, False, False,
                    SupportiveExperiment.DEFAULT_PARAMETERS['n_warmup'])
        ''', EXP + '__init__ (own parameters)')
    equiv(ctx, 'parameters', EXP + '__init__', '''
        def __init__(self, parameters=None):
            p = {}
            p.update(self.DEFAULT_PARAMETERS)
            if parameters:
                p.update(parameters)
            self.parameters = p
        ''', fields=('parameters',), pick=watch(
            skip=('parameters', 'results', 'path', 'log')), accept=('''
        def __init__(self, parameters=None):
            p = {}
            p.update(self.DEFAULT_PARAMETERS)
            if parameters is not None:
                p.update(parameters)
            self.parameters = p
        ''',))
    equiv(ctx, 'parameters', EXP + 'load_from_serialized', '''
        def load_from_serialized(cls, config_path):
            with open(config_path, 'r') as fd:
                return cls(parameters=json.load(fd))
        ''')


@rule('C22')
def run(ctx):
    q = set('task_models.' + EXP + n for n in (
        'init_run', 'finish_run', 'write_result', 'log_parameters',
        'set_debug_parameters'))
    q.add('task_models.' + E + 'evaluate')
    equiv(ctx, 'run', EXP + 'run', '''
        def run(self, debug=False):
            if debug:
                self.set_debug_parameters()
            self.log_parameters()
            self.results['parameters'] = self.parameters
            self.init_run()
            start = time.time()
            self.policy.get_action(iterations=self.parameters['n_warmup'])
            self.results['t_warmup'] = time.time() - start
            self.results['evaluations'] = evaluate(
                self.model, self.policy, self.parameters['n_evaluations'],
                logger=self.log, **self.EVALUATE_ARGUMENTS)
            self.finish_run()
            if self.path is not None:
                self.write_result(self.path)
        ''', opaque=q, pick=watch('get_action', E + 'evaluate', *[
            EXP + n for n in ('init_run', 'finish_run', 'write_result',
                              'set_debug_parameters')]))
    in_order(ctx, 'run', EXP + 'run', [
        ('init_run', 'get_action'), ('evaluate', 'finish_run'),
        ('finish_run', 'write_result')], opaque=q)
    equiv(ctx, 'run', EXP + 'write_result', '''
        def write_result(self, path):
            with io.open(path, 'w') as fd:
                json.dump(self.results, fd, cls=NPEncoder)
        ''', pick=watch('json.dump', 'io.open', 'write'))
    equiv(ctx, 'saved numbers', 'lib.utils.NPEncoder.default', '''
        def default(self, obj):
            if isinstance(obj, np.integer):
                return int(obj)
            if isinstance(obj, np.floating):
                return float(obj)
            if isinstance(obj, np.ndarray):
                return obj.tolist()
            return super(NPEncoder, self).default(obj)
        ''', setup=lambda I, st: setattr(I, 'exact_float', True))
    equiv(ctx, 'run', EXP + 'finish_run', '''
        def finish_run(self):
            return None
        ''', pick=watch())


@rule('C22')
def planner(ctx):
    P = 'task_models.lib.pomcp.POMCPPolicyRunner'
    equiv(ctx, 'planner', EXP + 'init_pomcp_policy', '''
        def init_pomcp_policy(self):
            p = self.parameters
            if p['horizon-type'] == 'htm':
                gen = NHTMHorizon.generator(self.model, n=p['horizon-length'])
            else:
                gen = FinishedOrNTransitionsHorizon.generator(
                    self.model, n=p['horizon-length'])
            self.policy = POMCPPolicyRunner(
                self.model, horizon=gen, iterations=p['iterations'],
                belief='particle',
                belief_params={'n_particles': p['n_particles']},
                belief_values=p['belief-values'],
                relative_exploration=p['relative-explo'],
                exploration=p['exploration'],
                rollout_it=p['rollout-iterations'])
        ''', fields=('policy',), opaque=set([
            'task_models.lib.belief.ParticleBelief']))


_launched = watch(EXP + 'run', EXP + 'load_from_serialized')


def command_line(e):
    """Arguments of the command line, without their description."""
    if e.kind == 'call' and e.d.get('name') in ('add_argument',
                                                'parse_args'):
        kw = dict(e.d.get('kw') or {})
        kw.pop('help', None)
        if kw.get('default') is T.NONE:
            kw.pop('default')
        return (const(e.name), plain(tuple(e.args)), plain(tuple(
            plain((k, v)) for k, v in sorted(kw.items()))))
    return _launched(e)


command_line.once = _launched.once


@rule('C22')
def launch(ctx):
    equiv(ctx, 'launch', EXP + 'run_from_arguments', '''
        def run_from_arguments(cls, debug=False):
            parser = argparse.ArgumentParser(
                description="Script to run evaluation job of the supportive"
                            " policy")
            parser.add_argument('config', nargs='?', default=None,
                                help='json file containing experiment'
                                     ' parameters')
            parser.add_argument('path', nargs='?', default=None,
                                help='working path')
            parser.add_argument('name', nargs='?', default=None,
                                help='experiment name')
            parser.add_argument('--debug', action='store_true',
                                help='quick interactive run with dummy'
                                     ' parameters')
            args = parser.parse_args(sys.argv[1:])
            exp = cls()
            if args.config is not None:
                exp = cls.load_from_serialized(args.config)
            if args.path is not None:
                exp.path = os.path.join(args.path, args.name + '.json')
            exp.run(debug=args.debug or debug)
        ''', opaque=set(['task_models.' + EXP + n for n in (
            'run', 'load_from_serialized')]), pick=command_line)
    fi = ctx.world.fn(EXP + 'run_from_arguments')
    r = ctx.run(fi, opaque=set(['task_models.' + EXP + n for n in (
        'run', 'load_from_serialized')]))
    names = [(e.args[0].args[1], e.where) for e in r.events
             if e.kind == 'call' and e.d.get('name') == 'add_argument' and
             e.args and e.args[0].op == 'const' and
             not str(e.args[0].args[1]).startswith('-')]
    want = ['config', 'path', 'name']
    what = 'order of the arguments of run_from_arguments'
    if [n for n, _ in names] == want:
        ctx.ok('launch', what)
    elif sorted(n for n, _ in names) == sorted(want):
        ctx.bad('launch', what, 'the arguments are %s, expected %s' % (
            ', '.join(n for n, _ in names), ', '.join(want)), names[0][1])
    else:
        ctx.unknown('launch', what, 'arguments not found')


@rule('C22')
def results(ctx):
    L = E + 'ExpLauncher.'
    equiv(ctx, 'results', L + 'get_results_from_one', '''
        def get_results_from_one(job):
            file_name = job.name + '.json'
            with io.open(os.path.join(job.path, file_name), 'r') as fd:
                data = json.load(fd)
            returns, times, calls = [], [], []
            for r in data['evaluations']:
                returns.append(r['return'])
                times.append(r['elapsed-time'])
                calls.append(r['simulator-calls'])
            return (returns, times, calls)
        ''')
    equiv(ctx, 'results', L + 'get_results', '''
        def get_results(self):
            out = {}
            for j in self.jobs:
                out[j] = self.get_results_from_one(self.jobs[j])
            return out
        ''', opaque=set(['task_models.' + L + 'get_results_from_one']))
    equiv(ctx, 'results', L + 'action_prepare', '''
        def action_prepare(self):
            for n in self.exps:
                job = self.jobs[n]
                with io.open(job.config, 'w') as fd:
                    json.dump(self.exps[n], fd, indent=2)
        ''', pick=watch('json.dump', 'io.open'), accept=('''
        def action_prepare(self):
            for n in sorted(self.exps):
                job = self.jobs[n]
                with io.open(job.config, 'w') as fd:
                    json.dump(self.exps[n], fd, indent=2)
        ''',))


# ------------------------------------------------------- parallel repetitions

@rule('C21')
def repeat(ctx):
    R = MP + 'RepeatPool.'
    law(ctx, 'repetitions', MP + 'repeat', '''
        def f(func, n):
            return repeat(func, n)
        ''', '''
        def f(func, n):
            return RepeatPool(func).run(n)
        ''', MP + 'repeat', opaque=set(['task_models.' + R + 'run']))
    equiv(ctx, 'repetitions', R + 'work', '''
        def work(self, seed):
            np.random.seed(seed)
            self.result_queue.put(self.target())
        ''', pick=watch('put', 'numpy.random.seed', 'target'),
          calls=('os.getpid', 'time.time', 'numpy.random.choice'))
    in_order(ctx, 'repetitions', R + 'work', [('seed', 'target')])
    steps = [R + n for n in ('_still_working', '_clean', '_fill')]
    if uses(ctx, R + 'run', steps):
        return repeat_steps(ctx, R, steps)
    equiv(ctx, 'repetitions', R + 'run', '''
        def run(self, n):
            self.workers = [None for _ in range(self.n_processes)]
            self.to_go = n
            self.result_queue = Queue()
            out = []
            while self.to_go > 0 or any(w is not None for w in self.workers):
                alive = []
                for w in self.workers:
                    if w is not None and not w.is_alive():
                        if w.exitcode != 0:
                            raise RuntimeError()
                        w.join()
                        w = None
                    alive.append(w)
                self.workers = alive
                full = []
                for w in self.workers:
                    if w is None and self.to_go > 0:
                        self.to_go -= 1
                        w = Process(target=self.work,
                                    args=(np.random.randint(2**32),))
                        w.start()
                    full.append(w)
                self.workers = full
                try:
                    r = self.result_queue.get(False, 1)
                    out.append(r)
                except Empty:
                    pass
            for _ in range(n - len(out)):
                out.append(self.result_queue.get_nowait())
            return out
        ''', pick=watch('start', 'join', 'get', 'get_nowait', 'is_alive',
                        'multiprocessing.Process', skip=PROCESS))


PROCESS = ('daemon', 'name')


def uses(ctx, q, others):
    """Does the function call all these methods of its class?"""
    try:
        fi = ctx.world.fn(q)
        for o in others:
            ctx.world.fn(o)
    except AnchorError:
        return False
    names = {n.attr for n in ast.walk(fi.node)
             if isinstance(n, ast.Attribute)}
    return all(o.split('.')[-1] in names for o in others)


def repeat_steps(ctx, R, steps):
    run = '''
        def run(self, n):
            self.workers = [None for _ in range(self.n_processes)]
            self.to_go = n
            self.result_queue = Queue()
            out = []
            while self._still_working():
                self._clean()
                self._fill()
                try:
                    r = self.result_queue.get(False, 1)
                    out.append(r)
                except Empty:
                    pass
            %s
            return out
        '''
    got = run[run.index('                try:'):run.index('            %s')]
    missed = '''
                try:
                    r = self.result_queue.get(False, 1)
                except Empty:
                    continue
                out.append(r)
        '''
    counted = '''
            for _ in range(n - len(out)):
                out.append(self.result_queue.get_nowait())
        '''
    until = '''
            while len(out) < n:
                out.append(self.result_queue.get_nowait())
        '''
    equiv(ctx, 'repetitions', R + 'run', run % counted, pick=watch('get', 'get_nowait', *steps),
          opaque=set('task_models.' + q for q in steps), calls=('min', 'max', '.qsize',
                                                               'qsize'),
          ops=('mu', 'until', 'min', 'max'),
          accept=[r % c for r in (run, run.replace(got, missed))
                  for c in (counted, until)][1:])
    work = '''
        def f(self):
            return True if (%s) or any(w is not None for w in self.workers) \\
                else False
        '''
    law(ctx, 'repetitions', R + '_still_working', '''
        def f(self):
            return True if self._still_working() else False
        ''', work % 'self.to_go > 0', R + '_still_working',
        accept=[(w % c) for w in (work, work.replace(
            'any(w is not None for w in self.workers)',
            'self.workers.count(None) < len(self.workers)'))
            for c in ('self.to_go > 0', 'self.to_go', 'self.to_go != 0')][1:])
    clean = '''
        def _clean(self):
            out = []
            for w in self.workers:
                if w is None or %s:
                    out.append(w)
                else:
                    if %s:
                        raise RuntimeError()
                    w.join()
                    out.append(None)
            self.workers = out
        '''
    inplace = '''
        def _clean(self):
            for i, w in enumerate(self.workers):
                if w is not None and not %s:
                    if %s:
                        raise RuntimeError()
                    w.join()
                    self.workers[i] = None
        '''
    equiv(ctx, 'repetitions', R + '_clean',
          clean % ('w.is_alive()', 'w.exitcode != 0'),
          pick=watch('start', skip=('workers',)), fields=('workers',),
          val=False, accept=[
              c % (a, b) for c in (clean, inplace)
              for a in ('w.is_alive()', 'w.exitcode is None')
              for b in ('w.exitcode != 0', 'w.exitcode')][1:])
    fill = '''
        def _fill(self):
            full = []
            for w in self.workers:
                if %s:
                    w = None
                    if self.to_go > 0:
                        self.to_go -= 1
                        w = Process(target=self.work,
                                    args=(np.random.randint(2**32),))
                        w.start()
                full.append(w)
            self.workers = full
        '''
    placed = '''
        def _fill(self):
            for i in range(len(self.workers)):
                if %s and self.to_go > 0:
                    self.to_go -= 1
                    w = Process(target=self.work,
                                args=(np.random.randint(2**32),))
                    w.start()
                    self.workers[i] = w
        '''
    equiv(ctx, 'repetitions', R + '_fill', fill % 'w is None',
          pick=watch('start', 'join', skip=PROCESS + ('workers', 'to_go')),
          fields=('workers', 'to_go'), val=False,
          accept=[fill % 'not w', placed % 'self.workers[i] is None',
                  placed % 'not self.workers[i]'])


UNITS = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1,
         'weeks': 604800}


def in_seconds(t):
    """Durations given by their number of seconds."""
    m = {}
    for x in T.subterms(t):
        if x.op == 'call' and x.args[0] == 'datetime.timedelta':
            a, k = x.args[1], dict(x.args[2])
            k.update(zip(('days', 'seconds'), a))
            if len(a) > 2 or set(k) - set(UNITS):
                continue
            total = const(0)
            for n, v in sorted(k.items()):
                total = T.add(total, T.mul(const(UNITS[n]), v))
            m[x] = mk('call', 'datetime.timedelta', (),
                      (('seconds', total),))
    return T.subst(t, m)


@rule('C21')
def elapsed(ctx):
    elapsed = '''
        def get_process_elapsed_time(pid=None):
            p = os.getpid() if %s else pid
            text = subprocess.check_output(["ps", "-o", "etime=", "-p",
                                            str(p)])
            parts = text.decode().strip().replace('-', ':').split(':')
            t = parts[::-1]
            t += ["0"] * (4 - len(t))
            return timedelta(days=int(t[3]), hours=int(t[2]),
                             minutes=int(t[1]), seconds=%s(t[0]))
        '''
    equiv(ctx, 'elapsed time', MP + 'get_process_elapsed_time',
          elapsed % ('pid is None', 'float'), calls=('os.getppid',), transform=in_seconds,
          accept=[elapsed % (a, b) for a in ('pid is None', 'not pid')
                  for b in ('float', 'int')][1:])
