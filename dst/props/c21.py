"""C21: the metric registry is a map under any history of calls."""
import itertools

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

BUILTIN = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
           'sdc_wrongway', 'sdc_progression', 'sdc_off_route')
_UNIQ = itertools.count()  # the registry lives as long as the process
CLASSES = [ep.cls(env=e, n=4, t=8, p=16, tl=1, npath=2, ppath=6, init=3, dyn='bicycle', shape=s)
           for e in ('base', 'planning') for s in ('flat', 'flat', 'batch')]
for _c in CLASSES:
  _c['batch'] = [2] if _c.pop('shape') == 'batch' else []


class Boom(Exception):
  pass


def selection(rng, names):
  """Any selection of custom (c<i>), built-in and unknown names; order, repeats."""
  k = rng.choice((0, 1, 2, 3, 5))
  pool = names + names + list(rng.sample(BUILTIN, 2))
  out = [rng.choice(pool) for _ in range(k)]
  if rng.random() < .15:
    out.insert(rng.randint(0, len(out)), rng.choice(('u0', 'u1', 'prefix', 'case')))
  return out


class P(core.Prop):
  id = 'C21'
  rule = ('a run is one interleaved history of registrations (new, duplicate, of failing or re-entrant metrics) and '
          'of runs through run_metrics, environments and reward functions, some built before and used after '
          'registrations, against a dictionary model; non-trivial if a custom metric was computed')
  real = ['waymax.metrics (registry and built-in metrics)', 'waymax.env metrics()', 'waymax.rewards', 'waymax.config']
  stub = ['user-defined metrics (constant, counting, failing, re-entrant)', 'scenario source']
  assumptions = ['the registry is per process; names are made fresh per run because there is no way to unregister',
                 'one thread: the registry makes no promise about concurrent threads']

  def classes(self, tier):
    return CLASSES

  def runs(self, tier):
    return 180 if tier == 'quick' else 3000

  def gen(self, rng, c, tier):
    names = [f'c{i}' for i in range(rng.randint(2, 6))]
    ops = []
    for _ in range(rng.randint(6, 24)):
      k = rng.choice(('reg', 'reg', 'reg', 'run', 'run', 'run', 'env', 'make_env', 'make_reward', 'reward', 'names',
                      'reg_builtin'))
      op = {'o': k}
      if k == 'reg':
        op.update(n=rng.choice(names), kind=rng.choice(('const', 'const', 'const', 'fail', 'reenter', 'late_register')),
                  v=rng.randrange(1, 10**6), to=rng.choice(names), sel=selection(rng, names),
                  one_class=rng.random() < .6, reuse=rng.choice((-1, -1, 0, 1, 2)))
      elif k == 'reg_builtin':
        op.update(n=rng.choice(BUILTIN), v=rng.randrange(1, 10**6))
      elif k in ('run', 'make_env'):
        op['sel'] = selection(rng, names)
        op['unset'] = rng.random() < .2
      elif k == 'make_reward':
        sel = list(dict.fromkeys(selection(rng, names)))
        op['w'] = [[s, rng.choice((-2., -.5, 1., 0., 3.))] for s in sel]
      elif k in ('env', 'reward'):
        op['i'] = rng.randrange(6)
      ops.append(op)
    return {'scn': ep.gen_scn(rng, c, garbage='finite'), 'ops': ops, 'at': rng.randint(2, 6)}

  def execute(self, plan, ctx):
    import jax.numpy as jnp
    from waymax import config as _config
    from waymax import env as _env
    from waymax import metrics
    from waymax import rewards
    from waymax import dynamics

    c = plan['cls']
    uid = f'dst{next(_UNIQ)}_'
    full = lambda s: s if s in BUILTIN else (
        'overlap_' if s == 'prefix' else 'OVERLAP' if s == 'case' else uid + s)
    batch = tuple(c['batch'])
    arrs = [scenario.arrays(s) for s in plan['scn']]
    arr = scenario.stack(arrs, batch) if batch else arrs[0]
    st = scenario.state(arr)
    st = st.replace(timestep=jnp.asarray(plan['at'], jnp.int32))
    classes = {'log_divergence': metrics.LogDivergenceMetric, 'overlap': metrics.OverlapMetric,
               'offroad': metrics.OffroadMetric, 'sdc_wrongway': metrics.WrongWayMetric,
               'sdc_progression': metrics.ProgressionMetric, 'sdc_off_route': metrics.OffRouteMetric}
    from waymax.metrics import comfort
    classes['kinematic_infeasibility'] = comfort.KinematicsInfeasibilityMetric
    direct = {}

    def builtin(name):
      if name not in direct:
        r = classes[name]().compute(st)
        direct[name] = (np.asarray(r.value), np.asarray(r.valid))
      return direct[name]

    model = {}  # logical name -> ('const', value array, valid array) | ('fail',) | ...
    calls = []  # computes in order

    class OneClass(metrics.AbstractMetric):

      def __init__(self, body):
        self.body = body

      def compute(self, simulator_state):
        return self.body(simulator_state)

    made = []  # every metric object so far, for registering it again

    def make(op):
      r = np.random.RandomState(op['v'])
      val = (np.full(batch + (c['n'],), op['v']) + np.arange(c['n'])).astype(np.float32)
      ok = r.uniform(size=batch + (c['n'],)) < .8
      model_entry = {'kind': op['kind'], 'v': val, 'ok': ok, 'id': op['v'], 'op': op}

      def body(simulator_state):
          calls.append(op['v'])
          if op['kind'] == 'fail':
            raise Boom(str(op['v']))
          if op['kind'] == 'reenter':
            # a metric made of others, computed through the same registry
            sel = [s for s in op['sel'] if expect_ok(s)]
            got = metrics.run_metrics(simulator_state, _config.MetricsConfig(metrics_to_run=tuple(map(full, sel))))
            compare(got, sel, 're-entrant')
            ctx.fault('reentrant_run')
          if op['kind'] == 'late_register':
            register(op['to'], dict(op, kind='const', v=op['v'] + 1, reuse=-1), 'inside a computation')
            ctx.fault('reentrant_register')
          return metrics.MetricResult(value=jnp.asarray(val), valid=jnp.asarray(ok))

      class Own(metrics.AbstractMetric):

        def compute(self, simulator_state):
          return body(simulator_state)
      return (OneClass(body) if op.get('one_class') else Own()), model_entry

    def expect_ok(s):
      return s in BUILTIN or (s in model and model[s]['kind'] == 'const')

    def register(name, op, how):
      if made and op.get('reuse', -1) >= 0:
        m, entry = made[op['reuse'] % len(made)]
        ctx.probe('same_object_again')
      else:
        m, entry = make(op)
        made.append((m, entry))
      taken = name in model or name in BUILTIN
      try:
        metrics.register_metric(full(name), m)
        raised = None
      except ValueError as e:
        raised = e
      ctx.check((raised is not None) == taken, 'duplicate-registration' if taken else 'registration-refused',
                lambda: f'{how}: registering {name} ({"taken" if taken else "free"}) gave {raised!r}')
      if not taken:
        model[name] = entry
        ctx.probe('registered')
      else:
        ctx.fault('duplicate_registration')

    def fate(sel):
      """Which error a selection ends in, following the order of the selection."""
      for s in sel:
        if s not in BUILTIN and s not in model:
          return 'unknown'
      for s in sel:
        if s in model and model[s]['kind'] == 'fail':
          return 'fail'
      return None

    def compare(got, sel, how, plan_env=False):
      want = {full(s) for s in sel}
      ctx.check(set(got) == want, 'selection', lambda: f'{how}: asked {sorted(sel)}, '
                f'missing {sorted(want - set(got))}, extra {sorted(set(got) - want)}')
      for s in set(sel):
        g = got[full(s)]
        if s in BUILTIN:
          v, ok = builtin(s)
          if plan_env and s == 'kinematic_infeasibility' and plan['at'] <= c['init'] - 1:
            continue
          if plan_env and not s.startswith('sdc_'):
            i = np.argmax(np.asarray(st.object_metadata.is_sdc), -1)[..., None]
            v, ok = np.take_along_axis(v, i, -1)[..., 0], np.take_along_axis(ok, i, -1)[..., 0]
        else:
          v, ok = model[s]['v'], model[s]['ok']
          ctx.probe('custom_computed')
        gv, go = np.asarray(g.value), np.asarray(g.valid)
        ctx.check(gv.shape == v.shape and np.array_equal(go, ok) and bool(np.all(ep.close(gv, v, atol=1e-4) | ~ok)),
                  'wrong-metric', lambda: f'{how}: {s} gave {gv} {go}, the metric registered under it gives {v} {ok}')

    def attempt(fn, sel, how, plan_env=False):
      why = fate(sel)
      # a selected metric may register a later selected name while it runs;
      # whether names are looked up before or during the run is not promised
      late = {model[s]['op']['to'] for s in sel if s in model and model[s]['kind'] == 'late_register'}
      unknown = {s for s in sel if s not in BUILTIN and s not in model}
      open_ended = bool(unknown & late)
      calls.clear()
      try:
        got = fn()
        err = None
      except ValueError as e:
        err = ('unknown', e)
      except Boom as e:
        err = ('fail', e)
      ctx.event('run', how, [str(s) for s in sel], None if err is None else err[0])
      if open_ended:
        ctx.probe('registered_during_run')
        if err is None:
          compare(got, sel, how, plan_env)
      elif why is None:
        ctx.check(err is None, 'refused', lambda: f'{how} {sel}: {err}')
        for s in set(sel):
          if s in model:
            # (re-entrant metrics may compute it more often; never less)
            ctx.check(model[s]['id'] in calls, 'not-computed', lambda: f'{how}: {s} not computed')
        compare(got, sel, how, plan_env)
      else:
        ctx.check(err is not None, 'error-swallowed', lambda: f'{how} {sel}: no error although {why}')
        # both kinds may be present; either may be met first
        kinds = {'unknown'} if why == 'unknown' else {'fail'}
        if why == 'unknown' and any(s in model and model[s]['kind'] == 'fail' for s in sel):
          kinds.add('fail')
        ctx.check(err[0] in kinds, 'error-kind', lambda: f'{how} {sel}: {err}, expected {kinds}')
        ctx.fault('failed_run_' + why)
      return None

    envs, rews = [], []
    dyn = dynamics.InvertibleBicycleModel()
    for op in plan['ops']:
      k = op['o']
      ctx.step(dt=0)
      if k == 'reg':
        register(op['n'], op, 'register_metric')
      elif k == 'reg_builtin':
        register(op['n'], dict(op, kind='const'), 'register_metric')
      elif k == 'run':
        cfg = _config.MetricsConfig(metrics_to_run=tuple(map(full, op['sel'])))
        attempt(lambda: metrics.run_metrics(st, cfg), op['sel'], 'run_metrics')
        if op.get('unset'):
          usual = ['log_divergence', 'overlap', 'offroad']
          attempt(lambda: metrics.run_metrics(st, _config.MetricsConfig()), usual, 'run_metrics without a selection')
      elif k == 'make_env':
        cfg = ep.env_config(dict(c, metrics=list(map(full, op['sel'])), rewards={}))
        mk = _env.PlanningAgentEnvironment if c['env'] == 'planning' else _env.MultiAgentEnvironment
        envs.append((mk(dynamics_model=dyn, config=cfg), op['sel']))
      elif k == 'env' and envs:
        e, sel = envs[op['i'] % len(envs)]
        s = st
        if c['env'] == 'planning':
          from waymax.env import planning_agent_environment as pae
          s = pae.PlanningAgentSimulatorState(**{f: getattr(st, f) for f in st.__dataclass_fields__},
                                              sim_agent_actor_states=())
        attempt(lambda: e.metrics(s), sel, 'environment', c['env'] == 'planning')
      elif k == 'make_reward':
        sel = [s for s, _ in op['w']]
        cfg = _config.LinearCombinationRewardConfig(rewards={full(s): w for s, w in op['w']})
        bad = any(s not in BUILTIN and s not in model for s in sel)
        try:
          rew = rewards.LinearCombinationReward(cfg)
          ok = True
        except ValueError:
          ok = False
        ctx.check(ok != bad, 'reward-names', lambda: f'reward over {sel} registered={sorted(model)}: accepted={ok}')
        if ok:
          rews.append((rew, op['w']))
        else:
          ctx.fault('unknown_in_reward')
      elif k == 'reward' and rews:
        rew, ws = rews[op['i'] % len(rews)]
        sel = [s for s, _ in ws]
        why = fate(sel)
        try:
          got = np.asarray(rew.compute(st, None, jnp.ones(batch + (c['n'],), bool)))
          err = None
        except Boom as e:
          err = e
        ctx.check((err is not None) == (why == 'fail'), 'reward-error', lambda: f'{sel}: {err!r}')
        if err is None and ws:
          want = np.zeros(batch + (c['n'],))
          for s, w in ws:
            v, ok = builtin(s) if s in BUILTIN else (model[s]['v'], model[s]['ok'])
            m = np.where(ok, v.astype(np.float64), 0)
            want = want + w * (m if m.ndim > len(batch) else m[..., None])
          ctx.check(got.shape == want.shape and bool(np.all(ep.close(got, want, atol=1e-2, rtol=1e-5))),
                    'reward-value', lambda: f'{ws}: {got}, weighted sum {want}')
          ctx.probe('rewards')
      elif k == 'names':
        names = set(metrics.get_metric_names())
        mine = {x for x in names if x.startswith(uid)}
        ctx.check(mine == {full(s) for s in model}, 'names', lambda: f'{mine} vs {sorted(model)}')
        ctx.check(set(BUILTIN) <= names, 'names-builtin', lambda: f'{sorted(names)}')
      ctx.event(k, sorted(model), [model[s]['id'] for s in sorted(model)])
      ctx.state(k, tuple(sorted((s, model[s]['kind']) for s in model)))

  def nontrivial(self, plan, ctx):
    return ctx.probes['custom_computed'] > 0


PROP = P()
