"""C13: the planning environment reports the planned vehicle's own metrics and reward."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario

A = list(ep.ALL_METRICS)
MW = {'overlap': -1.5, 'offroad': 1., 'kinematic_infeasibility': -.75, 'log_divergence': .2}
S = dict(env='planning', p=24, npath=2, ppath=8, metrics=A, rewards=MW)
CLASSES = [
    ep.cls(dyn='bicycle', init=3, n=5, t=12, agents=['wild'], **S),
    ep.cls(dyn='state', init=2, n=4, t=10, batch=[3], agents=['wild', 'even'], **S),
    ep.cls(dyn='dlocal', init=1, n=4, t=9, agents=[], **dict(S, metrics=['overlap', 'kinematic_infeasibility'])),
    ep.cls(dyn='state', init=4, n=6, t=12, agents=['wild'], inject=False, **dict(S, metrics=['offroad', 'log_divergence', 'sdc_wrongway'])),
    ep.cls(dyn='bicycle', init=3, n=3, t=10, batch=[2, 2], agents=['wild'], **S),
    ep.cls(dyn='dglobal', init=3, n=4, t=9, agents=['odd'], **dict(S, metrics=['kinematic_infeasibility'], rewards={'log_divergence': -1.})),
    ep.cls(dyn='disc_bicycle', init=2, n=4, t=9, batch=[2], agents=['wild'], **dict(S, metrics=['log_divergence'], rewards={'sdc_progression': 2., 'overlap': -.5})),
    ep.cls(dyn='state', init=2, n=4, t=9, agents=['odd'], **dict(S, metrics=['offroad'], rewards={'offroad': -1.})),
    ep.cls(dyn='state', init=1, n=5, t=9, agents=['wild'], **dict(S, metrics=['overlap'], rewards={'overlap': 3.})),
    ep.cls(dyn='bicycle', init=2, n=3, t=9, batch=[2], agents=[], **dict(S, metrics=['sdc_progression'], rewards={'sdc_wrongway': -1., 'log_divergence': .5})),
    ep.cls(dyn='dlocal', init=2, n=3, t=9, agents=[], **dict(S, metrics=['sdc_off_route', 'sdc_wrongway'], rewards={'sdc_off_route': -1.})),
]


def make_wild(salt):
  """A broken simulated agent: non-finite and absurd answers for what it claims."""
  import jax
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.agents import actor_core

  def init(rng, state):
    return {'count': jnp.zeros((), jnp.int32)}

  def select_action(params, state, actor_state, rng):
    cur = state.current_sim_trajectory
    m = state.object_metadata
    base = jnp.concatenate([cur.x, cur.y, cur.yaw, cur.vel_x, cur.vel_y], axis=-1)
    idx = jnp.broadcast_to(jnp.arange(m.num_objects), m.shape)
    k = (m.ids + actor_state['count'] * 3 + salt) % 5
    bad = jnp.where(k == 0, jnp.nan, jnp.where(k == 1, jnp.inf, 1e7 * (idx - 1)))
    near = jnp.sum(jnp.where(m.is_sdc[..., None], base, 0.), axis=-2, keepdims=True)
    data = jnp.where((k <= 2)[..., None], bad[..., None] + 0 * base, jnp.where((k == 3)[..., None], near + .3, base))
    return actor_core.WaymaxActorOutput(
        actor_state={'count': actor_state['count'] + 1},
        action=datatypes.Action(data=data.astype(jnp.float32), valid=jnp.ones(m.shape + (1,), bool)),
        is_controlled=~m.is_sdc & (k < 5))

  return actor_core.actor_core_factory(init=init, select_action=select_action, name='wild')


class P(core.Prop):
  id = 'C13'
  rule = ('a run is one planning episode with broken simulated agents (non-finite, absurd or colliding poses) and a '
          'faulty command channel; the planned vehicle\'s metrics and reward are compared with float64 references '
          'at every step; non-trivial if a metric was judged')
  real = ep.REAL + ['waymax.metrics', 'waymax.rewards']
  stub = ep.STUB + ['simulated agents (broken on purpose)']
  assumptions = ['steps where a metric of the planned vehicle is within rounding of its decision boundary are not judged',
                 'the planned vehicle\'s own state is finite where judged']
  class_cost = 3

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 6, t=c['t'] + 20) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 260 if tier == 'quick' else 2400

  def gen(self, rng, c, tier):
    return {'scn': ep.gen_scn(rng, c, garbage=rng.choice(['nan', 'nan', 'womd', 'finite', 'near']),
                              layout=rng.choice(['crowd', 'road', 'open'])),
            'ops': ep.gen_ops(rng, c, rng.randint(1, c['t'] - c['init']))}

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      from dst import actors
      ag = [make_wild(i) if k == 'wild' else actors.make_sim_agent('notsdc' if k == 'all' else k, i) for i, k in enumerate(c['agents'])]
      sim = ctx.cache[key] = ep.Sim(c, actors=ag, params=[{'gain': .1}] * len(ag))
      import jax
      from waymax import metrics
      sim.under = jax.jit(lambda s: metrics.run_metrics(s, sim.config.metrics))
    return ctx.cache[key]

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = self.world(ctx, c)
    s, fl = ep.start(sim, plan, ctx)
    prev = None
    a = sim.action(np.zeros(sim.action_shape()), np.ones(sim.action_shape()[:-1] + (1,), bool))
    self.judge(ctx, c, sim, s, fl, a)
    for op in plan['ops'][:c['t'] - c['init']]:
      data, valid = ep.deliver(sim, op, fl, prev, ctx)
      a = sim.action(data, valid)
      s = sim.step(s, a)
      fl = scenario.flat(s)
      prev = (data, valid)
      ctx.step(sim.lanes())
      ctx.event('step', fl['sim.x'])
      self.judge(ctx, c, sim, s, fl, a)

  def judge(self, ctx, c, sim, s, fl, a):
    t = int(np.asarray(fl['timestep']).reshape(-1)[0])
    got = sim.metrics(s)
    rew = np.asarray(sim.reward(s, a))
    batch = tuple(c['batch'])
    ctx.check(set(got) == set(c['metrics']), 'metric-names', f'{sorted(got)}')
    ctx.check(rew.shape == batch, 'reward-shape', f'{rew.shape}')
    under = sim.under(s)
    for name in c['metrics']:
      v, m = np.asarray(got[name].value), np.asarray(got[name].valid)
      ctx.check(v.shape == batch and m.shape == batch and m.dtype == bool and v.dtype == np.float32, 'metric-shape',
                f'{name} {v.shape} {v.dtype} {m.shape} {m.dtype}')
      for i in rm.indices(batch):
        lf = rm.lane(fl, i)
        k = int(np.argmax(lf['meta.is_sdc']))
        here = np.array([lf['sim.' + q][k, t] for q in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], float)
        if name == 'kinematic_infeasibility' and t <= c['init'] - 1:
          ctx.check(not m[i], 'kim-at-start', f'kinematic infeasibility valid on the initial state')
          last = np.array([lf['sim.' + q][k, max(t - 1, 0)] for q in ('yaw', 'vel_x', 'vel_y')], float)
          if np.isfinite(here).all() and np.isfinite(last).all():
            ctx.check(v[i] == 0, 'kim-at-start', f'kinematic infeasibility {v[i]} on the initial state')
          continue
        want, wv, sure = self.one(name, lf, t, k)
        others = np.delete(lf['sim.x'][:, t], k)
        ctx.probe('others_nonfinite', int((~np.isfinite(others)).any()))
        if name in rm.OBJECT:
          ctx.check(bool(m[i]) == bool(wv), name + '-valid', lambda: f'step {t}: valid {m[i]}, of the planned vehicle {wv}')
        elif sure:
          ctx.check(bool(m[i]) == bool(wv), name + '-valid', lambda: f'step {t}: valid {m[i]}, expected {wv}')
        if name in rm.OBJECT and not sure and not np.isfinite(others).all():
          # the reference cannot judge non-finite neighbours; the underlying metric can
          u, um = np.asarray(under[name].value)[i][k], np.asarray(under[name].valid)[i][k]
          ctx.probe(name + '_against_underlying')
          ctx.check(bool(ep.close(v[i], u)) and bool(um) == bool(m[i]), name + '-selection',
                    lambda: f'step {t} scenario {i}: {v[i]} valid {m[i]}, underlying metric {u} valid {um}')
        if not (wv and sure):
          continue
        mag = np.abs(here[:2]).sum() if np.isfinite(here[:2]).all() else 0
        if name == 'log_divergence':
          mag = mag + np.abs(float(lf['log.x'][k, t])) + np.abs(float(lf['log.y'][k, t]))
        ctx.probe(name + '_judged')
        ctx.check(bool(ep.close(v[i], want, scale=abs(want) + mag, atol=2e-4, rtol=2e-6)), name,
                  lambda: f'step {t} scenario {i}: {v[i]}, of the planned vehicle {want} (others at {others[:4]})')
    for i in rm.indices(batch):
      lf = rm.lane(fl, i)
      k = int(np.argmax(lf['meta.is_sdc']))
      total, ok = 0., True
      for name, w in c['rewards'].items():
        if name == 'kinematic_infeasibility' and t == 0:
          continue
        want, wv, sure = self.one(name, lf, t, k)
        total += w * want if wv else 0.
        ok = ok and sure
      if not ok or not np.isfinite(total):
        continue
      here = np.array([lf['sim.x'][k, t], lf['sim.y'][k, t]], float)
      mag = np.abs(here).sum() if np.isfinite(here).all() else 0
      ctx.probe('reward_judged')
      ctx.check(bool(ep.close(rew[i], total, scale=abs(total) + mag, atol=2e-3, rtol=1e-5)), 'reward',
                lambda: f'step {t} scenario {i}: {rew[i]}, of the planned vehicle {total}')
    ctx.state(t, tuple(fl['sim.valid'][..., t].reshape(-1)[:8]), c['dyn'])

  def one(self, name, lf, t, k):
    want, wv, sure = rm.REF[name](lf, t)
    if name in rm.OBJECT:
      return float(want[k]), bool(wv[k]), bool(sure[k])
    return float(want), bool(wv), bool(sure)

  def nontrivial(self, plan, ctx):
    return sum(v for k, v in ctx.probes.items() if k.endswith('_judged')) > 0


PROP = P()
