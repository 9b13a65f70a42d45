"""C28: the future of the log cannot influence the simulated past or present."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

METRICS = ['log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway']
REW = {'overlap': -1., 'offroad': -2., 'log_divergence': -.5}
S = dict(metrics=METRICS, rewards=REW)
OBJ = dict(metrics=METRICS, rewards=REW)
# act: channel (faulty agents outside) | const | expert | mix (merged actors) | rollout
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', n=6, t=14, act='channel', obs=('all', 3, 12, 'OBJECT'), **S),
    ep.cls(dyn='dglobal', ctrl='MODELED', n=5, t=12, init=2, inject=False, batch=[2], act='channel', obs=('sdc', 4, 9, 'SDC'), **S),
    ep.cls(dyn='state', ctrl='VALID', n=5, t=12, init=1, act='mix', obs=('all', 1, 9, 'GLOBAL'), **S),
    ep.cls(dyn='bicycle', ctrl='SDC', n=5, t=13, init=4, act='expert', obs=('all', 2, 9, 'SDC'), **S),
    ep.cls(dyn='disc_dlocal', ctrl='VALID', n=4, t=10, act='mix', obs=('sdc', 2, 9, 'OBJECT'), **S),
    ep.cls(env='planning', dyn='bicycle', n=5, t=12, act='channel', agents=['const', 'rand'], obs=('sdc', 3, 9, 'SDC'), **S),
    ep.cls(env='planning', dyn='dlocal', n=4, t=12, init=2, act='channel', batch=[2], agents=['expert'], obs=('sdc', 3, 9, 'SDC'), **S),
    ep.cls(env='planning', dyn='dglobal', n=5, t=11, init=3, act='expert', agents=['const', 'expert'], inject=False, obs=('all', 3, 9, 'OBJECT'), **S),
    ep.cls(dyn='dglobal', ctrl='VALID', n=5, t=12, act='rollout', obs=('all', 1, 9, 'OBJECT'), **S),
    ep.cls(env='planning', dyn='bicycle_norm', n=5, t=11, act='rollout', agents=['const'], obs=('all', 1, 9, 'OBJECT'), **S),
    ep.cls(dyn='discs_bicycle', ctrl='VALID', n=4, t=9, act='expert', obs=('sdc', 2, 9, 'OBJECT'), **S),
]
KINDS = ('noise', 'noise', 'vanish', 'appear', 'teleport', 'freeze', 'swap', 'nonfinite')


class P(core.Prop):
  id = 'C28'
  rule = ('a run drives two worlds with equal logs up to a cut and different ones after it, under equal commands or '
          'closed-loop actors, and compares everything observable up to the cut bit by bit; non-trivial if a step '
          'after the warm-up was compared')
  real = ep.REAL + ['waymax.metrics', 'waymax.rewards', 'waymax.datatypes.observation', 'waymax.agents (constant '
                    'speed, expert, merge)', 'waymax.env.rollout']
  stub = ep.STUB
  assumptions = ['object metadata, map and routes are the same in both worlds; progression along the logged route is '
                 'defined by the whole log and not judged']
  class_cost = 3
  list_keys = ('ops', 'changes')

  def classes(self, tier):
    out = CLASSES + ([dict(c, n=c['n'] + 4, t=c['t'] + 15) for c in CLASSES if c['dyn'][:5] != 'discs'] if tier == 'thorough' else [])
    return out

  def runs(self, tier):
    return 176 if tier == 'quick' else 2600

  def gen(self, rng, c, tier):
    T, init = c['t'], c['init']
    cut = rng.randint(init - 1 if init > 1 else 0, T - 2)
    if rng.random() < .25:
      cut = rng.choice((init - 1, init, T - 2))
    cut = min(max(cut, init - 1), T - 2)
    return {'scn': ep.gen_scn(rng, c, layout=rng.choice(('road', 'crowd', 'crowd', 'open'))), 'ops': ep.gen_ops(rng, c, T - init), 'cut': cut,
            'changes': [{'k': rng.choice(KINDS), 's': rng.randrange(2**31)} for _ in range(rng.choice((1, 1, 2, 3)))],
            'key': rng.randrange(2**31)}

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key in ctx.cache:
      return ctx.cache[key]
    import functools
    import jax
    from dst import actors
    from waymax import agents
    from waymax import config
    from waymax import datatypes as d
    from waymax import dynamics
    from waymax.agents import actor_core
    from waymax.agents import constant_speed
    from waymax.env import rollout as _r  # pylint: disable=unused-import
    import importlib
    ro = importlib.import_module('waymax.env.rollout')
    odd = lambda s: (s.object_metadata.ids % 2 == 1) & ~s.object_metadata.is_sdc
    even = lambda s: (s.object_metadata.ids % 2 == 0) & ~s.object_metadata.is_sdc
    pool = {'const': lambda: constant_speed.create_constant_speed_actor(dynamics.StateDynamics(), odd),
            'expert': lambda: agents.create_expert_actor(dynamics.StateDynamics(), is_controlled_func=even),
            'rand': lambda: actors.make_sim_agent('near', 1)}
    ag = [pool[a]() for a in c.get('agents', [])]
    sim = ep.Sim(c, actors=ag, params=[{'gain': .1}] * len(ag))
    which, w, k, frame = c['obs']
    f = d.observation_from_state if which == 'all' else d.sdc_observation_from_state
    sim.observe = jax.jit(functools.partial(f, obs_num_steps=w, roadgraph_top_k=k, coordinate_frame=config.CoordinateFrame[frame]))
    mdl = sim.env.dynamics if c['env'] == 'planning' else sim.dyn
    if c['act'] == 'expert':
      ac = agents.create_expert_actor(mdl) if c['env'] == 'planning' else agents.create_expert_actor(mdl, is_controlled_func=lambda s: s.object_metadata.is_valid)
      sim.act = jax.jit(lambda s: ac.select_action({}, s, None, None).action)
    elif c['act'] == 'mix':
      acs = [agents.create_expert_actor(mdl, is_controlled_func=lambda s: s.object_metadata.ids % 2 == 0),
             constant_speed.create_constant_speed_actor(mdl, lambda s: s.object_metadata.ids % 2 == 1, speed=4.)]
      sim.act = jax.jit(lambda s: actor_core.merge_actions([a.select_action({}, s, None, None) for a in acs]))
    elif c['act'] == 'rollout':
      lo, hi = ep.bounds(c['dyn'])
      planning = c['env'] == 'planning'
      ac = actors.make_tap_actor(lambda s: s.object_metadata.shape[:-1 if planning else None] + (len(lo),), lo, hi)
      steps = c['t'] - c['init']
      sim.roll = jax.jit(lambda s, key: ro.rollout(s, ac, sim.env, key, steps, {'gain': .5}))
    ctx.cache[key] = sim
    return sim

  def execute(self, plan, ctx):
    import jax
    c = plan['cls']
    sim = self.world(ctx, c)
    cut = plan['cut']
    arr = sim.arrays(plan['scn'])
    brr = change(arr, cut, plan['changes'], ctx)
    a, b = scenario.state(arr), scenario.state(brr)
    if c['act'] == 'rollout':
      return self.rolled(ctx, c, sim, plan, a, b, cut)
    a, b = sim.reset(a), sim.reset(b)
    t = c['init'] - 1
    prev = None
    self.compare(ctx, c, sim, a, b, t, arr)
    for op in plan['ops']:
      if t + 1 > cut:
        break
      fl = scenario.flat(a)
      if c['act'] == 'channel':
        data, valid = ep.deliver(sim, op, fl, prev, ctx)
        prev = data, valid
        x = y = sim.action(data, valid)
      else:
        x, y = sim.act(a), sim.act(b)
        for u, v in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)):
          ctx.check(ep.same(u, v), 'action', lambda: f'{c["act"]} at step {t}: command depends on the log after step {cut}')
      ra, rb = np.asarray(sim.reward(a, x)), np.asarray(sim.reward(b, y))
      ctx.check(ep.same(ra, rb), 'reward', lambda: f'step {t}: {ra.reshape(-1)[:4]} and {rb.reshape(-1)[:4]} with logs equal up to {cut}')
      a, b = sim.step(a, x), sim.step(b, y)
      t += 1
      ctx.step(2 * sim.lanes())
      self.compare(ctx, c, sim, a, b, t, arr)
      ctx.probe('steps_after_warmup')
      ctx.state(c['dyn'], c['act'], cut - t, tuple(k['k'] for k in plan['changes']))

  def compare(self, ctx, c, sim, a, b, t, arr):
    fa, fb = scenario.flat(a), scenario.flat(b)
    ctx.event('at', t, fa['sim.x'][..., :t + 1])
    self.states(ctx, fa, fb, t)
    ma, mb = sim.metrics(a), sim.metrics(b)
    for m in ma:
      for f in ('value', 'valid'):
        x, y = np.asarray(getattr(ma[m], f)), np.asarray(getattr(mb[m], f))
        ctx.check(ep.same(x, y), 'metric', lambda: f'{m} {f} at step {t} depends on the log after it: {x.reshape(-1)[:6]} {y.reshape(-1)[:6]}')
    ta, tb = np.asarray(sim.termination(a)), np.asarray(sim.termination(b))
    ctx.check(ep.same(ta, tb), 'termination', lambda: f'step {t}')
    oa, ob = sim.observe(a), sim.observe(b)
    from dst.props import c22
    la, lb = c22.leaves(oa), c22.leaves(ob)
    for k in la:
      ctx.check(ep.same(la[k], lb[k]), 'observation', lambda: f'{k} at step {t} depends on the log after it')
    # the lights shown are those logged for the very step
    tv = la['traffic_lights.valid'][..., -1]
    ts = la['traffic_lights.state'][..., -1]
    lead = len(c['batch'])
    wv, ws = arr['tl.valid'][..., t], arr['tl.state'][..., t]
    wv, ws = np.expand_dims(wv, lead), np.expand_dims(ws, lead)
    seen = np.broadcast_to(la['pose2d.valid'][..., None], tv.shape)  # an absent observer sees nothing
    ctx.check((tv == wv)[seen].all() and (ts == ws)[seen & wv].all(), 'lights-of-step',
              lambda: f'step {t}: shown {ts.reshape(-1)[:6]} logged {ws.reshape(-1)[:6]}')

  def states(self, ctx, fa, fb, t):
    ctx.check(ep.same(fa['timestep'], fb['timestep']), 'clock', '')
    for k in scenario.TRAJ:
      x, y = fa['sim.' + k][..., :t + 1], fb['sim.' + k][..., :t + 1]
      ctx.check(ep.same(x, y), 'state', lambda: f'{k} up to step {t} depends on the log after it, at {ep.where(~((x == y) | ((x != x) & (y != y))))}')
    for k in scenario.META:
      ctx.check(ep.same(fa['meta.' + k], fb['meta.' + k]), 'state', lambda: f'{k} at step {t}')

  def rolled(self, ctx, c, sim, plan, a, b, cut):
    import jax
    key = jax.random.PRNGKey(plan['key'])
    x, y = sim.roll(a, key), sim.roll(b, key)
    n = cut - (c['init'] - 1)  # states 0..n of the rollout stand at steps <= cut
    for i in range(n + 1):
      t = c['init'] - 1 + i
      pick = lambda o: jax.tree_util.tree_map(lambda v: v[i], o)
      self.states(ctx, scenario.flat(pick(x.state)), scenario.flat(pick(y.state)), t)
      parts = [('metric', x.metrics, y.metrics)]
      if i < n:
        parts += [('action', x.action, y.action), ('reward', x.reward, y.reward)]
      for name, u, v in parts:
        for p, q in zip(jax.tree_util.tree_leaves(pick(u)), jax.tree_util.tree_leaves(pick(v))):
          ctx.check(ep.same(p, q), name, lambda: f'rollout, step {t}: depends on the log after step {cut}')
      ctx.step(2)
      ctx.probe('steps_after_warmup', int(i > 0))
      ctx.event('at', t, np.asarray(x.state.sim_trajectory.x)[i, ..., :t + 1])
    ctx.state('rollout', c['env'], n)

  def nontrivial(self, plan, ctx):
    return ctx.probes['steps_after_warmup'] > 0


def change(arr, cut, changes, ctx):
  """Another log that equals this one up to and including step cut."""
  out = {k: v.copy() for k, v in arr.items()}
  for ch in changes:
    r = np.random.RandomState(ch['s'])
    k = ch['k']
    for name in out:
      part, f = name.split('.')
      if part not in ('log', 'tl'):
        continue
      a = out[name][..., cut + 1:]
      if f == 'valid':
        if k == 'vanish':
          a[...] = False
        elif k == 'appear':
          a[...] = True
        elif k in ('noise', 'nonfinite'):
          a[...] = r.rand(*a.shape) < .5
        elif k == 'swap':
          a[...] = a[..., ::-1, :].copy()
      elif a.dtype.kind == 'i':
        if k in ('noise', 'teleport'):
          a[...] = r.randint(0, 9, a.shape) if f == 'state' else r.randint(0, 10**6, a.shape)
        elif k == 'swap':
          a[...] = a[..., ::-1, :].copy()
      elif k == 'noise':
        a += r.normal(0, 3, a.shape).astype(a.dtype)
      elif k == 'teleport':
        a[...] = r.uniform(-1e5, 1e5, a.shape)
      elif k == 'freeze':
        a[...] = out[name][..., cut:cut + 1]
      elif k == 'swap':
        a[...] = a[..., ::-1, :].copy()
      elif k == 'nonfinite' and f not in ('length', 'width', 'height'):
        a[r.rand(*a.shape) < .3] = r.choice([np.nan, np.inf, -np.inf])
    ctx.fault('future_' + k)
  return out


PROP = P()
