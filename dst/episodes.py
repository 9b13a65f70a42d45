"""Driving the real environments: factory, faulty action channel, reference.

A *class* (static configuration, one jit compilation) is a dict:
  env base|planning, dyn, ctrl, inject, init, batch, n, t, ..., metrics,
  rewards, compute_reward, jit
A plan has scn (one scenario spec per batch lane) and ops (one per step).
"""
import json

import numpy as np

from dst import core
from dst import scenario

DT = 0.1
INF = float('inf')
ALL_METRICS = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
               'sdc_wrongway', 'sdc_off_route', 'sdc_progression')
DYN5 = ('x', 'y', 'yaw', 'vel_x', 'vel_y')

DEFAULTS = dict(env='base', dyn='bicycle', ctrl='SDC', inject=True, init=3, batch=[],
                n=6, t=16, p=40, tl=3, npath=3, ppath=14, metrics=['log_divergence'],
                rewards={'overlap': -1.0}, compute_reward=True, jit=True)

BINS = {'disc_bicycle': (6, 4), 'disc_dlocal': (4, 3, 6), 'disc_dglobal': (5, 4, 8),
        'disc_norm': (3, 7), 'discs_bicycle': (6, 4), 'discs_dlocal': (4, 4, 6), 'disc_own_dlocal': (5, 3, 4)}


# models set up with a step and limits of their own
OWN = {
    'own_bicycle': dict(kind='bicycle', dt=.2, max_accel=4., max_steering=.2),
    'own_norm': dict(kind='bicycle', dt=.05, max_accel=3., max_steering=.15, normalize_actions=True),
    'own_dlocal': dict(kind='dlocal', dt=.2, max_dx=3., max_dy=1.5, max_dyaw=.4),
    'own_dglobal': dict(kind='dglobal', dt=.05, max_dx=2., max_dy=3., max_dyaw=.2),
}


def kind(dyn):
  """bicycle | dlocal | dglobal | state, whatever the set-up of the model."""
  base = dyn.replace('discs_', '').replace('disc_', '')
  if base in OWN:
    return OWN[base]['kind']
  return 'bicycle' if base.startswith('bicycle') or base == 'norm' else base


def step_of(dyn):
  return OWN.get(dyn.replace('disc_', ''), {}).get('dt', DT)


def cls(**kw):
  return dict(DEFAULTS, **kw)


def default_cls(**kw):
  """An environment configured with nothing but its object count: one control of
  the planned vehicle, eleven warm-up steps (ten and the current one), late
  objects allowed, overlap and off-road penalised by one each.  The log is as
  long as a real one."""
  return cls(**dict(dict(defaults=True, ctrl='SDC', inject=True, init=11, t=91, n=4,
                         metrics=['log_divergence', 'overlap', 'offroad'], compute_reward=True,
                         rewards={'overlap': -1., 'offroad': -1.}), **kw))


def bounds(dyn):
  """(min, max) of the continuous command of a motion model, as documented."""
  dyn = dyn.replace('discs_', '').replace('disc_', '')
  if dyn in OWN:
    o = OWN[dyn]
    hi = np.array([o['max_accel'], o['max_steering']] if o['kind'] == 'bicycle' else
                  [o['max_dx'], o['max_dy'], o['max_dyaw']])
    hi = np.ones(2) if o.get('normalize_actions') else hi
    return -hi, hi
  if dyn in ('bicycle_norm', 'norm'):
    return np.array([-1., -1.]), np.array([1., 1.])
  if dyn == 'bicycle':
    return np.array([-6., -.3]), np.array([6., .3])
  if dyn == 'bicycle_tight':
    return np.array([-2.5, -.1]), np.array([2.5, .1])
  if dyn in ('dlocal', 'dglobal'):
    return np.array([-6., -6., -np.pi]), np.array([6., 6., np.pi])
  if dyn == 'state':
    return np.full(5, -INF), np.full(5, INF)
  raise core.HarnessError(dyn)


def dim(dyn):
  return 1 if dyn.startswith('disc') else len(bounds(dyn)[0])


def make_dynamics(dyn):
  import jax.numpy as jnp
  from waymax import dynamics
  if dyn.startswith('disc'):
    search = dyn.startswith('discs_')
    base = dyn.split('_', 1)[1]
    base = {'norm': 'bicycle_norm'}.get(base, base)
    return dynamics.DiscreteActionSpaceWrapper(
        dynamics_model=make_dynamics(base), bins=jnp.array(BINS[dyn]), bin_inverse=not search)
  if dyn in OWN:
    o = dict(OWN[dyn])
    return {'bicycle': dynamics.InvertibleBicycleModel, 'dlocal': dynamics.DeltaLocal,
            'dglobal': dynamics.DeltaGlobal}[o.pop('kind')](**o)
  return {
      'bicycle': lambda: dynamics.InvertibleBicycleModel(),
      'bicycle_norm': lambda: dynamics.InvertibleBicycleModel(normalize_actions=True),
      'bicycle_tight': lambda: dynamics.InvertibleBicycleModel(max_accel=2.5, max_steering=.1),
      'dglobal': lambda: dynamics.DeltaGlobal(),
      'dlocal': lambda: dynamics.DeltaLocal(),
      'state': lambda: dynamics.StateDynamics(),
  }[dyn]()


def env_config(c):
  from waymax import config
  if c.get('defaults'):
    return config.EnvironmentConfig(max_num_objects=c['n'])
  return config.EnvironmentConfig(
      max_num_objects=c['n'], init_steps=c['init'],
      controlled_object=config.ObjectType[c['ctrl']],
      allow_new_objects_after_warmup=c['inject'],
      compute_reward=c['compute_reward'],
      metrics=config.MetricsConfig(metrics_to_run=tuple(c['metrics'])),
      rewards=config.LinearCombinationRewardConfig(rewards=dict(c['rewards'])))


class Sim:
  """One environment object with its (jitted) entry points."""

  def __init__(self, c, actors=(), params=()):
    import jax
    from waymax import env as _env
    self.c = c
    self.batch = tuple(c['batch'])
    self.dyn_name = c['dyn']
    self.dyn = make_dynamics(c['dyn'])
    self.config = env_config(c)
    if c['env'] == 'planning':
      self.env = _env.PlanningAgentEnvironment(
          dynamics_model=self.dyn, config=self.config,
          sim_agent_actors=list(actors), sim_agent_params=list(params))
    else:
      self.env = _env.MultiAgentEnvironment(dynamics_model=self.dyn, config=self.config)
    w = jax.jit if c['jit'] else (lambda f: f)
    self.reset = w(self.env.reset)
    self.step = w(self.env.step)
    self.metrics = w(self.env.metrics)
    self.reward = w(self.env.reward)
    self.termination = w(self.env.termination)
    self.truncation = w(self.env.truncation)

  def state(self, specs):
    return scenario.state(self.arrays(specs))

  def arrays(self, specs):
    arrs = [scenario.arrays(s) for s in specs]
    return scenario.stack(arrs, self.batch) if self.batch else arrs[0]

  def lanes(self):
    return int(np.prod(self.batch)) if self.batch else 1

  def action(self, data, valid):
    import jax.numpy as jnp
    from waymax import datatypes
    dt = jnp.int32 if self.dyn_name.startswith('disc') else jnp.float32
    return datatypes.Action(data=jnp.asarray(data, dt), valid=jnp.asarray(valid, bool))

  def action_shape(self):
    d = dim(self.dyn_name)
    return self.batch + ((d,) if self.c['env'] == 'planning' else (self.c['n'], d))


def get_sim(ctx, c, **kw):
  key = 'sim:' + json.dumps(c, sort_keys=True)
  if key not in ctx.cache:
    ctx.cache[key] = Sim(c, **kw)
  return ctx.cache[key]


# ---------------------------------------------------------------- commands

MODES = ('in', 'in', 'in', 'small', 'edge', 'out', 'zero')
FAULTS = ('lost', 'lost_garbage', 'stale', 'corrupt', 'extreme', 'nan')


def gen_ops(rng, c, steps, faults=FAULTS, rate=None, modes=MODES):
  """Commands and faults. Swarm style: each run enables a subset of faults."""
  kinds = [k for k in faults if rng.random() < 0.6]
  rate = rng.choice((0.0, 0.15, 0.35, 0.7)) if rate is None else rate
  mm = [m for m in modes if rng.random() < 0.7] or list(modes[:1])
  ops = []
  for _ in range(steps):
    op = {'s': rng.randrange(2**31), 'm': rng.choice(mm), 'faults': []}
    if kinds and rng.random() < rate:
      for _ in range(rng.choice((1, 1, 2))):
        op['faults'].append({'k': rng.choice(kinds), 's': rng.randrange(2**31),
                             'p': rng.choice((0.2, 0.5, 1.0))})
    ops.append(op)
  return ops


def nominal(sim, op, fl):
  """The command as sent: data of action shape, everything valid."""
  c = sim.c
  r = np.random.RandomState(op['s'])
  shape = sim.action_shape()
  if c['dyn'].startswith('disc'):
    k = int(np.prod(np.array(BINS[c['dyn']]) + 1))
    if op['m'] == 'edge':
      return r.choice([0, k - 1], shape), np.ones(shape[:-1] + (1,), bool)
    return r.randint(0, k, shape), np.ones(shape[:-1] + (1,), bool)
  if c['dyn'] == 'state':
    cur = current(fl)
    v = np.stack([cur[k] for k in DYN5], -1).astype(np.float64)
    v = np.where(np.isfinite(v), v, 0.0)
    if c['env'] == 'planning':
      v = pick_sdc(v, fl)
    amp = {'zero': 0, 'small': .3, 'in': 1.5, 'edge': 6, 'out': 60}[op['m']]
    d = v + r.uniform(-1, 1, shape) * np.array([1, 1, .2, 2, 2]) * amp
    return d.astype(np.float32), np.ones(shape[:-1] + (1,), bool)
  lo, hi = bounds(c['dyn'])
  u = r.uniform(-1, 1, shape)
  mid, half = (lo + hi) / 2, (hi - lo) / 2
  f = {'in': u, 'small': .1 * u, 'edge': np.sign(u) + 0 * u, 'out': 3 * u, 'zero': 0 * u}[op['m']]
  return (mid + half * f).astype(np.float32), np.ones(shape[:-1] + (1,), bool)


def pick_sdc(a, fl):
  i = np.argmax(fl['meta.is_sdc'], -1)
  return np.take_along_axis(a, i[..., None, None], -2)[..., 0, :]


def deliver(sim, op, fl, prev, ctx, only=None):
  """Runs the command through the faulty channel. `only` restricts the objects."""
  data, valid = nominal(sim, op, fl)
  data, valid = data.copy(), valid.copy()
  disc = sim.dyn_name.startswith('disc')
  for f in op['faults']:
    r = np.random.RandomState(f['s'])
    m = r.uniform(size=valid.shape[:-1]) < f['p']
    m = np.array(m, bool)
    if not m.any():
      m.reshape(-1)[r.randint(m.size)] = True
    if only is not None:
      m = m & only
    if not m.any():
      continue
    k = f['k']
    if k == 'lost':
      data[m] = 0
      valid[m] = False
    elif k == 'lost_garbage':
      data[m] = _garbage(r, data[m], 50, sim)
      valid[m] = False
    elif k == 'stale':
      if prev is None:
        continue
      data[m] = prev[0][m]
      valid[m] = prev[1][m]
    elif k == 'corrupt':
      data[m] = _garbage(r, data[m], 50, sim)
    elif k == 'extreme':
      if disc:
        continue
      data[m] = np.where(r.rand(*data[m].shape) < .5, -1, 1) * (
          1e4 if kind(sim.dyn_name) == 'bicycle' else 40)
    elif k == 'nan':
      if disc:
        continue
      bad = r.choice([np.nan, np.inf, -np.inf], data[m].shape)
      data[m] = np.where(r.rand(*data[m].shape) < .7, bad, data[m])
    ctx.fault('action_' + k, int(m.sum()))
  return data, valid


def _garbage(r, d, amp, sim):
  if sim.dyn_name.startswith('disc'):
    k = int(np.prod(np.array(BINS[sim.dyn_name]) + 1))
    return r.randint(0, k, d.shape)
  return r.uniform(-amp, amp, d.shape)


# ---------------------------------------------------------------- reference


def current(fl, which='sim', at=None):
  t = int(np.asarray(fl['timestep']).reshape(-1)[0]) if at is None else at
  return {k: fl[f'{which}.{k}'][..., min(t, fl[f'{which}.{k}'].shape[-1] - 1)] for k in scenario.TRAJ}


def control_mask(c, fl):
  if c['ctrl'] == 'SDC':
    return fl['meta.is_sdc']
  if c['ctrl'] == 'MODELED':
    return fl['meta.is_modeled']
  if c['ctrl'] == 'VALID':
    if c['inject']:
      return fl['meta.is_valid']
    return fl['sim.valid'][..., c['init'] - 1]
  raise core.HarnessError(c['ctrl'])


def wrap(a):
  return a - 2 * np.pi * np.floor((a + np.pi) / (2 * np.pi))


def ref_motion(dyn, cur, data):
  """Documented motion model in float64. Returns the 5 kinematic values."""
  with np.errstate(all='ignore'):
    d = np.asarray(data, np.float64)
    x, y, yaw, vx, vy = (np.asarray(cur[k], np.float64) for k in DYN5)
    if dyn.startswith('disc'):
      base = {'disc_norm': 'bicycle_norm'}.get(dyn, dyn.split('_', 1)[1])
      lo, hi = bounds(base)
      bins = np.array(BINS[dyn])
      idx = np.asarray(data, np.int64)[..., 0]
      vals = []
      for k in range(len(bins) - 1, -1, -1):
        vals.append(idx % (bins[k] + 1))
        idx = idx // (bins[k] + 1)
      d = np.stack(vals[::-1], -1) * (hi - lo) / bins + lo
      dyn = base
    dt, kd = step_of(dyn), kind(dyn)
    if kd == 'bicycle':
      lo, hi = bounds(dyn)
      d = np.clip(d, lo, hi)
      if dyn == 'bicycle_norm':
        d = d * np.array([6., .3])
      elif dyn == 'own_norm':
        d = d * np.array([OWN[dyn]['max_accel'], OWN[dyn]['max_steering']])
      a, s = d[..., 0], d[..., 1]
      sp = np.sqrt(vx * vx + vy * vy)
      nx = x + vx * dt + .5 * a * np.cos(yaw) * dt**2
      ny = y + vy * dt + .5 * a * np.sin(yaw) * dt**2
      nyaw = wrap(yaw + s * (sp * dt + .5 * a * dt**2))
      ns = sp + a * dt
      return nx, ny, nyaw, ns * np.cos(nyaw), ns * np.sin(nyaw)
    if kd == 'dlocal':
      c, s = np.cos(yaw), np.sin(yaw)
      dx = c * d[..., 0] - s * d[..., 1]
      dy = s * d[..., 0] + c * d[..., 1]
      return x + dx, y + dy, yaw + d[..., 2], dx / dt, dy / dt
    if kd == 'dglobal':
      return x + d[..., 0], y + d[..., 1], yaw + d[..., 2], d[..., 0] / dt, d[..., 1] / dt
    if dyn == 'state':
      return tuple(d[..., i] for i in range(5))
  raise core.HarnessError(dyn)


def next_valid(c, fl, ctrl):
  t = int(fl['timestep'])
  cur, log = fl['sim.valid'][..., t], fl['log.valid'][..., t + 1]
  if c['inject']:
    return np.where(ctrl & cur, True, log)
  return np.where(ctrl & cur, True, cur & log)


def close(got, want, scale=None, atol=5e-4, rtol=4e-6, angle=False):
  """Elementwise closeness; non-finite must agree in being non-finite."""
  with np.errstate(all='ignore'):
    got = np.asarray(got, np.float64)
    want = np.asarray(want, np.float64)
    d = np.abs(wrap(got - want)) if angle else np.abs(got - want)
    mag = np.abs(want) if scale is None else np.maximum(np.abs(want), scale)
    ok = d <= atol + rtol * mag
    nf = ~np.isfinite(want)
    return np.where(nf, ~np.isfinite(got), ok)


def same(a, b):
  """Bitwise equality, NaN equal to itself."""
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  if a.dtype.kind == 'f':
    return bool(np.all((a == b) | ((a != a) & (b != b))))
  return bool(np.array_equal(a, b))


def where(mask, limit=4):
  idx = np.argwhere(mask)
  return [tuple(int(v) for v in i) for i in idx[:limit]]


# ---------------------------------------------------------------- episodes


class Step:
  __slots__ = ('i', 't', 'before', 'after', 'data', 'valid', 'state', 'next_state', 'ctrl')


def start(sim, plan, ctx, prior=None):
  st = sim.state(plan['scn']) if prior is None else prior
  ctx.fault('log_dropout', int((~np.asarray(st.log_trajectory.valid)).any(-1).sum()))
  s0 = sim.reset(st)
  fl = scenario.flat(s0)
  ctx.event('reset', {k: v for k, v in fl.items() if k.startswith('sim.')})
  return s0, fl


def drive(sim, plan, ctx, only=None, stop=None):
  """Resets and steps through plan['ops'], yielding every step."""
  s, fl = start(sim, plan, ctx)
  prev = None
  T = sim.c['t']
  for i, op in enumerate(plan['ops'][:T - sim.c['init']]):
    data, valid = deliver(sim, op, fl, prev, ctx, only)
    s2 = sim.step(s, sim.action(data, valid))
    fl2 = scenario.flat(s2)
    r = Step()
    r.i, r.t = i, int(np.asarray(fl['timestep']).reshape(-1)[0])
    r.before, r.after, r.data, r.valid = fl, fl2, data, valid
    r.state, r.next_state = s, s2
    r.ctrl = control_mask(sim.c, fl)
    tn = min(r.t + 1, T - 1)
    nxt = current(fl2, at=tn)
    ctx.event('step', i, nxt)
    ctx.step(lanes(sim))
    ctx.state(op['m'], tuple(f['k'] for f in op['faults']), tuple(nxt['valid'].reshape(-1)[:8]))
    yield r
    s, fl, prev = s2, fl2, (data, valid)


def lanes(sim):
  return sim.lanes()


def gen_scn(rng, c, **over):
  lanes_ = int(np.prod(c['batch'])) if c['batch'] else 1
  dark = over.pop('dark', False)
  out = [scenario.gen_spec(rng, c['n'], c['t'], c['p'], c['tl'], c['npath'], c['ppath'], **over)
         for _ in range(lanes_)]
  if rng.random() < .25:
    base = rng.choice((2**24, 2**26 + 1, 2**31 - 9001))
    out = [dict(s, id_base=base) for s in out]
  return [dict(s, blackout=scenario.gen_blackout(rng, c['t'])) for s in out] if dark else out


REAL = ['waymax.env (base and planning environments)', 'waymax.dynamics', 'waymax.datatypes',
        'waymax.utils', 'JAX/XLA CPU']
STUB = ['scenario source (synthetic logs instead of WOMD records)',
        'action channel between the agents and the environment (lost, stale, corrupted, extreme, '
        'non-finite commands)']
