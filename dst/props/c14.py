"""C14: route-following simulated agents follow their path, brake, and resume."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import refidm
from dst import refmetrics as rm
from dst import scenario

S = dict(env='planning', dyn='state', p=12, npath=1, ppath=4, metrics=[], rewards={'overlap': -1.})
CLASSES = [
    ep.cls(n=4, t=26, init=3, policy='config', **S),
    ep.cls(n=6, t=20, init=2, policy='config', batch=[2], **S),
    ep.cls(n=4, t=24, init=3, policy='idm', opt=dict(lookahead_from_current_position=False), **S),
    ep.cls(n=4, t=26, init=3, policy='idm', opt=dict(desired_vel=8., max_accel=3.5, max_decel=2.5, min_spacing=3., safe_time_headway=1., delta=2.), claim='even', **S),
    ep.cls(n=5, t=22, init=1, policy='idm', opt=dict(additional_lookahead_points=20, additional_lookahead_distance=30., desired_vel=14., max_accel=1.2), **S),
    ep.cls(n=4, t=20, init=3, policy='idm', opt=dict(invalidate_on_end=True, lookahead_from_current_position=False, max_lookahead=5), claim='vehicles', direct=True, **S),
    ep.cls(n=4, t=18, init=2, policy='const', speed=6.5, direct=True, **S),
    ep.cls(n=3, t=24, init=3, policy='config_sdc', direct=True, **S),
    ep.cls(n=5, t=22, init=3, policy='idm', opt=dict(additional_lookahead_distance=24., additional_lookahead_points=12), inject=False, batch=[1, 2], **S),
    ep.cls(n=4, t=20, init=2, policy='idm', opt=dict(additional_lookahead_points=0, lookahead_from_current_position=False, max_lookahead=14), direct=True, **S),
]
SCRIPT = ('log', 'ahead', 'ahead', 'stall', 'stall', 'away', 'crawl', 'beside', 'faulty')


class P(core.Prop):
  id = 'C14'
  rule = ('a run is one planning episode in which the planned vehicle is scripted to appear, stall, crawl and vanish '
          'ahead of a route-following agent; every claimed object is compared at every step with a float64 reference '
          'of the following law; non-trivial if a moving object was judged')
  real = ep.REAL + ['waymax.agents (waypoint following, IDM, builder)']
  stub = ep.STUB + ['planned vehicle (scripted obstacle)']
  assumptions = ['steps where the reference waypoint, the object ahead or the end of the path is ambiguous within rounding are not judged',
                 'present objects are judged']
  class_cost = 3

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 4, t=60) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 240 if tier == 'quick' else 2400

  def gen(self, rng, c, tier):
    ops = []
    mode, left = 'log', 0
    kinds = [k for k in SCRIPT if rng.random() < .7] or ['ahead']
    for _ in range(c['t'] - c['init']):
      if left == 0:
        mode, left = rng.choice(kinds), rng.randint(1, 7)
        who = rng.randrange(c['n'])
        gap = rng.choice([1.5, 4, 7, 9, 12, 18, 28])
      left -= 1
      ops.append({'m': mode, 'who': who, 'gap': gap, 's': rng.randrange(2**31)})
    return {'scn': ep.gen_scn(rng, c, layout=rng.choice(['lane', 'lane', 'road', 'crowd', 'open']),
                              presence=rng.choice(['all', 'all', 'mix', 'flicker', 'late'])), 'ops': ops}

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      import jax
      import jax.numpy as jnp
      from waymax import agents, config
      from waymax.agents import waypoint_following_agent as w, constant_speed
      claim = {None: None, 'even': lambda s: (jnp.broadcast_to(jnp.arange(s.num_objects), s.object_metadata.shape) % 2 == 0) & ~s.object_metadata.is_sdc,
               'vehicles': lambda s: (s.object_metadata.object_types == 1) & ~s.object_metadata.is_sdc}[c.get('claim')]
      if c['policy'] in ('config', 'config_sdc'):
        ag = agents.create_sim_agents_from_config(config.SimAgentConfig(
            agent_type=config.SimAgentType.IDM,
            controlled_objects=config.ObjectType.SDC if c['policy'] == 'config_sdc' else config.ObjectType.NON_SDC))
      elif c['policy'] == 'idm':
        ag = w.IDMRoutePolicy(is_controlled_func=claim, **c['opt'])
      else:
        ag = constant_speed.ConstantSpeedPolicy(c['speed'])
      sim = ep.Sim(c, actors=[ag], params=[{}])
      sim.answer = jax.jit(lambda s: ag.select_action({}, s, None, None))
      ctx.cache[key] = sim
    return ctx.cache[key]

  def claims(self, c, fl):
    sdc = fl['meta.is_sdc']
    if c['policy'] == 'config_sdc':
      return sdc
    if c.get('claim') == 'even':
      return (np.arange(c['n']) % 2 == 0) & ~sdc
    if c.get('claim') == 'vehicles':
      return (fl['meta.object_types'] == 1) & ~sdc
    return ~sdc

  def script(self, c, op, fl, t):
    """Pose of the planned vehicle at the next step (one scenario)."""
    k = int(np.argmax(fl['meta.is_sdc']))
    own = np.array([fl['sim.' + f][k, t] for f in ep.DYN5], float)
    own = np.where(np.isfinite(own), own, 0.)
    log = np.array([fl['log.' + f][k, t + 1] for f in ep.DYN5], float)
    r = np.random.RandomState(op['s'])
    m = op['m']
    w = op['who'] if op['who'] != k else (k + 1) % c['n']
    f = np.array([fl['sim.' + q][w, t] for q in ep.DYN5], float)
    if m == 'stall':
      return np.array([own[0], own[1], own[2], 0, 0])
    if m == 'crawl':
      return np.array([own[0] + .15 * np.cos(own[2]), own[1] + .15 * np.sin(own[2]), own[2], 1.5 * np.cos(own[2]), 1.5 * np.sin(own[2])])
    if m == 'away':
      return np.array([own[0] + 500, own[1] - 300, own[2], 0, 0])
    if m in ('ahead', 'beside') and np.isfinite(f).all() and fl['sim.valid'][w, t]:
      side = 0. if m == 'ahead' else r.choice([-1, 1]) * r.uniform(1.5, 5)
      g = op['gap'] + .5 * float(fl['sim.length'][w, t])
      v = r.choice([0., 0., 2., 9.])
      return np.array([f[0] + g * np.cos(f[2]) - side * np.sin(f[2]), f[1] + g * np.sin(f[2]) + side * np.cos(f[2]),
                       f[2] + r.choice([0, .3, np.pi]), v * np.cos(f[2]), v * np.sin(f[2])])
    if m == 'faulty':
      return own + r.normal(0, 15, 5)
    return log

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = self.world(ctx, c)
    s, fl = ep.start(sim, plan, ctx)
    batch = tuple(c['batch'])
    stuck = np.zeros(batch + (c['n'],), bool)
    sure0 = np.ones(batch + (c['n'],), bool)
    for i in rm.indices(batch):
      v, m, ok = rm.overlap(rm.lane(fl, i), 0, 'log')
      stuck[i], sure0[i] = (v > 0) & m, ok
    for op in plan['ops'][:c['t'] - c['init']]:
      t = int(np.asarray(fl['timestep']).reshape(-1)[0])
      data = np.zeros(sim.action_shape())
      for i in rm.indices(batch):
        data[i] = self.script(c, op, rm.lane(fl, i), t)
      ctx.fault('obstacle_' + op['m'])
      out = sim.answer(s)
      s2 = sim.step(s, sim.action(data, np.ones(data.shape[:-1] + (1,), bool)))
      f2 = scenario.flat(s2)
      ctx.step(sim.lanes())
      ctx.event('step', op['m'], f2['sim.x'][..., t + 1])
      claim = np.asarray(out.is_controlled)
      want = np.broadcast_to(self.claims(c, fl), claim.shape)
      ctx.check(np.array_equal(claim, want), 'claims', lambda: f'step {t}: claims {claim}, configured {want}')
      for i in rm.indices(batch):
        self.judge(ctx, c, rm.lane(fl, i), rm.lane(f2, i), t, claim[i], stuck[i], sure0[i],
                   np.asarray(out.action.data)[i], np.asarray(out.action.valid)[i])
      s, fl = s2, f2

  def judge(self, ctx, c, fl, f2, t, claim, stuck, sure0, data, valid):
    p = dict(refidm.IDM, **c.get('opt', {}))
    pres = fl['sim.valid'][:, t]
    for o in range(c['n']):
      if not pres[o]:
        if claim[o]:
          ctx.check(not valid[o, 0], 'absent-object-commanded', f'step {t}: object {o} is absent but its command is valid')
        continue
      here = [fl['sim.' + f][o, t] for f in ep.DYN5]
      if not np.isfinite(here).all():
        continue
      if c['policy'] == 'const':
        new, err, sure, ld, v = c['speed'], 1e-5, True, None, float(np.hypot(here[3], here[4]))
      else:
        new, err, sure, ld, v = refidm.idm_speed(fl, t, o, p)
      if not sure:
        ctx.probe('ambiguous_lead')
        continue
      inv = True if c['policy'] == 'const' else p['invalidate_on_end']
      w, ok = refidm.follow(fl, t, o, new, inv)
      if not ok:
        ctx.probe('ambiguous_path')
        continue
      ctx.probe('judged')
      ctx.probe('moving_judged', int(v > .5))
      ctx.probe('behind_lead', int(ld is not None))
      ctx.probe('braked', int(new < v - .05))
      ctx.probe('stopped_behind_lead', int(ld is not None and new == 0))
      ctx.probe('sped_up', int(new > v + .05))
      ctx.probe('end_of_path', int(w['end']))
      ctx.state(o, ld is not None, int(new), w['end'], c['policy'])
      what = f'step {t} object {o} (speed {v:.3f} -> {new:.3f}, ahead {ld})'
      mag = abs(float(here[0])) + abs(float(here[1]))
      tol = {'x': 1.5e-3 + 4e-6 * mag + .1 * err, 'yaw': 1e-4, 'vel_x': 1e-3 + err + 1e-5 * v}
      tol['y'], tol['vel_y'] = tol['x'], tol['vel_x']
      # the actor's own answer
      ctx.check(bool(valid[o, 0]) == w['valid'], 'answer-valid', f'{what}: command valid {valid[o, 0]}, expected {w["valid"]}')
      if w['valid']:
        for q, f in enumerate(ep.DYN5):
          d = abs(ep.wrap(data[o, q] - w[f])) if f == 'yaw' else abs(float(data[o, q]) - w[f])
          ctx.check(d <= tol[f], 'answer-' + f, f'{what}: {f} {data[o, q]}, the law gives {w[f]}')
      # what the environment made of it
      if claim[o] and not stuck[o] and sure0[o] and w['valid']:
        ctx.check(bool(f2['sim.valid'][o, t + 1]), 'claimed-vanished', what)
        for q, f in enumerate(ep.DYN5):
          g = float(f2['sim.' + f][o, t + 1])
          ctx.check(abs(ep.wrap(g - w[f]) if f == 'yaw' else g - w[f]) <= tol[f], 'moved-' + f,
                    f'{what}: {f} {g} after the step, the law gives {w[f]}')
        ctx.probe('moved_judged')

  def nontrivial(self, plan, ctx):
    return ctx.probes['moving_judged'] > 0


PROP = P()
