"""C32: an episode means the same however it is executed."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario

M = ['log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway', 'sdc_off_route', 'sdc_progression']
RW = {'log_divergence': -.3, 'overlap': -1., 'sdc_progression': .5}
S = dict(metrics=M, rewards=RW, p=30, npath=2, ppath=8, t=12)
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', n=4, **S),
    ep.cls(dyn='dlocal', ctrl='MODELED', n=3, inject=False, batch=[2], init=2, **S),
    ep.cls(env='planning', dyn='bicycle', n=4, agents=['even', 'near'], **S),
    ep.cls(env='planning', dyn='disc_dglobal', n=3, idm=True, init=1, **S),
    ep.cls(dyn='state', ctrl='SDC', n=3, batch=[2, 2], init=4, **S),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', n=1, inject=False, **S),
    ep.cls(env='planning', dyn='disc_dglobal', n=3, batch=[2], xla='multi', init=2, **S),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', n=3, xla='multi', **S),
]
MODES = [('eager', 'scan', 'host'), ('scan', 'vmap', 'closure'), ('eager', 'scan', 'while'), ('host', 'cond', 'vmap'),
         ('eager', 'scan', 'grad'), ('scan', 'remat', 'host'), ('device', 'device', 'cond'), ('device', 'vmap', 'while')]
for _c, _m in zip(CLASSES, MODES):
  _c['modes'] = list(_m)


def gen_other(rng, c):
  """A scenario of another length, map size and batch shape for the same environment."""
  batch, t, p, tl, m, pp = rng.choice((([], 5, 12, 1, 1, 6), ([1, 2], 8, 44, 5, 3, 11)) if c['batch'] else
                                      (([], 5, 12, 5, 3, 6), ([2], 8, 44, 1, 1, 11)))
  k = int(np.prod(batch)) if batch else 1
  t += c['init']
  return {'batch': batch, 'scn': [scenario.gen_spec(rng, c['n'], t, p, tl, m, pp) for _ in range(k)],
          'bare': rng.random() < .3, 's': rng.randrange(2**31), 'steps': rng.choice((1, 2))}


class P(core.Prop):
  id = 'C32'
  rule = ('a run is one episode in which a seeded schedule picks for every step how it is executed (eager, compiled, '
          'scanned, mapped, in a conditional or loop, on host arrays, on another device) and when the environment object '
          'serves a scenario of another shape; non-trivial if a step in another mode was judged')
  real = ep.REAL + ['waymax.metrics', 'waymax.rewards', 'waymax.datatypes.observation', 'waymax.agents (IDM)']
  stub = ep.STUB + ['accelerators (host devices of the CPU backend)']
  assumptions = ['modes agree up to float32 rounding; entries marked invalid and metrics within rounding of a decision '
                 'boundary are not judged']
  list_keys = ('ops',)
  class_cost = 8

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 4, t=30, modes=list(m)) for c in CLASSES for m in MODES[:6]] if tier == 'thorough' else [])

  def runs(self, tier):
    return 72 if tier == 'quick' else 900

  def gen(self, rng, c, tier):
    left = c['t'] - c['init']
    ops = ep.gen_ops(rng, c, rng.randint(2, left) if rng.random() < .6 else left + rng.choice((1, 2, 3)))
    modes = rng.sample(c['modes'], rng.choice((1, 2, 3)))
    for op in ops:
      op['mode'] = rng.choice(modes)
      op['len'] = rng.choice((1, 2, 3))
      op['dev'] = rng.randrange(1, 3)
      if rng.random() < .1:
        # every command of this step is lost
        op['faults'].append({'k': rng.choice(('lost', 'lost_garbage')), 's': rng.randrange(2**31), 'p': 1.1})
      if rng.random() < .07:
        op['other'] = gen_other(rng, c)
    return {'scn': ep.gen_scn(rng, c, dark=True, garbage=rng.choice(['womd', 'finite', 'near', 'nan'])), 'ops': ops,
            'reset': rng.choice(('jit', 'eager', 'vmap', 'host')), 'mut': rng.randrange(2**31)}

  def world(self, ctx, c, tag=''):
    key = f'w{tag}' + json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      import functools
      import jax
      from dst import actors
      from waymax import config
      from waymax import datatypes
      ag = [actors.make_sim_agent(k, i) for i, k in enumerate(c.get('agents', []))]
      params = [{'gain': .1}] * len(ag)
      if c.get('idm'):
        from waymax import agents
        ag.append(agents.create_sim_agents_from_config(config.SimAgentConfig(
            agent_type=config.SimAgentType.IDM, controlled_objects=config.ObjectType.NON_SDC)))
        params.append({})
      sim = ep.Sim(c, actors=ag, params=params)
      env = sim.env
      see = functools.partial(datatypes.observation_from_state, obs_num_steps=2, roadgraph_top_k=6,
                              coordinate_frame=config.CoordinateFrame.SDC)

      def tick(s, a):
        """One step with everything one reads around it."""
        s2 = env.step(s, a)
        o = see(s2)
        return s2, {'metrics': env.metrics(s2), 'reward': env.reward(s2, a), 'ends': (env.termination(s2), env.truncation(s2)),
                    'obs': (o.trajectory, o.traffic_lights.valid, o.is_ego)}
      sim.tick = tick
      sim.jit_tick = jax.jit(tick)

      def scan(s, aa):
        return jax.lax.scan(tick, s, aa)

      def mapped(s, a):
        return jax.vmap(tick)(s, a)

      def cond(s, a, go):
        # waiting or stepping: both give a state of the same kind
        return jax.lax.cond(go, lambda x: env.step(x, a), lambda x: x, s)

      def loop(s, a, k):
        return jax.lax.fori_loop(0, k, lambda i, x: env.step(x, a), s)

      def loss(x, s, a):
        s2 = env.step(s, a.replace(data=x))
        return jax.numpy.sum(jax.numpy.where(s2.sim_trajectory.valid, s2.sim_trajectory.x, 0.)), s2
      sim.scan, sim.mapped, sim.cond, sim.loop = jax.jit(scan), jax.jit(mapped), jax.jit(cond), jax.jit(loop)
      sim.remat = jax.jit(jax.checkpoint(tick))
      sim.grad = jax.jit(jax.value_and_grad(loss, has_aux=True))
      sim.map_reset = jax.jit(jax.vmap(env.reset))
      ctx.cache[key] = sim
    return ctx.cache[key]

  def execute(self, plan, ctx):
    import jax
    import jax.numpy as jnp
    c = plan['cls']
    sim = self.world(ctx, c)
    tree = jax.tree_util.tree_map
    raw = sim.state(plan['scn'])
    s = sim.reset(raw)
    ctx.fault('log_dropout', int((~np.asarray(raw.log_trajectory.valid)).any(-1).sum()))
    how = plan['reset']
    if how != 'jit':
      r = {'eager': lambda: sim.env.reset(raw), 'host': lambda: sim.env.reset(tree(np.asarray, raw)),
           'vmap': lambda: tree(lambda x: x[0], sim.map_reset(tree(lambda x: jnp.stack([x, x]), raw)))}[how]()
      ctx.fault('reset_' + how)
      self.alike(ctx, r, s, f'reset {how}', None)
    fl = scenario.flat(s)
    prev = None
    ops = plan['ops']
    i = 0
    while i < len(ops):
      op = ops[i]
      mode = op['mode']
      k = min(op['len'], len(ops) - i) if mode in ('scan', 'while') else 1
      acts, want = [], []
      x = s
      for j in range(k):
        data, valid = ep.deliver(sim, ops[i + (j if mode == 'scan' else 0)], scenario.flat(x), prev, ctx)
        if mode == 'grad' and not np.isfinite(data).all():
          data = np.nan_to_num(data, nan=0., posinf=1., neginf=-1.)
        acts.append(sim.action(data, valid) if mode == 'scan' or not acts else acts[0])
        prev = data, valid
        y, reads = sim.jit_tick(x, acts[-1])
        want.append((y, reads))
        x = y
      a = acts[0]
      ctx.fault('mode_' + mode)
      what = f'{mode} step {int(np.asarray(s.timestep).reshape(-1)[0])}'
      got = []
      if mode == 'eager':
        got = [sim.tick(s, a)]
      elif mode == 'host':
        h = tree(np.asarray, s)
        before = [x.copy() for x in jax.tree_util.tree_leaves(h)]
        got = [sim.tick(h, tree(np.asarray, a))]
        ctx.check(all(ep.same(p, q) for p, q in zip(before, jax.tree_util.tree_leaves(h))), 'input-changed', what)
      elif mode == 'scan':
        end, reads = sim.scan(s, tree(lambda *z: jnp.stack(z), *acts))
        got = [(None, tree(lambda z, j=j: z[j], reads)) for j in range(k)]
        got[-1] = (end, got[-1][1])
      elif mode == 'vmap':
        r = np.random.RandomState(op['s'])
        b = sim.action(ep._garbage(r, np.asarray(a.data), 3, sim), r.rand(*np.shape(a.valid)) < .5)
        both = sim.mapped(tree(lambda x: jnp.stack([x, x]), s), tree(lambda x, y: jnp.stack([x, y]), a, b))
        got = [tree(lambda x: x[0], both)]
      elif mode == 'cond':
        self.alike(ctx, sim.cond(s, a, False), s, what + ' (waiting)', s, exact=True)
        got = [(sim.cond(s, a, True), None)]
      elif mode == 'while':
        got = [(None, None)] * (k - 1) + [(sim.loop(s, a, k), None)]
      elif mode == 'closure':
        got = [jax.jit(lambda z: sim.tick(s, z))(a)] if i == 0 else [sim.remat(s, a)]
      elif mode == 'remat':
        got = [sim.remat(s, a)]
      elif mode == 'grad':
        if np.issubdtype(np.asarray(a.data).dtype, np.floating):
          (_, s2), g = sim.grad(a.data, s, a)
          ctx.check(g.shape == a.data.shape, 'gradient-shape', f'{g.shape}')
          got = [(s2, None)]
        else:
          got = [sim.jit_tick(s, a)]
      elif mode == 'device':
        dev = jax.devices()[op['dev'] % len(jax.devices())]
        got = [(sim.tick if op['s'] % 2 else sim.jit_tick)(jax.device_put(s, dev), jax.device_put(a, dev))]
        if not op['s'] % 2:
          # (eagerly, constants may stay where constants are made)
          ctx.check({d for x in jax.tree_util.tree_leaves(got[0]) for d in x.devices()} == {dev}, 'other-device', f'{what}: results are not on {dev}')
        ctx.fault('other_device')
      for j, ((gs, gr), (ws, wr)) in enumerate(zip(got, want)):
        if gs is not None:
          self.alike(ctx, gs, ws, what, s)
        if gr is not None:
          self.reads(ctx, c, gr, wr, ws, what)
      new = got[-1][0]
      new = jax.device_put(new, jax.devices()[0])
      if not c['batch']:
        new.validate()  # (a batch has one clock, which this validation refuses)
      new.sim_trajectory.validate()
      new.log_trajectory.validate()
      new.object_metadata.validate()
      new.log_traffic_light.validate()
      ctx.probe('steps_' + mode, k)
      ctx.step(k * sim.lanes())
      fl = scenario.flat(new)
      ctx.event('step', i, mode, {q: v for q, v in scenario.flat(want[-1][0]).items() if q.startswith('sim.')})
      now = int(fl['timestep'].reshape(-1)[0])
      if now >= c['t']:
        ctx.fault('step_past_end')
      ctx.state(mode, k, tuple(fl['sim.valid'][..., min(now, c['t'] - 1)].reshape(-1)[:8]))
      if 'other' in op:
        self.other(ctx, c, sim, op['other'])
      s = new
      i += k

  def other(self, ctx, c, sim, o):
    """The same environment object serves a scenario of another shape."""
    import jax
    c2 = dict(c, batch=o['batch'], t=o['scn'][0]['t'])
    fresh = self.world(ctx, dict(c2, metrics=['log_divergence'], rewards={'overlap': -1.}), 'fresh' + str([o['scn'][0][k] for k in ('p', 'tl', 'npath', 'ppath')]))
    arrs = fresh.arrays(o['scn'])
    raw = scenario.state(arrs)
    if o['bare']:
      raw = raw.replace(sdc_paths=None) if c.get('idm') is None else raw
    a, b = sim.reset(raw), fresh.reset(raw)
    ctx.fault('other_shape')
    self.alike(ctx, a, b, f'reset of another shape {o["batch"]}', None)
    for k in range(o['steps']):
      op = {'s': o['s'] + k, 'm': 'in', 'faults': []}
      data, valid = ep.nominal(fresh, op, scenario.flat(a))
      act = fresh.action(data, valid)
      s0 = a
      a, b = sim.step(a, act), fresh.step(b, act)
      self.alike(ctx, a, b, f'step of another shape {o["batch"]}', s0)

      n = c2['t']
      end = int(np.asarray(a.timestep).reshape(-1)[0]) + 1 >= n
      ctx.check(bool(np.all(np.asarray(sim.env.truncation(a)) == end)), 'end-differs', f'after a step of a scenario of {n} timesteps')

  def alike(self, ctx, got, want, what, source, exact=False):
    import jax
    tu = jax.tree_util
    for ref, name in ((want, 'the compiled result'), (source, 'the state it came from')):
      if ref is None:
        continue
      ctx.check(tu.tree_structure(got) == tu.tree_structure(ref), 'structure', lambda: f'{what}: differs from {name}')
      for x, y in zip(tu.tree_leaves(got), tu.tree_leaves(ref)):
        ctx.check(np.shape(x) == np.shape(y) and np.asarray(x).dtype == np.asarray(y).dtype, 'structure',
                  lambda: f'{what}: a leaf of {np.shape(x)} {np.asarray(x).dtype}, {name} has {np.shape(y)} {np.asarray(y).dtype}')
    a, b = scenario.flat(got), scenario.flat(want)
    # (an object that enters from placeholder data may be at any speed, where
    # the heading of the bicycle model is not determined by rounded numbers)
    with np.errstate(all='ignore'):
      live = b['sim.valid'] & ~(np.hypot(b['sim.vel_x'], b['sim.vel_y']) > 200)
    for k in b:
      if exact or not k.startswith('sim.') or b[k].dtype.kind != 'f':
        bad = ~((a[k] == b[k]) | ((a[k] != a[k]) & (b[k] != b[k])))
        if k.startswith('sim.') and k != 'sim.valid' and not exact:
          bad = bad & live
      else:
        with np.errstate(all='ignore'):
          mag = np.nan_to_num(np.abs(b['sim.x']) + np.abs(b['sim.y']), posinf=0., neginf=0.) if k in ('sim.x', 'sim.y') else None
          if k in ('sim.vel_x', 'sim.vel_y'):
            mag = np.nan_to_num(np.abs(b['sim.vel_x']) + np.abs(b['sim.vel_y']), posinf=0., neginf=0.)
        bad = live & ~ep.close(a[k], b[k], scale=mag, atol=1e-3, rtol=2e-5, angle=k == 'sim.yaw')
      ctx.check(not np.any(bad), 'differs', lambda: f'{what}: {k} at {ep.where(np.atleast_1d(bad))}: {a[k][bad][:3]}, compiled {b[k][bad][:3]}')

  def reads(self, ctx, c, got, want, s, what):
    fl = scenario.flat(s)
    t = int(np.asarray(fl['timestep']).reshape(-1)[0])
    last = min(t, c['t'] - 1)
    batch = tuple(c['batch'])
    for g, w in zip(got['ends'], want['ends']):
      ctx.check(ep.same(g, w), 'end-differs', what)
    ctx.check(set(got['metrics']) == set(want['metrics']), 'metrics-differ', what)
    all_sure = True
    for name, w in want['metrics'].items():
      g = got['metrics'][name]
      gv, gm, wv, wm = (np.asarray(x) for x in (g.value, g.valid, w.value, w.valid))
      ctx.check(gv.shape == wv.shape and gv.dtype == wv.dtype and gm.dtype == wm.dtype, 'metrics-differ', lambda: f'{what}: {name} {gv.shape} {wv.shape} {gv.dtype} {wv.dtype}')
      for ix in rm.indices(batch):
        one = rm.lane(fl, ix)
        sure = np.asarray(rm.REF[name](one, t)[2]) if 0 < t < c['t'] else np.zeros(wv[ix].shape, bool)
        if c['env'] == 'planning' and name in rm.OBJECT and np.ndim(sure):
          sure = sure[int(np.argmax(one['meta.is_sdc']))]
        sure = np.logical_and(sure, np.ones(wv[ix].shape, bool))
        all_sure = all_sure and bool(sure.all())
        bad = sure & ((gm[ix] != wm[ix]) | wm[ix] & ~ep.close(gv[ix], wv[ix], atol=5e-3, rtol=2e-4))
        ctx.check(not np.any(bad), 'metrics-differ', lambda: f'{what}: {name} of scenario {ix}: {gv[ix]} {gm[ix]}, compiled {wv[ix]} {wm[ix]}')
    if all_sure:
      g, w = np.asarray(got['reward']), np.asarray(want['reward'])
      ctx.check(g.shape == w.shape and bool(np.all(ep.close(g, w, atol=1e-2, rtol=2e-4))), 'reward-differs', lambda: f'{what}: {g}, compiled {w}')
    (gt, gl, ge), (wt, wl, we) = got['obs'], want['obs']
    ctx.check(ep.same(gl, wl) and ep.same(ge, we) and ep.same(gt.valid, wt.valid), 'observation-differs', what)
    ok = np.asarray(wt.valid)
    with np.errstate(all='ignore'):
      if np.any(fl['sim.valid'] & (np.hypot(fl['sim.vel_x'], fl['sim.vel_y']) > 200)):
        ok = np.zeros_like(ok)  # (see alike: so is the frame of the observation)
    for f in ('x', 'y', 'vel_x', 'vel_y'):
      g, w = np.asarray(getattr(gt, f)), np.asarray(getattr(wt, f))
      with np.errstate(all='ignore'):
        mag = np.nan_to_num(np.abs(fl['sim.x'][..., last]).max() + np.abs(fl['sim.y'][..., last]).max(), posinf=1e9)
      bad = ok & np.isfinite(w) & ~ep.close(g, w, scale=np.full(w.shape, min(mag, 1e9)), atol=5e-3, rtol=2e-5)
      ctx.check(not np.any(bad), 'observation-differs', lambda: f'{what}: {f} at {ep.where(bad)}: {g[bad][:3]}, compiled {w[bad][:3]}')

  def nontrivial(self, plan, ctx):
    return ctx.sim_steps > 0


PROP = P()
