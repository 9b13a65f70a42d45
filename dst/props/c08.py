"""C08: scenarios in a batch do not influence each other."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario

M = list(ep.ALL_METRICS)
RW = {'overlap': -1., 'offroad': -2., 'sdc_progression': .5, 'log_divergence': -.25}
S = dict(metrics=M, rewards=RW, p=30, npath=2, ppath=8)
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, n=4, t=12, batch=[3], **S),
    ep.cls(dyn='dlocal', ctrl='MODELED', init=2, n=3, t=10, batch=[2, 2], inject=False, **S),
    ep.cls(env='planning', dyn='bicycle', init=3, n=4, t=12, batch=[2], agents=['even', 'near'], **S),
    ep.cls(dyn='state', ctrl='SDC', init=1, n=3, t=9, batch=[3], **S),
    ep.cls(env='planning', dyn='dglobal', init=2, n=3, t=10, batch=[1, 3], idm=True, **S),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', init=3, n=2, t=10, batch=[2], **S),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', init=3, n=4, t=12, batch=[4], inject=False, **S),
]


class P(core.Prop):
  id = 'C08'
  rule = ('a run simulates a batch, every scenario of it alone, and the batch again with faults confined '
          'to one scenario; non-trivial if at least one step of a batch of two or more scenarios')
  real = ep.REAL + ['waymax.metrics', 'waymax.rewards', 'waymax.datatypes.observation', 'waymax.agents (IDM)']
  stub = ep.STUB
  assumptions = ['float32 rounding may differ between the batched and the single program']
  list_keys = ('ops',)
  class_cost = 8

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 4, t=30) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 84 if tier == 'quick' else 1000

  def gen(self, rng, c, tier):
    lanes = int(np.prod(c['batch']))
    return {'scn': ep.gen_scn(rng, c), 'ops': ep.gen_ops(rng, c, rng.randint(2, c['t'] - c['init'])),
            'victim': rng.randrange(lanes), 'other': ep.gen_scn(rng, dict(c, batch=[]))[0], 'salt': rng.randrange(2**31)}

  def world(self, ctx, c):
    key = 'w' + json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      import jax
      from dst import actors
      from waymax import config
      from waymax import datatypes
      ag = [actors.make_sim_agent(k, i) for i, k in enumerate(c.get('agents', []))]
      params = [{'gain': .1}] * len(ag)
      if c.get('idm'):
        from waymax import agents
        ag.append(agents.create_sim_agents_from_config(config.SimAgentConfig(
            agent_type=config.SimAgentType.IDM, controlled_objects=config.ObjectType.NON_SDC)))
        params.append({})
      sim = ep.Sim(c, actors=ag, params=params)
      F = config.CoordinateFrame
      sim.obs = jax.jit(lambda s: (
          datatypes.observation_from_state(s, 2 if c['init'] > 1 else 1, 6, F.OBJECT),
          datatypes.sdc_observation_from_state(s, 1, 9, F.SDC)))
      ctx.cache[key] = sim
    return ctx.cache[key]

  def reads(self, sim, s, a):
    from dst import actors
    m = {k: (np.asarray(v.value), np.asarray(v.valid)) for k, v in sim.metrics(s).items()}
    return m, np.asarray(sim.reward(s, a)), actors.tree_np(sim.obs(s))

  def episode(self, sim, scn, acts):
    s = sim.reset(sim.state(scn))
    out = []
    for i, (d, v) in enumerate(acts):
      a = sim.action(d, v)
      out.append((scenario.flat(s), self.reads(sim, s, a)))
      s = sim.step(s, a)
    a = sim.action(*acts[-1])
    out.append((scenario.flat(s), self.reads(sim, s, a)))
    return out

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = self.world(ctx, c)
    one = self.world(ctx, dict(c, batch=[]))
    lanes = sim.lanes()
    if not plan['ops']:
      return
    # the batch, through the faulty channel
    s, fl = ep.start(sim, plan, ctx)
    acts, prev = [], None
    for op in plan['ops'][:c['t'] - c['init']]:
      d, v = ep.deliver(sim, op, fl, prev, ctx)
      acts.append((d, v))
      s = sim.step(s, sim.action(d, v))
      fl = scenario.flat(s)
      prev = (d, v)
    whole = self.episode(sim, plan['scn'], acts)
    ctx.step(len(acts) * lanes)
    for i, (fl, reads) in enumerate(whole):
      ctx.event('batch', i, {k: v for k, v in fl.items() if k.startswith('sim.')}, reads[1])
    idx = list(np.ndindex(*c['batch']))
    for k, ix in enumerate(idx):
      mine = self.episode(one, [plan['scn'][k]], [(d[ix], v[ix]) for d, v in acts])
      for i, ((fb, rb), (fo, ro)) in enumerate(zip(whole, mine)):
        self.alike(ctx, c, i, k, ix, fb, rb, fo, ro)
        ctx.state(i, k, c['dyn'], tuple(fo['sim.valid'][:, min(int(fo['timestep']), c['t'] - 1)]))
    # faults confined to one scenario: the same program on the other lanes
    vic = idx[plan['victim']]
    r = np.random.RandomState(plan['salt'])
    scn2 = list(plan['scn'])
    scn2[plan['victim']] = dict(plan['other'], garbage='nan' if r.rand() < .5 else plan['other']['garbage'])
    acts2 = []
    for d, v in acts:
      d, v = d.copy(), v.copy()
      d[vic] = ep._garbage(r, d[vic], 1e3, sim)
      if not sim.dyn_name.startswith('disc') and r.rand() < .5:
        d[vic] = np.nan
      v[vic] = r.rand(*v[vic].shape) < .5
      acts2.append((d, v))
    ctx.fault('lane_replaced')
    ctx.fault('lane_commands_garbled', len(acts2))
    other = self.episode(sim, scn2, acts2)
    for i, ((fa, ra), (fb, rb)) in enumerate(zip(whole, other)):
      for ix in idx:
        if ix == vic:
          continue
        for name in fa:
          if name == 'timestep' or not name.startswith('sim.'):
            continue
          ctx.check(ep.same(fa[name][ix], fb[name][ix]), 'lane-leak-state',
                    lambda: f'{name} of scenario {ix} changed at step {i} though only scenario {vic} was disturbed')
        for m in ra[0]:
          ctx.check(ep.same(ra[0][m][0][ix], rb[0][m][0][ix]) and ep.same(ra[0][m][1][ix], rb[0][m][1][ix]),
                    'lane-leak-metric', lambda: f'{m} of scenario {ix} at step {i}: {ra[0][m][0][ix]} {rb[0][m][0][ix]}')
        ctx.check(ep.same(ra[1][ix], rb[1][ix]), 'lane-leak-reward',
                  lambda: f'reward of scenario {ix} at step {i}: {ra[1][ix]} {rb[1][ix]}')
        self.leaves(ctx, i, ix, ra[2], rb[2])

  def leaves(self, ctx, i, ix, a, b):
    import jax
    for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
      ctx.check(ep.same(x[ix], y[ix]), 'lane-leak-observation', lambda: f'observation of scenario {ix} at step {i}')

  def alike(self, ctx, c, i, k, ix, fb, rb, fo, ro):
    import jax
    for name in fo:
      if name == 'timestep':
        ctx.check(int(np.asarray(fb[name]).reshape(-1)[0]) == int(fo[name]), 'batch-clock', f'{fb[name]} {fo[name]}')
        continue
      a, b = fb[name][ix], fo[name]
      ok = a.shape == b.shape and a.dtype == b.dtype
      if ok:
        ok = bool(np.all(ep.close(a, b, atol=2e-3, rtol=1e-5, angle=name == 'sim.yaw'))) if b.dtype.kind == 'f' else np.array_equal(a, b)
      ctx.check(ok, 'batch-state', lambda: f'{name} of scenario {k} at step {i} differs from simulating it alone')
    t = int(fo['timestep'])
    unsure = False
    for name, (vo, mo) in ro[0].items():
      vb, mb = rb[0][name]
      ctx.check(vb.shape == tuple(c['batch']) + vo.shape, 'batch-metric-shape', f'{name} {vb.shape} {vo.shape}')
      vb, mb = vb[ix], mb[ix]
      sure = np.ones(vo.shape, bool)
      if not (name == 'kinematic_infeasibility' and t == 0):
        sure = rm.REF[name](fo, t)[2]
        if c['env'] == 'planning' and name in rm.OBJECT:
          sure = sure[int(np.argmax(fo['meta.is_sdc']))]
      bad = np.logical_and(sure, ~(ep.close(vb, vo, atol=3e-3, rtol=1e-4) & (mb == mo)))
      unsure = unsure or not np.all(sure)
      ctx.check(not np.any(bad), 'batch-metric',
                lambda: f'{name} of scenario {k} at step {i}: {vb} in the batch, {vo} alone')
    ctx.check(rb[1].shape == tuple(c['batch']) + ro[1].shape, 'batch-reward-shape', f'{rb[1].shape} {ro[1].shape}')
    if not unsure:
      ctx.check(bool(np.all(ep.close(rb[1][ix], ro[1], atol=5e-3, rtol=1e-4))), 'batch-reward',
                lambda: f'reward of scenario {k} at step {i}: {rb[1][ix]} in the batch, {ro[1]} alone')
    ob, oo = jax.tree_util.tree_leaves(rb[2]), jax.tree_util.tree_leaves(ro[2])
    ctx.check(len(ob) == len(oo), 'batch-observation', 'structure')
    fin = all(np.isfinite(fo['sim.' + q][:, t]).all() for q in ('x', 'y', 'yaw'))
    big = max(np.abs(fo['sim.x'][:, t]).max(), np.abs(fo['sim.y'][:, t]).max()) if fin else np.inf
    for a, b in zip(ob, oo):
      ctx.check(a.shape == tuple(c['batch']) + b.shape, 'batch-observation-shape', f'{a.shape} {b.shape}')
      if not fin or big > 3e3:
        continue
      if b.dtype.kind == 'f':
        ok = np.mean(ep.close(a[ix], b, atol=2e-2, rtol=1e-4))
      else:
        ok = np.mean(a[ix] == b)
      # two map points at nearly the same distance may swap places
      ctx.check(ok > .9 if b.size > 20 else ok == 1 or b.size in (6, 9), 'batch-observation',
                lambda: f'observation of scenario {k} at step {i} differs: {a[ix].reshape(-1)[:6]} alone {b.reshape(-1)[:6]}')

  def nontrivial(self, plan, ctx):
    return ctx.sim_steps > 0


PROP = P()
