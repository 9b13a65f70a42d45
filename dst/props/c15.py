"""C15: basic actors command what their policy says; merging keeps ownership."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

S = dict(env='base', p=12, npath=1, ppath=4, metrics=[], rewards={'overlap': -1.}, ctrl='VALID')
CLASSES = [
    ep.cls(dyn='bicycle', n=6, t=16, init=3, acts=[['const', None], ['const', 7.], ['expert']], **S),
    ep.cls(dyn='state', n=6, t=14, init=2, acts=[['expert'], ['const', None]], **S),
    ep.cls(dyn='dglobal', n=5, t=14, init=3, batch=[2], acts=[['const', 3.], ['expert'], ['const', 12.], ['const', None]], **S),
    ep.cls(dyn='dlocal', n=6, t=14, init=1, acts=[['const', 0.], ['const', None], ['expert']], **S),
    ep.cls(dyn='bicycle_norm', n=5, t=16, init=3, acts=[['const', 15.], ['expert'], ['const', None]], inject=False, **S),
    ep.cls(dyn='bicycle', n=4, t=18, init=3, batch=[2, 1], acts=[['const', 4.]], **S),
    ep.cls(dyn='state', n=6, t=14, init=3, acts=[['frozen'], ['const', 5.], ['expert']], **S),
    ep.cls(dyn='disc_bicycle', n=4, t=9, init=3, acts=[['expert'], ['const', 5.]], **S),
]


class P(core.Prop):
  id = 'C15'
  rule = ('a run is one episode driven by several actors with disjoint objects whose outputs are merged, with steps '
          'hijacked by foreign commands in between; every owned object is compared with its actor\'s policy; '
          'non-trivial if an owned object was judged')
  real = ep.REAL + ['waymax.agents (constant speed, expert, merge_actions)']
  stub = ep.STUB
  assumptions = ['present objects with a valid command are judged',
                 'the bicycle model reaches a requested speed only as fast as its acceleration bound']
  class_cost = 3

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 5, t=60) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 224 if tier == 'quick' else 2400

  def gen(self, rng, c, tier):
    ops = []
    rate = rng.choice([0, 0, .1, .3])
    for _ in range(c['t'] - c['init']):
      ops.append({'hijack': rng.random() < rate, 's': rng.randrange(2**31), 'm': rng.choice(['in', 'small']), 'faults': []})
    return {'scn': ep.gen_scn(rng, c), 'ops': ops, 'orders': rng.randrange(2**31)}

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      import jax
      from waymax import agents
      from waymax.agents import constant_speed
      sim = ep.Sim(c)
      k = len(c['acts'])
      sims = []
      for i, a in enumerate(c['acts']):
        mine = lambda s, i=i: (s.object_metadata.ids // 3) % (k + 1) == i
        if a[0] == 'const':
          ac = constant_speed.create_constant_speed_actor(sim.dyn, mine, speed=a[1])
        elif a[0] == 'frozen':
          ac = agents.FrozenSimPolicy(is_controlled_func=mine)
        else:
          ac = agents.create_expert_actor(sim.dyn, is_controlled_func=mine)
        sims.append(jax.jit(lambda s, ac=ac: ac.select_action({}, s, None, None)))
      sim.actors = sims
      ctx.cache[key] = sim
    return ctx.cache[key]

  def execute(self, plan, ctx):
    from waymax import agents
    from waymax.agents import actor_core
    merge = actor_core.merge_actions
    c = plan['cls']
    sim = self.world(ctx, c)
    k = len(c['acts'])
    r = np.random.RandomState(plan['orders'])
    s, fl = ep.start(sim, plan, ctx)
    owner = (fl['meta.ids'] // 3) % (k + 1)
    for op in plan['ops'][:c['t'] - c['init']]:
      t = int(np.asarray(fl['timestep']).reshape(-1)[0])
      outs = [a(s) for a in sim.actors]
      cur, log = ep.current(fl), ep.current(fl, 'log', at=t + 1)
      for i, o in enumerate(outs):
        ctx.check(np.array_equal(np.asarray(o.is_controlled), owner == i), 'claims', lambda: f'actor {i} claims {np.asarray(o.is_controlled)}')
        v = np.asarray(o.action.valid)[..., 0]
        if c['acts'][i][0] == 'const':
          wv = (owner == i) & cur['valid']
          m = owner == i
        elif c['acts'][i][0] == 'frozen':
          wv = cur['valid']
          m = owner == i
        else:
          wv = log['valid'] if c['dyn'] == 'state' else cur['valid'] & log['valid']
          m = owner == i
        ctx.check(np.array_equal(v[m], wv[m]), 'command-valid', lambda: f'actor {i} at step {t}: {v} expected {wv}')
      base = merge(outs)
      order = r.permutation(k)
      again = merge([outs[i] for i in order])
      bd, bv = np.asarray(base.data), np.asarray(base.valid)
      for i, o in enumerate(outs):
        m = owner == i
        for got, name in ((base, 'merge'), (again, 'merge-order')):
          ctx.check(ep.same(np.asarray(got.data)[m], np.asarray(o.action.data)[m]) and
                    ep.same(np.asarray(got.valid)[m], np.asarray(o.action.valid)[m]), name,
                    lambda: f'step {t} order {order}: an object of actor {i} did not get its command')
      ctx.check(bd.shape == sim.action_shape() and bv.shape == sim.action_shape()[:-1] + (1,), 'merge-shape', f'{bd.shape} {bv.shape}')
      if op['hijack']:
        d, v = ep.nominal(sim, op, fl)
        ctx.fault('hijacked_step')
        s2 = sim.step(s, sim.action(d, v))
      else:
        s2 = sim.step(s, base)
      f2 = scenario.flat(s2)
      ctx.step(sim.lanes())
      ctx.event('step', f2['sim.x'][..., t + 1])
      ctx.state(t, tuple(owner.reshape(-1)[:6]), tuple(cur['valid'].reshape(-1)[:6]), op['hijack'])
      if not op['hijack'] and not c['dyn'].startswith('disc'):
        self.judge(ctx, c, fl, f2, cur, log, ep.current(f2, at=t + 1), owner, bv[..., 0], t)
      s, fl = s2, f2

  def judge(self, ctx, c, fl, f2, cur, log, nxt, owner, valid, t):
    ctrl = ep.control_mask(c, fl)
    a = {f: np.asarray(cur[f], float) for f in ep.DYN5}
    fin = np.all([np.isfinite(a[f]) for f in ep.DYN5], 0)
    mag = np.nan_to_num(np.abs(a['x']) + np.abs(a['y']))
    sp = np.hypot(a['vel_x'], a['vel_y'])
    bike = c['dyn'].startswith('bicycle')
    for i, act in enumerate(c['acts']):
      m = (owner == i) & ctrl & cur['valid'] & valid & fin
      if act[0] == 'frozen':
        ctx.probe('frozen_judged', int(m.sum()))
        for f in ep.DYN5:
          ctx.check(ep.same(nxt[f][m], cur[f][m]), 'frozen-moved', lambda f=f: f'step {t}: {f} {cur[f][m][:3]} became {nxt[f][m][:3]}')
        continue
      if act[0] == 'expert':
        if bike:
          continue  # decided by C06
        ok = m
        d = np.hypot(log['x'].astype(float) - a['x'], log['y'].astype(float) - a['y'])
        if c['dyn'] != 'state':
          ok = ok & (np.abs(log['x'] - a['x']) < 5.9) & (np.abs(log['y'] - a['y']) < 5.9) & (d < 5.9)
        ctx.probe('expert_judged', int(ok.sum()))
        for f in ('x', 'y', 'yaw'):
          bad = ok & ~ep.close(nxt[f], log[f], scale=mag if f != 'yaw' else None, atol=2e-3, rtol=4e-6, angle=f == 'yaw')
          ctx.check(not bad.any(), 'expert-' + f, lambda: f'step {t}: {nxt[f][bad][:3]} logged {log[f][bad][:3]}')
        continue
      req = act[1]
      aligned = np.abs(a['vel_x'] * np.sin(a['yaw']) - a['vel_y'] * np.cos(a['yaw'])) < 1e-3 * (1 + sp)
      aligned &= a['vel_x'] * np.cos(a['yaw']) + a['vel_y'] * np.sin(a['yaw']) > -1e-6
      if req is None:
        vx, vy = a['vel_x'], a['vel_y']
      else:
        vx, vy = req * np.cos(a['yaw']), req * np.sin(a['yaw'])
      ok = m & (np.hypot(vx, vy) < 59)
      if bike:
        ok = ok & aligned & (sp < 60)
        # below 0.6 m/s headings are taken from the pose, above from the velocity
        want = sp + np.clip((sp if req is None else req) - sp, -.6, .6)
        gs = np.hypot(nxt['vel_x'].astype(float), nxt['vel_y'].astype(float))
        ctx.probe('constant_judged', int(ok.sum()))
        bad = ok & ~ep.close(gs, np.abs(want), scale=np.abs(want) + 1, atol=3e-3, rtol=1e-4)
        ctx.check(not bad.any(), 'constant-speed', lambda: f'step {t} actor {act}: speed {gs[bad][:3]} from {sp[bad][:3]}, expected {want[bad][:3]}')
        bad = ok & ~ep.close(nxt['yaw'], a['yaw'], atol=4e-3, angle=True)
        ctx.check(not bad.any(), 'constant-heading', lambda: f'step {t} actor {act}: {nxt["yaw"][bad][:3]} from {a["yaw"][bad][:3]} at speed {sp[bad][:3]}')
        dx, dy = nxt['x'] - a['x'], nxt['y'] - a['y']
        go = sp * .1 + .5 * (want - sp) * .1
        lat = -dx * np.sin(a['yaw']) + dy * np.cos(a['yaw'])
        lon = dx * np.cos(a['yaw']) + dy * np.sin(a['yaw'])
        tol = 3e-3 + 4e-6 * mag + 2e-4 * sp
        bad = ok & ((np.abs(lat) > tol) | (np.abs(lon - go) > tol))
        ctx.check(not bad.any(), 'constant-position', lambda: f'step {t} actor {act}: moved {lon[bad][:3]} along, {lat[bad][:3]} aside, expected {go[bad][:3]}')
        continue
      ctx.probe('constant_judged', int(ok.sum()))
      want = {'x': a['x'] + vx * .1, 'y': a['y'] + vy * .1, 'yaw': a['yaw'], 'vel_x': vx, 'vel_y': vy}
      for f, w in want.items():
        sc = mag * (10 if f[0] == 'v' and c['dyn'] != 'state' else 1)
        bad = ok & ~ep.close(nxt[f], w, scale=sc + np.abs(w), atol=2e-3, rtol=4e-6, angle=f == 'yaw')
        ctx.check(not bad.any(), 'constant-' + f, lambda: f'step {t} actor {act}: {nxt[f][bad][:3]}, expected {w[bad][:3]}')

  def nontrivial(self, plan, ctx):
    return ctx.checks > 0 and ctx.sim_steps > 0


PROP = P()
