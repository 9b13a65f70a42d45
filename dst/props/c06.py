"""C06: replaying inferred expert actions reproduces the log and recovers."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

CLASSES = [
    ep.cls(dyn='state', ctrl='VALID', init=3, t=24, n=5),
    ep.cls(dyn='dglobal', ctrl='VALID', init=3, t=30, n=5),
    ep.cls(dyn='dlocal', ctrl='VALID', init=2, t=30, n=5),
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, t=24, n=5),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', init=3, t=24, n=4, batch=[2]),
    ep.cls(dyn='dlocal', ctrl='MODELED', init=3, t=20, n=4, batch=[2], inject=False),
    ep.cls(dyn='disc_dlocal', ctrl='VALID', init=3, t=14, n=4),
    ep.cls(dyn='discs_dlocal', ctrl='VALID', init=3, t=12, n=4, inject=False),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', init=3, t=14, n=4, batch=[2]),
    ep.cls(dyn='bicycle_tight', ctrl='VALID', init=3, t=24, n=5, inject=False),
    ep.cls(env='planning', dyn='state', init=3, t=20, n=4),
    ep.cls(env='planning', dyn='dglobal', init=3, t=24, n=4, batch=[2]),
    ep.cls(env='planning', dyn='bicycle', init=3, t=20, n=4),
    ep.cls(dyn='own_dlocal', ctrl='VALID', init=3, t=20, n=4),
    ep.cls(dyn='own_dglobal', ctrl='VALID', init=2, t=20, n=4),
    ep.cls(dyn='own_bicycle', ctrl='VALID', init=3, t=18, n=4),
    ep.cls(dyn='own_norm', ctrl='VALID', init=3, t=18, n=4),
    ep.cls(dyn='disc_own_dlocal', ctrl='VALID', init=3, t=14, n=4),
]


class P(core.Prop):
  id = 'C06'
  rule = ('a run replays inferred expert actions, disturbed by the channel during some windows and '
          'fault-free afterwards, so that reproduction and recovery can both be judged; non-trivial '
          'if a present controlled object was driven towards a logged pose')
  real = ep.REAL + ['waymax.agents.expert']
  stub = ep.STUB
  assumptions = ['logs generated from feasible bicycle motion', 'float32 rounding']
  list_keys = ('ops',)

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, n=10, t=60) for c in CLASSES if not c['dyn'].startswith('discs')]
    return out

  def runs(self, tier):
    return 170 if tier == 'quick' else 2000

  def gen(self, rng, c, tier):
    steps = c['t'] - c['init']
    ops = [{'s': rng.randrange(2**31), 'm': 'expert', 'faults': []} for _ in range(steps)]
    mode = rng.choice(['clean', 'window', 'window', 'sparse'])
    if mode != 'clean':
      a = rng.randint(0, steps // 2)
      b = min(steps, a + rng.choice([1, 2, 4]))
      idx = range(a, b) if mode == 'window' else [i for i in range(steps) if rng.random() < .15]
      kinds = [k for k in ('lost', 'lost_garbage', 'stale', 'corrupt') if rng.random() < .7] or ['lost']
      for i in idx:
        ops[i]['faults'] = [{'k': rng.choice(kinds), 's': rng.randrange(2**31),
                             'p': rng.choice((.4, 1.)), 'amp': rng.choice((2, 8, 15))}]
    return {'scn': ep.gen_scn(rng, c, garbage=rng.choice(['womd', 'near', 'finite']),
                              presence=rng.choice(['all', 'all', 'mix', 'flicker', 'late'])), 'ops': ops}

  def tools(self, ctx, c, sim):
    key = 'expert'
    if key not in ctx.cache:
      import jax
      import jax.numpy as jnp
      from waymax import agents
      from waymax.agents import expert as expert_lib
      dyn = sim.env.dynamics
      if c['env'] == 'planning':
        actor = agents.create_expert_actor(dynamics_model=dyn)
      else:
        actor = agents.create_expert_actor(
            dynamics_model=dyn, is_controlled_func=lambda s: jnp.ones(s.object_metadata.shape, bool))
      expert = jax.jit(lambda s: actor.select_action({}, s, None, None))
      cont = None
      if c['dyn'].startswith('disc'):
        base = make_base(c['dyn'])
        cont = jax.jit(lambda s: expert_lib.infer_expert_action(s, base))
      ctx.cache[key] = (expert, cont)
    return ctx.cache[key]

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    expert, cont = self.tools(ctx, c, sim)
    s, fl = ep.start(sim, plan, ctx)
    prev = None
    plainning = c['env'] == 'planning'
    shape = fl['meta.is_sdc'].shape
    faithful = np.ones(shape, bool)   # expert-driven on logged steps ever since reset
    slow = np.zeros(shape, bool)      # drove through the low-speed filter
    owed = np.full(shape, -1.)        # steps left to be back on the log
    for i, op in enumerate(plan['ops'][:c['t'] - c['init']]):
      out = expert(s)
      d0, v0 = np.asarray(out.action.data), np.asarray(out.action.valid)
      t = int(fl['timestep'])
      cur, log = ep.current(fl), ep.current(fl, 'log', at=t + 1)
      ctrl = ep.control_mask(c, fl)
      ctx.check(d0.shape == sim.action_shape() and v0.shape == sim.action_shape()[:-1] + (1,),
                'inferred-shape', lambda: f'{d0.shape} {v0.shape}')
      both = log['valid'] if c['dyn'] == 'state' else cur['valid'] & log['valid']
      wantv = self.sdc(c, both, fl)
      ctx.check(np.array_equal(v0[..., 0], wantv), 'inferred-validity',
                lambda: f'inferred actions valid {v0[..., 0]}, expected {wantv} at step {t}')
      self.in_bounds(ctx, c, d0, v0)
      if cont is not None:
        self.discrete(ctx, c, sim, cont, s, d0, v0, fl, cur, log)
      data, valid = self.channel(sim, op, d0, v0, prev, ctx, c)
      disturbed = ~(np.all(data == d0, -1) & np.all(valid == v0, -1))
      if plainning:
        disturbed = np.broadcast_to(disturbed[..., None], shape)
      s2 = sim.step(s, sim.action(data, valid))
      fl2 = scenario.flat(s2)
      nxt = ep.current(fl2, at=t + 1)
      ctx.event('step', nxt, d0, v0)
      ctx.step(sim.lanes())
      ctx.state(i, op['faults'] and op['faults'][0]['k'], tuple(both.reshape(-1)[:6]))
      # -- judge objects driven by an undisturbed inferred action
      m = ctrl & cur['valid'] & both & ~disturbed
      ctx.probe('expert_driven', int(m.sum()))
      faithful &= ~disturbed & both | ~ctrl
      sp0 = np.hypot(cur['vel_x'].astype(float), cur['vel_y'].astype(float))
      sp1 = np.hypot(log['vel_x'].astype(float), log['vel_y'].astype(float))
      slow |= (sp0 < .7) | (sp1 < .7)
      self.judge(ctx, c, i, t, cur, log, nxt, m, faithful & m, slow, owed, disturbed | ~both | ~ctrl)
      ctx.probe('recovering', int((m & ~faithful).sum()))
      s, fl, prev = s2, fl2, (data, valid)

  def sdc(self, c, a, fl):
    if c['env'] != 'planning':
      return a
    return np.take_along_axis(a, np.argmax(fl['meta.is_sdc'], -1)[..., None], -1)[..., 0]

  def channel(self, sim, op, d0, v0, prev, ctx, c):
    data, valid = d0.copy(), v0.copy()
    for f in op['faults']:
      r = np.random.RandomState(f['s'])
      m = np.array(r.uniform(size=valid.shape[:-1]) < f['p'], bool)
      if not m.any():
        continue
      if f['k'] in ('lost', 'lost_garbage'):
        data[m] = 0 if f['k'] == 'lost' else self.junk(r, sim, c, data[m], f['amp'])
        valid[m] = False
        if c['dyn'] == 'state':  # a lost pose: keep something sane in the slot
          data[m] = d0[m] + r.uniform(-1, 1, d0[m].shape) * f['amp']
      elif f['k'] == 'stale':
        if prev is None:
          continue
        data[m], valid[m] = prev[0][m], prev[1][m]
      else:
        data[m] = self.junk(r, sim, c, data[m], f['amp'])
      ctx.fault('action_' + f['k'], int(m.sum()))
    return data, valid

  def junk(self, r, sim, c, d, amp):
    if c['dyn'].startswith('disc'):
      return ep._garbage(r, d, amp, sim)
    if c['dyn'] == 'state':
      return d + r.uniform(-1, 1, d.shape) * amp
    return r.uniform(-1, 1, d.shape) * amp

  def in_bounds(self, ctx, c, d, v):
    if c['dyn'] == 'state':
      return
    if c['dyn'].startswith('disc'):
      k = int(np.prod(np.array(ep.BINS[c['dyn']]) + 1))
      ctx.check(bool(np.all((d >= 0) & (d < k))), 'inferred-out-of-bounds', lambda: f'{d.min()} {d.max()} of {k}')
      return
    lo, hi = ep.bounds(c['dyn'])
    m = v[..., 0]
    x = d[m].astype(float)
    ctx.check(bool(np.all((x >= lo - 1e-5) & (x <= hi + 1e-5))), 'inferred-out-of-bounds',
              lambda: f'{x[np.any((x < lo - 1e-5) | (x > hi + 1e-5), -1)][:3]} outside {lo} {hi}')

  def discrete(self, ctx, c, sim, cont, s, d, v, fl, cur, log):
    lo, hi = ep.bounds(c['dyn'])
    bins = np.array(ep.BINS[c['dyn']])
    m = v[..., 0]
    if not m.any():
      return
    idx = d[..., 0].astype(int)
    vals = []
    for k in range(len(bins) - 1, -1, -1):
      vals.append(idx % (bins[k] + 1))
      idx = idx // (bins[k] + 1)
    got = np.stack(vals[::-1], -1) * (hi - lo) / bins + lo
    if not c['dyn'].startswith('discs'):
      want = np.asarray(cont(s).data, float)
      off = np.abs(got - want)[m] / ((hi - lo) / bins)
      ctx.check(bool(np.all(off <= .5 + 1e-3)), 'inferred-bin',
                lambda: f'inferred bin {off.max()} bins from the continuous inferred command')
      return
    # search: no other bin brings the box corners nearer to the logged ones
    import itertools
    allv = np.array(list(itertools.product(*[np.arange(b + 1) for b in bins]))) * (hi - lo) / bins + lo

    def corners(x, y, yaw):
      cc, ss = np.cos(yaw), np.sin(yaw)
      out = []
      for a, b in ((1, -1), (1, 1), (-1, 1), (-1, -1)):
        l, w = a * cur['length'] / 2, b * cur['width'] / 2
        out.append(np.stack([x + l * cc - w * ss, y + l * ss + w * cc], -1))
      return np.stack(out, -2)
    base = c['dyn'].split('_', 1)[1]
    target = corners(log['x'].astype(float), log['y'].astype(float), log['yaw'].astype(float))
    def cost(dd):
      p = ep.ref_motion(base, cur, dd)
      return np.sqrt(((corners(p[0], p[1], p[2]) - target) ** 2).sum((-1, -2)))
    best = np.min([cost(np.broadcast_to(a, got.shape)) for a in allv], axis=0)
    bad = m & (cost(got) > best + 2e-2)
    ctx.check(not bad.any(), 'inferred-not-best',
              lambda: f'cost {cost(got)[bad][:3]} of the chosen bin, best {best[bad][:3]} at {ep.where(bad)}')

  def judge(self, ctx, c, i, t, cur, log, nxt, m, faithful, slow, owed, reset_owed):
    dyn = c['dyn']
    f8 = lambda a: np.asarray(a, float)
    gx, gy = f8(nxt['x']) - f8(log['x']), f8(nxt['y']) - f8(log['y'])
    err = np.hypot(gx, gy)
    with np.errstate(invalid='ignore'):
      yerr = np.abs(ep.wrap(f8(nxt['yaw']) - f8(log['yaw'])))
    big = 4e-7 * np.maximum(np.abs(f8(log['x'])), np.abs(f8(log['y'])))
    if dyn == 'state':
      for k in ep.DYN5:
        bad = m & ~ep.close(nxt[k], log[k], atol=1e-4)
        ctx.check(not bad.any(), 'expert-replay',
                  lambda k=k: f'{k} {nxt[k][bad][:3]} instead of logged {log[k][bad][:3]} at step {t+1}')
    elif dyn in ep.OWN and ep.kind(dyn) != 'bicycle':
      self.shift(ctx, dyn, t, cur, log, m, gx, gy, yerr, big)
    elif dyn in ('dlocal', 'dglobal'):
      dx, dy = f8(log['x']) - f8(cur['x']), f8(log['y']) - f8(cur['y'])
      self.shift(ctx, dyn, t, cur, log, m, gx, gy, yerr, big)
      # bounded liveness: once the channel is clean the gap is gone in time
      owed[:] = np.where(reset_owed, -1, owed)
      fresh = m & (owed < 0)
      owed[:] = np.where(fresh, np.ceil(np.hypot(dx, dy) / 1.9) + 2, owed)
      late = m & (owed == 0) & (err > 1e-2 + 4 * big)
      ctx.check(not late.any(), 'recovery-too-slow', lambda: f'still {err[late][:3]} m off')
      owed[:] = np.where(m & (owed > 0), owed - 1, owed)
    elif ep.kind(dyn) == 'bicycle' and not dyn.startswith('disc'):
      lo, hi = ep.bounds('bicycle' if dyn == 'bicycle_norm' else dyn)
      dt = ep.step_of(dyn)
      if dyn in ep.OWN:
        hi = np.array([ep.OWN[dyn]['max_accel'], ep.OWN[dyn]['max_steering']])
        lo = -hi
      s0 = np.hypot(f8(cur['vel_x']), f8(cur['vel_y']))
      s1 = np.hypot(f8(log['vel_x']), f8(log['vel_y']))
      a = np.clip((s1 - s0) / dt, lo[0], hi[0])
      want = s0 + a * dt
      got = np.hypot(f8(nxt['vel_x']), f8(nxt['vel_y']))
      bad = m & (np.abs(got - np.abs(want)) > 2e-3 + 1e-5 * s0)
      ctx.check(not bad.any(), 'recovery-speed', lambda:
                f'speed {s0[bad][:3]} -> {got[bad][:3]}, log {s1[bad][:3]}, expected {want[bad][:3]}')
      ltheta = np.arctan2(f8(log['vel_y']), f8(log['vel_x']))
      dist = s0 * dt + .5 * (s1 - s0) / dt * dt**2
      need = ep.wrap(ltheta - f8(cur['yaw'])) / np.maximum(dist, 1e-9)
      ok = m & (s0 > .61) & (s1 > .61) & (np.abs(need) < hi[1] * .999) & (dist > .05) & (np.abs((s1 - s0) / dt) < hi[0])
      ctx.probe('heading_reachable', int(ok.sum()))
      herr = np.abs(ep.wrap(f8(nxt['yaw']) - ltheta))
      bad = ok & (herr > 2e-3)
      ctx.check(not bad.any(), 'recovery-heading', lambda: f'heading off by {herr[bad][:3]}')
      if dyn != 'bicycle_tight' and dyn not in ep.OWN:
        tol = np.where(slow, .4, .02 + .004 * (i + 1)) + 8 * big * (i + 1)
        bad = faithful & (err > tol)
        ctx.check(not bad.any(), 'expert-replay', lambda:
                  f'{dyn}: drifted {err[bad][:3]} m from a feasible log after {i+1} steps, {ep.where(bad)}')
        ytol = np.where(slow, .15, .01)
        bad = faithful & (yerr > ytol)
        ctx.check(not bad.any(), 'expert-replay-heading', lambda: f'{yerr[bad][:3]} after {i+1} steps')

  def shift(self, ctx, dyn, t, cur, log, m, gx, gy, yerr, big):
    """Displacement models: what is left of the gap is exactly
    what the limits did not allow, in the frame the limits are meant in."""
    f8 = lambda a: np.asarray(a, float)
    _, hi = ep.bounds(dyn)
    a = f8(cur['yaw']) if ep.kind(dyn) == 'dlocal' else np.zeros(cur['yaw'].shape)
    with np.errstate(all='ignore'):
      to = lambda u, v: (np.cos(a) * u + np.sin(a) * v, np.cos(a) * v - np.sin(a) * u)
      gap = to(f8(log['x']) - f8(cur['x']), f8(log['y']) - f8(cur['y']))
      left = to(-gx, -gy)
      for k in range(2):
        want = np.sign(gap[k]) * np.maximum(np.abs(gap[k]) - hi[k], 0)
        bad = m & (np.abs(left[k] - want) > 2e-3 + 8 * big + 2e-6 * (np.abs(gap[0]) + np.abs(gap[1])))
        ctx.check(not bad.any(), 'recovery', lambda: f'{dyn}: gap {gap[k][bad][:3]} along axis {k} became '
                  f'{left[k][bad][:3]} at step {t+1}, {hi[k]} m per step are allowed')
      dyaw = np.abs(ep.wrap(f8(log['yaw']) - f8(cur['yaw'])))
      bad = m & (dyaw < np.pi - 1e-3) & (np.abs(yerr - np.maximum(dyaw - hi[2], 0)) > 1e-3)
      ctx.check(not bad.any(), 'recovery', lambda: f'{dyn}: heading gap {dyaw[bad][:3]} became {yerr[bad][:3]} '
                f'at step {t+1}, {hi[2]} rad per step are allowed')
      ctx.probe('own_limits', int((m & (np.maximum(np.abs(gap[0]) - hi[0], np.abs(gap[1]) - hi[1]) > 0)).sum()))

  def nontrivial(self, plan, ctx):
    return ctx.probes['expert_driven'] > 0


def make_base(dyn):
  base = dyn.split('_', 1)[1]
  return ep.make_dynamics('bicycle_norm' if base == 'norm' else base)


PROP = P()
