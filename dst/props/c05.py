"""C05: controlled objects follow the documented motion model."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', init=2, batch=[2], n=5),
    ep.cls(dyn='dlocal', ctrl='VALID', init=3),
    ep.cls(dyn='dglobal', ctrl='VALID', init=2, batch=[2], n=5),
    ep.cls(dyn='state', ctrl='VALID', init=3, inject=False),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', init=3),
    ep.cls(dyn='disc_dlocal', ctrl='VALID', init=3, n=5),
    ep.cls(env='planning', dyn='dlocal', init=3, n=5),
    ep.cls(dyn='bicycle_tight', ctrl='MODELED', init=1, n=5, inject=False),
    ep.cls(env='planning', dyn='bicycle', init=3, n=4, batch=[2]),
    ep.cls(dyn='disc_norm', ctrl='VALID', init=3, n=4),
    ep.cls(dyn='disc_dglobal', ctrl='SDC', init=3, n=4),
    ep.cls(env='planning', dyn='disc_bicycle', init=3, n=4),
    ep.cls(dyn='state', ctrl='MODELED', init=3, n=4, batch=[2, 1], t=10),
    ep.cls(dyn='own_bicycle', ctrl='VALID', init=3, n=4),
    ep.cls(dyn='own_norm', ctrl='VALID', init=2, n=4),
    ep.cls(dyn='own_dlocal', ctrl='VALID', init=3, n=4),
    ep.cls(dyn='own_dglobal', ctrl='MODELED', init=2, n=4),
    ep.cls(env='planning', dyn='own_bicycle', init=3, n=3),
    ep.cls(dyn='disc_own_dlocal', ctrl='VALID', init=3, n=4),
]


class P(core.Prop):
  id = 'C05'
  rule = ('a run is one episode with commands inside, at and outside the bounds through a faulty '
          'channel, compared step by step and over the chain with a float64 reference; non-trivial '
          'if a present controlled object moved')
  real = ep.REAL
  stub = ep.STUB
  assumptions = ['float32 rounding allowed for: 5e-4 plus 4e-6 of the magnitude per step']

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, n=12, t=60, init=5) for c in CLASSES]
    return out

  def runs(self, tier):
    return 200 if tier == 'quick' else 2400

  def gen(self, rng, c, tier):
    return {'scn': ep.gen_scn(rng, c), 'ops': ep.gen_ops(rng, c, rng.randint(3, c['t'] - c['init']))}

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    chain = None
    for r in ep.drive(sim, plan, ctx):
      t = r.t
      cur = ep.current(r.before)
      nxt = ep.current(r.after, at=t + 1)
      m = r.ctrl & cur['valid']
      ctx.probe('controlled_present', int(m.sum()))
      data = r.data
      if c['env'] == 'planning':
        data = np.repeat(data[..., None, :], c['n'], axis=-2)
      self.compare(ctx, c, 'motion-model', t, cur, nxt, m, ep.ref_motion(c['dyn'], cur, data), 1)
      if c['env'] != 'planning' and plan['ops'][r.i]['s'] % 3 == 0:
        self.fallback(ctx, c, sim, r, cur, nxt, m)
      # chained reference over the whole episode for objects never disturbed
      # into non-finite motion
      if chain is None:
        chain = {k: np.asarray(v, np.float64) for k, v in cur.items() if k != 'valid'}
        alive = m.copy()
      alive &= m
      with np.errstate(all='ignore'):
        ref = ep.ref_motion(c['dyn'], chain, data)
      alive &= np.all([np.isfinite(v) & (np.abs(v) < 1e4) for v in ref], axis=0)
      alive &= np.hypot(chain['vel_x'], chain['vel_y']) < 80
      self.compare(ctx, c, 'chained-path', t, cur, nxt, alive, ref, r.i + 1, scale=1e3)
      for k, v in zip(ep.DYN5, ref):
        chain[k] = np.where(alive, v, np.asarray(nxt[k], np.float64))

  def fallback(self, ctx, c, sim, r, cur, nxt, m):
    """The same command applied with the constant-speed fallback."""
    import jax
    key = 'fallback' + str(id(sim))
    if key not in ctx.cache:
      from waymax import datatypes
      from waymax.dynamics import abstract_dynamics

      def go(s, a, ctrl):
        t = abstract_dynamics.apply_trajectory_update_to_state(
            sim.dyn.compute_update(a, s.current_sim_trajectory), s.sim_trajectory, s.log_trajectory, ctrl, s.timestep,
            allow_object_injection=c['inject'], use_fallback=True)
        return datatypes.dynamic_slice(t, s.timestep + 1, 1, axis=-1)
      ctx.cache[key] = jax.jit(go)
    got = ctx.cache[key](r.state, sim.action(r.data, r.valid), r.ctrl)
    ok = np.broadcast_to(r.valid[..., 0], m.shape)
    for f in ep.DYN5 + ('valid',):
      g = np.asarray(getattr(got, f))[..., 0]
      bad = ~(m & ~ok) & (m | ~r.ctrl) & ~(ep.close(g, nxt[f], scale=np.abs(np.nan_to_num(nxt[f], posinf=0., neginf=0.)), atol=5e-4, rtol=4e-6, angle=f == 'yaw')
                                          if f != 'valid' else g == nxt[f])
      ctx.check(not bad.any(), 'fallback', lambda f=f, g=g: f'{c["dyn"]}: {f} at {ep.where(bad)}: {g[bad][:3]} with the fallback, {nxt[f][bad][:3]} without')
    lost = m & ~ok
    ctx.probe('fallbacks', int(lost.sum()))
    with np.errstate(all='ignore'):
      far = {k: np.asarray(cur[k], np.float64) for k in ep.DYN5}
      lost &= np.hypot(far['vel_x'], far['vel_y']) < 1e4
      want = (far['x'] + .1 * far['vel_x'], far['y'] + .1 * far['vel_y'], np.arctan2(far['vel_y'], far['vel_x']), far['vel_x'], far['vel_y'])
      for f, w in zip(ep.DYN5, want):
        g = np.asarray(getattr(got, f))[..., 0]
        scale = np.abs(np.nan_to_num(far[f])) if f != 'yaw' else None
        bad = lost & ~ep.close(g, w, scale=scale, atol=5e-4, rtol=4e-6, angle=f == 'yaw')
        ctx.check(not bad.any(), 'fallback', lambda: f'{c["dyn"]}: {f} at {ep.where(bad)} without a usable command is {g[bad][:3]}, at constant speed {w[bad][:3]}')

  def compare(self, ctx, c, kind, t, cur, nxt, m, ref, steps, scale=None):
    d = ep.kind(c['dyn'])
    dt = ep.step_of(c['dyn'])
    for f, want in zip(ep.DYN5, ref):
      ang = f == 'yaw'
      big = np.maximum(np.abs(np.asarray(cur['x'], np.float64)), np.abs(np.asarray(cur['y'], np.float64)))
      with np.errstate(all='ignore'):
        sc = np.abs(np.asarray(cur['yaw'], np.float64)) if ang else (big if f in 'xy' else np.hypot(
            np.asarray(cur['vel_x'], np.float64), np.asarray(cur['vel_y'], np.float64)))
        sc = np.where(np.isfinite(sc), sc, 0)
      # rounding of a large turn shows in the direction of the new velocity
      turn = .3 * (dt * np.hypot(np.asarray(cur['vel_x'], np.float64), np.asarray(cur['vel_y'], np.float64)) + .03)
      turn = np.where(np.isfinite(turn), turn, 0)
      if d == 'bicycle' and not f in 'xy':
        sc = sc + turn if ang else sc * (1 + turn)
      # chained errors: yaw errors turn into position errors over the path
      atol = 5e-4 if steps == 1 else 5e-4 + 1e-3 * steps
      if d in ('dlocal', 'dglobal') and f.startswith('vel'):
        atol *= max(10, 1 / dt)
      bad = m & ~ep.close(nxt[f], want, scale=sc, atol=atol, rtol=4e-6, angle=ang)
      ctx.check(not bad.any(), kind,
                lambda f=f, want=want: f'{c["dyn"]}: {f} at step {t+1} is '
                f'{np.asarray(nxt[f])[bad][:3]}, reference {np.asarray(want)[bad][:3]} for {ep.where(bad)}')
      if ang and d == 'bicycle':
        out = m & np.isfinite(nxt[f]) & (np.abs(nxt[f]) > np.pi + 1e-5)
        ctx.check(not out.any(), 'heading-not-wrapped', lambda: f'{nxt["yaw"][out][:3]}')

  def nontrivial(self, plan, ctx):
    return ctx.probes['controlled_present'] > 0


PROP = P()
