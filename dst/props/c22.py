"""C22: observations show exactly the recent past in the right frame."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

# o: all | sdc  (observation_from_state | sdc_observation_from_state); 0 and '' leave an argument out
CLASSES = []
for kw, obs in [
    (dict(dyn='bicycle', ctrl='VALID', n=5), [('all', 3, 12, 'OBJECT'), ('all', 1, 40, 'SDC')]),
    (dict(dyn='dlocal', ctrl='SDC', n=4, batch=[3], t=11), [('all', 4, 7, 'SDC'), ('sdc', 2, 9, 'SDC')]),
    (dict(dyn='state', ctrl='MODELED', n=4, batch=[2, 2], t=9, init=2), [('sdc', 5, 11, 'OBJECT'), ('all', 2, 5, 'GLOBAL')]),
    (dict(dyn='dglobal', ctrl='VALID', n=3, t=10, init=1), [('sdc', 10, 40, 'GLOBAL'), ('all', 11, 1, 'OBJECT')]),
    (dict(env='planning', dyn='bicycle', n=5, init=4), [('sdc', 6, 20, 'SDC'), ('all', 2, 39, 'OBJECT')]),
    (dict(env='planning', dyn='dglobal', n=4, batch=[2], t=9), [('sdc', 1, 3, 'OBJECT'), ('all', 9, 40, 'SDC')]),
    (dict(dyn='bicycle', ctrl='SDC', n=6, t=14, inject=False), [('all', 2, 30, 'GLOBAL'), ('sdc', 3, 2, 'GLOBAL')]),
    (dict(dyn='bicycle', ctrl='VALID', n=3, t=9, p=1040), [('all', 0, 0, ''), ('sdc', 0, 0, '')]),
    (dict(dyn='state', ctrl='VALID', n=1, t=8), [('all', 2, 10, 'OBJECT'), ('sdc', 2, 10, 'SDC')]),
]:
  CLASSES.append(dict(ep.cls(**kw), obs=obs))


class P(core.Prop):
  id = 'C22'
  rule = ('a run is one episode of the real environment under a faulty action channel; at every step observations '
          'are compared with a float64 reconstruction from the state; non-trivial if a valid view was judged')
  real = ep.REAL + ['waymax.datatypes.observation', 'waymax.datatypes.roadgraph', 'waymax.utils.geometry']
  stub = ep.STUB
  assumptions = [
      'values of entries marked invalid are not judged; observers at non-finite poses are not judged',
      'map points at the same distance (up to rounding) may replace each other; their order is not judged',
      'in the global frame every view is valid (the frame has no pose to be absent)',
      'routes are delivered in global coordinates, as the code documents no frame for them']

  def classes(self, tier):
    return CLASSES + ([dict(c, n=9, t=30, p=120) for c in CLASSES if not c['batch']] if tier == 'thorough' else [])

  def runs(self, tier):
    return 160 if tier == 'quick' else 2400

  def gen(self, rng, c, tier):
    scn = ep.gen_scn(rng, c)
    for s in scn:
      s['offset'] = rng.choice((0., 0., 300., -2500.))
      s['sdc_dropout'] = rng.random() < .4
    return {'scn': scn, 'ops': ep.gen_ops(rng, c, rng.randint(2, c['t'] - c['init'])), 'salt': rng.randrange(2**31)}

  def fns(self, ctx, c):
    key = 'fns:' + json.dumps([c['obs'], c['jit']])
    if key not in ctx.cache:
      import functools
      import jax
      from waymax import config
      from waymax import datatypes as d
      from waymax.datatypes import observation as o
      out = []
      for which, w, k, frame in c['obs']:
        f = d.observation_from_state if which == 'all' else d.sdc_observation_from_state
        kw = dict(obs_num_steps=w, roadgraph_top_k=k) if w else {}
        if frame:
          kw['coordinate_frame'] = config.CoordinateFrame[frame]
        out.append(jax.jit(functools.partial(f, **kw)))
      ctx.cache[key] = out
      ctx.cache['chain'] = jax.jit(o.transform_observation)
    return ctx.cache[key]

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    fns = self.fns(ctx, c)
    r = np.random.RandomState(plan['salt'])
    first = True
    for st in ep.drive(sim, plan, ctx):
      if first:
        self.look(ctx, c, fns, st.state, st.before, st.t, r)
        first = False
      if st.t + 1 < c['t']:
        self.look(ctx, c, fns, st.next_state, st.after, st.t + 1, r)

  def look(self, ctx, c, fns, state, fl, t, r):
    batch = tuple(c['batch'])
    seen = []
    for f, (which, w, k, frame) in zip(fns, c['obs']):
      w, k, frame = w or 1, k or 1000, frame or ('GLOBAL' if which == 'all' else 'SDC')
      obs = f(state)
      fo = leaves(obs)
      ctx.event('obs', which, fo)
      nobs = c['n'] if which == 'all' else 1
      for i in scenario_indices(batch):
        self.judge(ctx, c, {k2: v[i] for k2, v in fo.items()}, {k2: v if k2 == 'timestep' else v[i] for k2, v in fl.items()},
                   t, which, w, k, frame, nobs, batch)
      # one observer's view
      j = int(r.randint(nobs))
      one = leaves(obs.for_obj(j))
      for name, v in one.items():
        want = np.take(fo[name], [j], axis=len(batch))
        ctx.check(ep.same(v, want), 'for_obj', lambda: f'{name}: view of observer {j} differs from its part of the '
                  f'joint observation: {v.shape} {want.shape}')
      ctx.check(ep.same(np.asarray(obs.valid), fo['pose2d.valid']), 'obs-valid', '')
      # nothing later can be seen
      if r.rand() < .5:
        later = scramble(fl, t, r)
        fo2 = leaves(f(restate(state, later)))
        ctx.fault('future_scrambled')
        for name in fo:
          ctx.check(ep.same(fo[name], fo2[name]), 'future-seen',
                    lambda: f'{which} {frame} step {t}: {name} changes when only steps after {t} change')
      seen.append((which, w, frame, obs))
    # chaining frames: from one frame to another equals going there directly
    if r.rand() < .5:
      for (wa, a_w, fa, a) in seen:
        for (wb, _, fb, b) in seen:
          if a is not b and wa == wb and fb != 'GLOBAL':
            got = leaves(ctx.cache['chain'](a, b.pose2d))
            ctx.probe('chained')
            for i in scenario_indices(batch):
              self.chained(ctx, {k2: v[i] for k2, v in got.items()}, {k2: v[i] for k2, v in leaves(a).items()},
                           {k2: v if k2 == 'timestep' else v[i] for k2, v in fl.items()}, t, wa, a_w, fa, fb)

  def pose(self, fl, t, which, frame, obs_i):
    """(origin xy, yaw, valid) of observer obs_i's frame, float64."""
    sdc = int(np.argmax(fl['meta.is_sdc']))
    if frame == 'GLOBAL':
      return np.zeros(2), 0., True
    o = sdc if frame == 'SDC' or which == 'sdc' else obs_i
    return (np.array([fl['sim.x'][o, t], fl['sim.y'][o, t]], np.float64), float(fl['sim.yaw'][o, t]),
            bool(fl['sim.valid'][o, t]))

  def chained(self, ctx, got, src, fl, t, which, w, fa, fb):
    for oi in range(got['is_ego'].shape[0]):
      xa, ya, va = self.pose(fl, t, which, fa, oi)
      xb, yb, vb = self.pose(fl, t, which, fb, oi)
      if not (np.isfinite(xa).all() and np.isfinite(xb).all() and np.isfinite([ya, yb]).all()):
        continue
      ctx.check(bool((got['trajectory.valid'][oi] == (src['trajectory.valid'][oi] & va & vb)).all()), 'chain-valid',
                lambda: f'step {t} observer {oi}')
      if not (va and vb):
        continue
      steps, ok = window(t, w)
      ss = np.where(ok, steps, 0)
      v = fl['sim.valid'][:, ss] & ok
      X, Y = to_frame(fl['sim.x'][:, ss], fl['sim.y'][:, ss], xb, yb)
      mag = np.abs(xa).max() + np.abs(xb).max() + np.abs(fl['sim.x'][:, ss]) + np.abs(fl['sim.y'][:, ss])
      bad = v & ~(ep.close(got['trajectory.x'][oi], X, scale=mag, atol=1e-2, rtol=1e-5) &
                  ep.close(got['trajectory.y'][oi], Y, scale=mag, atol=1e-2, rtol=1e-5))
      bad &= np.isfinite(X) & np.isfinite(Y)
      ctx.check(not bad.any(), 'chain-position', lambda: f'step {t} observer {oi} {fa}->{fb} object {ep.where(bad)}')

  def judge(self, ctx, c, fo, fl, t, which, w, k, frame, nobs, batch):
    n = c['n']
    sdc = int(np.argmax(fl['meta.is_sdc']))
    steps, inlog = window(t, w)
    ss = np.where(inlog, steps, 0)
    say = lambda what: (lambda: f'{which} {frame} window {w} step {t}: {what}')
    shape = fo['trajectory.x'].shape
    ctx.check(shape == (nobs, n, w), 'shape', say(f'trajectory {shape}'))
    ctx.check(fo['traffic_lights.state'].shape == (nobs, c['tl'], w), 'shape', say('traffic lights'))
    ctx.check(fo['roadgraph_static_points.x'].shape == (nobs, k), 'shape', say('map points'))
    for oi in range(nobs):
      me = oi if which == 'all' else sdc
      org, yaw, pv = self.pose(fl, t, which, frame, oi)
      s = say(f'observer {me}')
      ego = fo['is_ego'][oi]
      ctx.check(bool((ego == (np.arange(n) == me)).all()), 'is_ego', lambda: s() + f': {ego}')
      for m in scenario.META:
        ctx.check(ep.same(fo['metadata.' + m][oi], fl['meta.' + m]), 'metadata', lambda: s() + ' ' + m)
      ctx.check(bool(fo['pose2d.valid'][oi]) == pv, 'view-valid', lambda: s() + f' pose valid {fo["pose2d.valid"][oi]}, is present {pv}')
      # validity and frame-independent fields
      v = fl['sim.valid'][:, ss] & inlog
      gv = fo['trajectory.valid'][oi]
      ctx.check(bool((gv == (v & pv)).all()), 'valid', lambda: s() + f' differs at {ep.where(gv != (v & pv))}')
      for name in ('z', 'length', 'width', 'height', 'timestamp_micros'):
        a, b = fo['trajectory.' + name][oi], fl['sim.' + name][:, ss]
        bad = v & ~((a == b) | ((a != a) & (b != b)))
        ctx.check(not bad.any(), 'state-' + name, lambda: s() + f' {ep.where(bad)}')
      tv = fl['tl.valid'][:, ss] & inlog
      gtv = fo['traffic_lights.valid'][oi]
      ctx.check(bool((gtv == (tv & pv)).all()), 'light-valid', lambda: s() + f' {ep.where(gtv != (tv & pv))}')
      for name in ('z', 'state', 'lane_ids'):
        bad = tv & (fo['traffic_lights.' + name][oi] != fl['tl.' + name][:, ss])
        ctx.check(not bad.any(), 'light-' + name, lambda: s() + f' {ep.where(bad)}')
      if not pv:
        ctx.check(not fo['roadgraph_static_points.valid'][oi].any(), 'absent-map', s)
        ctx.probe('absent_views')
        continue
      if not (np.isfinite(org).all() and np.isfinite(yaw)):
        ctx.probe('non_finite_pose')
        continue
      ctx.probe('views')
      exact = frame == 'GLOBAL'
      big = np.abs(org).max()

      def cmp(kind, mask, got, want, mag, angle=False):
        fin = np.isfinite(want)
        if exact and not angle:
          bad = mask & fin & (np.asarray(got, np.float64) != want)
        else:
          bad = mask & fin & ~ep.close(got, want, scale=mag, atol=2e-3, rtol=4e-6, angle=angle)
        ctx.check(not bad.any(), kind, lambda: s() + f' {ep.where(bad)}: '
                  f'{np.asarray(got)[bad][:4]} expected {np.asarray(want)[bad][:4]}')
      with np.errstate(all='ignore'):
        x, y = fl['sim.x'][:, ss].astype(np.float64), fl['sim.y'][:, ss].astype(np.float64)
        mag = np.abs(x) + np.abs(y) + big
        X, Y = to_frame(x, y, org, yaw)
        fin = v & np.isfinite(X) & np.isfinite(Y)
        cmp('position', fin, fo['trajectory.x'][oi], X, mag)
        cmp('position', fin, fo['trajectory.y'][oi], Y, mag)
        vx, vy = fl['sim.vel_x'][:, ss].astype(np.float64), fl['sim.vel_y'][:, ss].astype(np.float64)
        VX, VY = to_frame(vx, vy, np.zeros(2), yaw)
        fin = v & np.isfinite(VX) & np.isfinite(VY)
        cmp('velocity', fin, fo['trajectory.vel_x'][oi], VX, np.abs(vx) + np.abs(vy))
        cmp('velocity', fin, fo['trajectory.vel_y'][oi], VY, np.abs(vx) + np.abs(vy))
        yy = fl['sim.yaw'][:, ss].astype(np.float64) - yaw
        cmp('heading', v, fo['trajectory.yaw'][oi], yy, np.abs(yy), angle=True)
        TX, TY = to_frame(fl['tl.x'][:, ss].astype(np.float64), fl['tl.y'][:, ss].astype(np.float64), org, yaw)
        lm = np.abs(fl['tl.x'][:, ss]) + np.abs(fl['tl.y'][:, ss]) + big
        cmp('light-position', tv, fo['traffic_lights.x'][oi], TX, lm)
        cmp('light-position', tv, fo['traffic_lights.y'][oi], TY, lm)
      self.map_points(ctx, c, fo, fl, t, k, oi, me, org, yaw, s, cmp, big)
      if frame != 'GLOBAL':
        ctx.check(bool(np.all(ep.close(fo['pose2d.original_xy'][oi], org, scale=big))) and
                  bool(ep.close(fo['pose2d.original_yaw'][oi], yaw, angle=True)), 'pose', s)
      if which == 'sdc':
        for name in scenario.PATHF:
          ctx.check(ep.same(fo['sdc_paths.' + name][oi], fl['path.' + name]), 'routes', lambda: s() + ' ' + name)

  def map_points(self, ctx, c, fo, fl, t, k, oi, me, org, yaw, s, cmp, big):
    """The k nearest valid points to the observer's own position."""
    pos = np.array([fl['sim.x'][me, t], fl['sim.y'][me, t]], np.float64)
    key = fl['rg.dir_z']
    if len(set(key.tolist())) != len(key):
      raise core.HarnessError('map point keys are not unique')
    idx_of = {float(z): i for i, z in enumerate(key)}
    g = {name: fo['roadgraph_static_points.' + name][oi] for name in scenario.RGF}
    src = [idx_of.get(float(z), -1) for z in g['dir_z']]
    ctx.check(min(src) >= 0, 'map-fabricated', s)
    src = np.array(src)
    ctx.check(len(set(src.tolist())) == len(src), 'map-duplicate', lambda: s() + f' {src}')
    for name in ('z', 'types', 'ids', 'valid'):
      ctx.check(ep.same(g[name], fl['rg.' + name][src]), 'map-' + name, lambda: s() + f' {g[name]} {fl["rg." + name][src]}')
    v = fl['rg.valid'][src]
    placed = bool(np.isfinite(pos).all() and np.abs(pos).max() < 1e12)
    ctx.check(not placed or int(v.sum()) == min(k, int(fl['rg.valid'].sum())), 'map-count', lambda: s() + f' {v.sum()} valid points '
              f'of {fl["rg.valid"].sum()}, asked {k}')
    X, Y = to_frame(fl['rg.x'][src].astype(np.float64), fl['rg.y'][src].astype(np.float64), org, yaw)
    mag = np.abs(fl['rg.x'][src]) + np.abs(fl['rg.y'][src]) + big
    cmp('map-position', v, g['x'], X, mag)
    cmp('map-position', v, g['y'], Y, mag)
    DX, DY = to_frame(fl['rg.dir_x'][src].astype(np.float64), fl['rg.dir_y'][src].astype(np.float64), np.zeros(2), yaw)
    cmp('map-direction', v, g['dir_x'], DX, np.ones(len(src)))
    cmp('map-direction', v, g['dir_y'], DY, np.ones(len(src)))
    if placed and fl['sim.valid'][me, t]:
      d = np.hypot(fl['rg.x'].astype(np.float64) - pos[0], fl['rg.y'].astype(np.float64) - pos[1])
      rest = fl['rg.valid'].copy()
      rest[src] = False
      if rest.any() and v.any():
        far, near = d[src][v].max(), d[rest].min()
        ctx.check(far <= near + 1e-3 + 1e-5 * near, 'map-nearest', lambda: s() + f' shows a point at {far} m, leaves out one at {near} m')
        ctx.probe('topk_judged')

  def nontrivial(self, plan, ctx):
    return ctx.probes['views'] > 0


def window(t, w):
  s = np.arange(t - w + 1, t + 1)
  return s, s >= 0


def to_frame(x, y, org, yaw):
  dx, dy = x - org[0], y - org[1]
  c, s = np.cos(yaw), np.sin(yaw)
  return c * dx + s * dy, -s * dx + c * dy


def scenario_indices(batch):
  return list(np.ndindex(*batch)) if batch else [()]


def leaves(obs):
  out = {'is_ego': np.asarray(obs.is_ego)}
  for part, fields in (('trajectory', scenario.TRAJ), ('metadata', scenario.META), ('traffic_lights', scenario.TLF),
                       ('roadgraph_static_points', scenario.RGF), ('sdc_paths', scenario.PATHF),
                       ('pose2d', ('original_xy', 'original_yaw', 'matrix', 'delta_yaw', 'valid'))):
    o = getattr(obs, part)
    if o is None:
      continue
    for f in fields:
      out[f'{part}.{f}'] = np.asarray(getattr(o, f))
  return out


def scramble(fl, t, r):
  """Everything after step t replaced."""
  out = dict(fl)
  for k, v in fl.items():
    if k.split('.')[0] in ('sim', 'log', 'tl') and v.ndim and v.shape[-1] > t + 1:
      a = v.copy()
      tail = a[..., t + 1:]
      if a.dtype == bool:
        a[..., t + 1:] = r.rand(*tail.shape) < .5
      elif a.dtype.kind == 'i':
        a[..., t + 1:] = r.randint(-5, 999999, tail.shape)
      else:
        a[..., t + 1:] = np.where(r.rand(*tail.shape) < .2, np.nan, r.uniform(-1e3, 1e3, tail.shape))
      out[k] = a
  return out


def restate(state, fl):
  """The same state object type with other trajectories and lights."""
  import jax.numpy as jnp
  rep = lambda o, pre, fs: o.replace(**{f: jnp.asarray(fl[f'{pre}.{f}']) for f in fs})
  return state.replace(sim_trajectory=rep(state.sim_trajectory, 'sim', scenario.TRAJ),
                       log_trajectory=rep(state.log_trajectory, 'log', scenario.TRAJ),
                       log_traffic_light=rep(state.log_traffic_light, 'tl', scenario.TLF))


PROP = P()
