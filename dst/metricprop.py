"""Shared runner of C16-C19: metrics against a float64 reference along histories."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario


class MetricProp(core.Prop):
  names = ()
  window = (0,)        # sim timesteps (relative to now) the metrics may look at
  log_free = True      # whether nothing of the log may matter ('own' = step t only)
  scramble_other = True
  real = ep.REAL + ['waymax.metrics']
  stub = ep.STUB
  assumptions = ['cases within float32 rounding of a decision boundary are not judged']

  def gen(self, rng, c, tier):
    return {'scn': self.scenarios(rng, c), 'ops': ep.gen_ops(rng, c, rng.randint(2, c['t'] - c['init'])),
            'scramble': rng.randrange(2**31)}

  def scenarios(self, rng, c):
    return ep.gen_scn(rng, c)

  def params(self, name):
    return {}

  def compute(self, ctx, c, sim):
    """Metrics of a state as {name: (value, valid)}."""
    return lambda s: {k: (np.asarray(v.value), np.asarray(v.valid)) for k, v in sim.metrics(s).items()}

  def ref(self, c, name, fl, t):
    return rm.REF[name](fl, t)

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    compute = self.compute(ctx, c, sim)
    r = np.random.RandomState(plan['scramble'])
    first = True
    for st in ep.drive(sim, plan, ctx):
      if first:
        self.judge(ctx, c, compute(st.state), st.before, st.t, None)
        self.scramble(ctx, c, compute, st.state, st.before, st.t, r)
        first = False
      got = compute(st.next_state)
      self.judge(ctx, c, got, st.after, st.t + 1, st)
      if r.rand() < .35:
        self.scramble(ctx, c, compute, st.next_state, st.after, st.t + 1, r)
    if first:
      s, fl = ep.start(sim, plan, ctx)
      self.judge(ctx, c, compute(s), fl, int(fl['timestep']), None)

  def judge(self, ctx, c, got, fl, t, st):
    batch = tuple(c['batch'])
    ctx.check(set(got) == set(self.names), 'metric-names', f'{sorted(got)}')
    for name in self.names:
      value, valid = got[name]
      per_object = name in rm.OBJECT
      shape = batch + ((c['n'],) if per_object else ())
      ctx.check(value.shape == shape and valid.shape == shape and value.dtype == np.float32 and valid.dtype == bool,
                'metric-shape', f'{name}: {value.shape} {value.dtype} {valid.shape} {valid.dtype}, expected {shape}')
      for i in rm.indices(batch):
        lf = rm.lane(fl, i)
        self.compare(ctx, c, name, value[i], valid[i], lf, t, st, i)

  def compare(self, ctx, c, name, value, valid, lf, t, st, i):
    if name == 'kinematic_infeasibility' and t == 0:
      ctx.check(not np.any(valid), name + '-valid', 'a transition into the first logged step cannot be valid')
      return
    want, wvalid, sure = self.ref(c, name, lf, t)
    if name in rm.OBJECT:
      ctx.check(np.array_equal(valid, wvalid), name + '-valid',
                lambda: f'{name} at step {t}: valid {valid}, expected {wvalid}')
      m = wvalid & sure
      scale = np.abs(want)
      if name == 'log_divergence':
        with np.errstate(all='ignore'):
          scale = scale + np.abs(rm.F(lf['sim.x'][:, t])) + np.abs(rm.F(lf['sim.y'][:, t])) \
              + np.abs(rm.F(lf['log.x'][:, t])) + np.abs(rm.F(lf['log.y'][:, t]))
      bad = m & ~ep.close(value, want, scale=scale, atol=1e-4, rtol=1e-6)
      ctx.probe(name + '_judged', int(m.sum()))
      ctx.probe(name + '_raised', int((m & (want > 0)).sum()))
      ctx.probe(name + '_skipped', int((wvalid & ~sure).sum()))
      ctx.check(not bad.any(), name, lambda: f'{name} at step {t} lane {i}: {np.asarray(value)[bad][:4]} '
                f'expected {want[bad][:4]} for objects {np.flatnonzero(bad)[:4]}')
    else:
      if not sure:
        ctx.probe(name + '_skipped')
        return
      ctx.check(bool(valid) == bool(wvalid), name + '-valid',
                lambda: f'{name} at step {t} lane {i}: valid {valid}, expected {wvalid}')
      ctx.probe(name + ('_judged' if wvalid else '_invalid'))
      ctx.probe(name + '_raised', int(want > 0))
      if wvalid:
        s = np.argmax(lf['meta.is_sdc'])
        mag = abs(float(lf['sim.x'][s, t])) + abs(float(lf['sim.y'][s, t]))
        # progress amplifies nothing: arc lengths are copied, not computed
        ctx.check(bool(ep.close(value, want, scale=abs(want) + mag, atol=2e-4, rtol=2e-6)), name,
                  lambda: f'{name} at step {t} lane {i}: {value} expected {want}')
      else:
        ctx.check(float(value) == 0., name + '-invalid-value', lambda: f'{name} invalid but {value}')

  # -- what must not matter
  def scramble(self, ctx, c, compute, s, fl, t, r):
    if t + min(self.window) < 0:
      return
    base = compute(s)
    out = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in fl.items()}
    T = out['sim.x'].shape[-1]
    keep = {t + w for w in self.window}
    for which in ('sim', 'log'):
      for k in scenario.TRAJ:
        if k == 'timestamp_micros':
          continue
        a = out[f'{which}.{k}']
        for tt in range(T):
          if which == 'sim' and tt in keep:
            continue
          if which == 'log' and (not self.log_free and tt == t or self.log_ends(tt, T)):
            continue
          if k == 'valid':
            a[..., tt] = r.rand(*a.shape[:-1]) < .6
          else:
            a[..., tt] = r.uniform(-30, 30, a.shape[:-1]) + np.median(a[..., t])
    # absent objects
    for tt in keep:
      if 0 <= tt < T:
        inv = ~out['sim.valid'][..., tt] & ~self.keep_absent(out)
        if inv.any():
          for k in ('x', 'y', 'z', 'yaw', 'vel_x', 'vel_y', 'length', 'width', 'height'):
            a = out['sim.' + k]
            fill = r.uniform(-30, 30, inv.sum()) + (np.median(a[..., tt]) if k in 'xyz' else 0)
            if k in ('length', 'width'):
              fill = np.abs(fill)
            a[..., tt][inv] = fill
    self.scramble_map(out, r)
    got = compute(scenario.unflat(out))
    ctx.fault('irrelevant_data_scrambled')
    for name in self.names:
      v0, m0 = base[name]
      v1, m1 = got[name]
      ctx.check(np.array_equal(m0, m1), name + '-leak', lambda: f'validity changed at step {t}: {m0} {m1}')
      mm = m0 & (self.scramble_mask(out, t) if name in rm.OBJECT else True)
      ctx.check(bool(np.all(ep.close(v1, v0, atol=1e-5, rtol=1e-6) | ~mm)), name + '-leak',
                lambda: f'{name} at step {t} changed from {v0} to {v1} though only absent objects, '
                f'other timesteps or invalid map points changed')

  def redraw(self, ctx, c, compute, fl, t, r, what):
    """Judges the metrics on the scene as changed by what()."""
    out = what(fl, t, r)
    self.judge(ctx, c, compute(scenario.unflat(out)), out, t, None)
    ctx.probe(what.__name__ + '_map')

  def log_ends(self, tt, T):
    return False

  def keep_absent(self, out):
    return np.zeros(out['meta.is_sdc'].shape, bool)

  def scramble_mask(self, out, t):
    return np.ones(out['sim.valid'].shape[:-1], bool) & out['sim.valid'][..., t]

  def scramble_map(self, out, r):
    pass

  def nontrivial(self, plan, ctx):
    return sum(v for k, v in ctx.probes.items() if k.endswith('_judged')) > 0


def reroute(fl, t, r):
  """The same scene with the planned vehicle's routes redrawn around the thresholds."""
  out = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in fl.items()}
  shape = out['path.x'].shape
  for i in np.ndindex(*shape[:-2]):
    sdc = int(np.argmax(fl['meta.is_sdc'][i]))
    here = np.array([fl['sim.x'][i][sdc, t], fl['sim.y'][i][sdc, t]], np.float64)
    if not np.isfinite(here).all():
      here = np.zeros(2)
    for k in range(shape[-2]):
      n = shape[-1]
      head = r.uniform(-np.pi, np.pi)
      off = r.choice([r.uniform(0, 3), r.uniform(2, 9), r.uniform(4, 40)])
      gap = r.choice([.7, 2., 5.])
      turn = np.cumsum(r.uniform(-.2, .2, n)) + head
      step = gap * np.stack([np.cos(turn), np.sin(turn)], -1)
      pts = np.cumsum(step, 0)
      pts = pts - pts[r.randint(n)] + here + off * np.array([-np.sin(head), np.cos(head)])
      out['path.x'][i][k], out['path.y'][i][k] = pts[:, 0], pts[:, 1]
      out['path.arc_length'][i][k] = r.uniform(-50, 50) + gap * np.arange(n)
      ok = np.ones(n, bool)
      if r.rand() < .5:
        ok = r.rand(n) < .8
      if r.rand() < .3:
        ok[:r.randint(n)] = False
      if r.rand() < .1:
        ok[:] = False
      out['path.valid'][i][k] = ok
      out['path.on_route'][i][k] = r.rand() < .5
  return out
