"""C19: kinematic infeasibility flags exactly the infeasible transitions."""
import numpy as np

from dst import episodes as ep
from dst import metricprop
from dst import refmetrics as rm
from dst import scenario

S = dict(metrics=['kinematic_infeasibility'])
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, n=6, **S),
    ep.cls(dyn='state', ctrl='VALID', init=2, n=6, **S),
    ep.cls(dyn='state', ctrl='VALID', init=1, n=6, t=12, limits=[3., .05], **S),
    ep.cls(dyn='bicycle_norm', ctrl='MODELED', init=3, n=4, batch=[2], inject=False, **S),
    ep.cls(dyn='dlocal', ctrl='VALID', init=3, n=5, **S),
    ep.cls(dyn='bicycle', ctrl='VALID', init=1, n=4, batch=[2], t=12, **S),
    ep.cls(dyn='bicycle_tight', ctrl='VALID', init=2, n=5, limits=[2.5, .1], **S),
    ep.cls(dyn='state', ctrl='MODELED', init=3, n=4, batch=[1, 2], t=10, limits=[30., .3], inject=False, **S),
    ep.cls(dyn='own_bicycle', ctrl='VALID', init=2, n=4, limits=[4., .2], dt=.2, **S),
    ep.cls(dyn='state', ctrl='VALID', init=2, n=4, limits=[12., .2], dt=.05, **S),
]


class P(metricprop.MetricProp):
  id = 'C19'
  names = ('kinematic_infeasibility',)
  window = (-1, 0)
  rule = ('a run is one episode with objects driven by the bicycle model (within and beyond the command '
          'limits) or moved freely, over logs with dropouts; every transition is judged; non-trivial if '
          'a transition was judged')

  def classes(self, tier):
    return CLASSES + ([dict(c, t=60, n=12) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 170 if tier == 'quick' else 2400

  def compute(self, ctx, c, sim):
    if not c.get('limits'):
      return super().compute(ctx, c, sim)
    key = 'kim'
    if key not in ctx.cache:
      import jax
      from waymax.metrics import comfort
      own = {'dt': c['dt']} if 'dt' in c else {}
      m = comfort.KinematicsInfeasibilityMetric(max_acc=c['limits'][0], max_steering=c['limits'][1], **own)
      ctx.cache[key] = jax.jit(m.compute)
    f = ctx.cache[key]

    def go(s):
      v = f(s)
      return {'kinematic_infeasibility': (np.asarray(v.value), np.asarray(v.valid))}
    return go

  def ref(self, c, name, fl, t):
    a, s = c.get('limits') or (10.4, .3)
    return rm.kinematic(fl, t, a, s, dt=c.get('dt', ep.DT))

  def judge(self, ctx, c, got, fl, t, st):
    super().judge(ctx, c, got, fl, t, st)
    if st is None or ep.kind(c['dyn']) != 'bicycle':
      return
    value, valid = got['kinematic_infeasibility']
    cur = ep.current(st.before)
    nxt = ep.current(fl, at=t)
    fin = np.all([np.isfinite(cur[k]) & np.isfinite(nxt[k]) for k in ep.DYN5], axis=0)
    m = st.ctrl & cur['valid'] & valid & fin
    # reversing through standstill turns the velocity by pi within one step
    m &= np.hypot(cur['vel_x'], cur['vel_y']) < 200
    ctx.probe('bicycle_driven', int(m.sum()))
    bad = m & (value > 0)
    ctx.check(not bad.any(), 'feasible-flagged', lambda: f'bicycle-driven objects {ep.where(bad)} flagged at step {t}')

  def scramble_mask(self, out, t):
    return out['sim.valid'][..., t]


PROP = P()
