"""C18: route progress and off-route follow the planned vehicle's routes."""
import numpy as np

from dst import episodes as ep
from dst import metricprop

S = dict(metrics=['sdc_off_route', 'sdc_progression'])
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='SDC', init=3, n=3, t=30, p=20, npath=4, ppath=20, **S),
    ep.cls(dyn='state', ctrl='SDC', init=2, n=3, p=20, npath=4, **S),
    ep.cls(dyn='dlocal', ctrl='VALID', init=3, n=3, batch=[2], p=20, npath=5, t=24, **S),
    ep.cls(dyn='dglobal', ctrl='SDC', init=1, n=3, t=20, p=20, npath=3, inject=False, **S),
    ep.cls(dyn='state', ctrl='MODELED', init=3, n=3, t=10, batch=[2, 1], p=20, npath=2, **S),
]


class P(metricprop.MetricProp):
  id = 'C18'
  names = ('sdc_off_route', 'sdc_progression')
  rule = ('a run is one episode that drives the planned vehicle along or off its routes, with routes that '
          'have invalid tails or are not to be driven; both metrics are compared at every step; '
          'non-trivial if a value was judged')
  assumptions = metricprop.MetricProp.assumptions + ['the planned vehicle is logged at the first and last step']

  def classes(self, tier):
    return CLASSES + ([dict(c, t=60, npath=10, ppath=40) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 130 if tier == 'quick' else 2400

  def scenarios(self, rng, c):
    return ep.gen_scn(rng, c, no_route=rng.random() < .12, sdc_dropout=rng.random() < .4)

  def log_ends(self, tt, T):
    return tt in (0, T - 1)

  def scramble(self, ctx, c, compute, s, fl, t, r):
    super().scramble(ctx, c, compute, s, fl, t, r)
    for _ in range(4):
      self.redraw(ctx, c, compute, fl, t, r, metricprop.reroute)

  def scramble_map(self, out, r):
    pin = ~out['path.valid']
    kk = int(pin.sum())
    for f in ('x', 'y'):
      a = out['path.' + f]
      a[pin] = np.median(a[~pin]) + r.uniform(-20, 20, kk)
    out['path.arc_length'][pin] = r.uniform(-100, 1000, kk)
    out['path.ids'][pin] = r.randint(0, 90, kk)


PROP = P()
