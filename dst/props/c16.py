"""C16: overlap and log divergence follow the true geometry along histories."""
import numpy as np

from dst import episodes as ep
from dst import metricprop

S = dict(metrics=['overlap', 'log_divergence'])
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, n=7, **S),
    ep.cls(dyn='state', ctrl='VALID', init=2, n=6, **S),
    ep.cls(dyn='dlocal', ctrl='MODELED', init=3, n=6, batch=[2], inject=False, **S),
    ep.cls(dyn='dglobal', ctrl='SDC', init=1, n=8, t=10, **S),
    ep.cls(dyn='state', ctrl='MODELED', init=3, n=5, t=10, batch=[2, 1], inject=False, **S),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', init=4, n=12, t=14, **S),
]


class P(metricprop.MetricProp):
  id = 'C16'
  names = ('overlap', 'log_divergence')
  log_free = False
  rule = ('a run is one episode through a faulty command channel over a log with absent objects whose '
          'slots hold garbage; both metrics are compared at every step; non-trivial if a value was judged')

  def classes(self, tier):
    return CLASSES + ([dict(c, n=24, t=40) for c in CLASSES if not c['batch']] if tier == 'thorough' else [])

  def runs(self, tier):
    return 120 if tier == 'quick' else 2000

  def scenarios(self, rng, c):
    return ep.gen_scn(rng, c, layout=rng.choice(['crowd', 'crowd', 'lane', 'road']))


PROP = P()
