"""C17: off-road and wrong-way follow the nearest valid map geometry."""
import numpy as np

from dst import episodes as ep
from dst import metricprop

S = dict(metrics=['offroad', 'sdc_wrongway'])
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, n=5, p=60, **S),
    ep.cls(dyn='state', ctrl='VALID', init=2, n=5, **S),
    ep.cls(dyn='dlocal', ctrl='SDC', init=3, n=4, batch=[2], **S),
    ep.cls(dyn='dglobal', ctrl='SDC', init=1, n=4, t=12, p=25, **S),
    ep.cls(dyn='state', ctrl='VALID', init=3, n=3, t=10, batch=[2, 1], p=33, npath=4, **S),
]


class P(metricprop.MetricProp):
  id = 'C17'
  names = ('offroad', 'sdc_wrongway')
  rule = ('a run is one episode through a faulty command channel over a map with invalid points holding '
          'garbage; both metrics are compared at every step; non-trivial if a value was judged')

  def classes(self, tier):
    return CLASSES + ([dict(c, n=10, t=40, p=200, npath=8, ppath=40) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 120 if tier == 'quick' else 2000

  def scenarios(self, rng, c):
    return ep.gen_scn(rng, c, layout=rng.choice(['road', 'road', 'open', 'crowd']))

  def keep_absent(self, out):  # wrong-way of an absent vehicle is not specified
    return out['meta.is_sdc']

  def scramble(self, ctx, c, compute, s, fl, t, r):
    super().scramble(ctx, c, compute, s, fl, t, r)
    for _ in range(3):
      self.redraw(ctx, c, compute, fl, t, r, bent)
      self.redraw(ctx, c, compute, fl, t, r, metricprop.reroute)

  def scramble_map(self, out, r):
    inv = ~out['rg.valid']
    k = int(inv.sum())
    m = out['rg.valid']
    for f in ('x', 'y', 'z', 'dir_x', 'dir_y'):
      a = out['rg.' + f]
      a[inv] = r.uniform(-20, 20, k) + (np.median(a[m]) if f in 'xyz' else 0)
    out['rg.types'][inv] = r.choice([15, 16, 1], k)
    # an invalid point may even carry the id of its neighbour
    ids = out['rg.ids']
    near = np.roll(ids, -1, -1)
    out['rg.ids'] = np.where(inv & (r.rand(*ids.shape) < .5), near, np.where(inv, r.randint(0, 400, ids.shape), ids)).astype(np.int32)
    pin = ~out['path.valid']
    kk = int(pin.sum())
    for f in ('x', 'y'):
      a = out['path.' + f]
      a[pin] = np.median(a[~pin]) + r.uniform(-20, 20, kk)
    out['path.arc_length'][pin] = r.uniform(-100, 1000, kk)


def bent(fl, t, r):
  """The same scene with every road line redrawn as a zigzag near the traffic."""
  out = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in fl.items()}
  batch, p = out['rg.x'].shape[:-1], out['rg.x'].shape[-1]
  for i in np.ndindex(*batch):
    k = slot = 0
    here = np.flatnonzero(fl['sim.valid'][i][:, t])
    heights = fl['sim.z'][i][here, t] if len(here) else np.zeros(1)
    spread = r.choice([3., 12.])
    while k < p:
      n = min(r.randint(1, 6), p - k)
      o = r.choice(here) if len(here) else 0
      at = np.array([fl['sim.x'][i][o, t], fl['sim.y'][i][o, t]], np.float64) + r.uniform(-spread, spread, 2)
      head = r.uniform(-np.pi, np.pi)
      kind = r.choice([15, 15, 16, 16, 1, 6])
      gone = r.rand(n) < .12
      for j in range(n):
        out['rg.x'][i][k + j], out['rg.y'][i][k + j] = at
        out['rg.z'][i][k + j] = r.choice(heights) + r.choice([0, 0, r.uniform(-4, 4)])
        out['rg.dir_x'][i][k + j], out['rg.dir_y'][i][k + j] = np.cos(head), np.sin(head)
        out['rg.dir_z'][i][k + j] = 0
        at = at + r.uniform(.3, 3.) * np.array([np.cos(head), np.sin(head)])
        head += r.choice([0, r.uniform(-.2, .2), r.uniform(-2., 2.)])
      out['rg.types'][i][k:k + n] = kind
      out['rg.ids'][i][k:k + n] = 1000 + slot
      out['rg.valid'][i][k:k + n] = ~gone
      k, slot = k + n, slot + 1
    if r.rand() < .4:  # only the first points of the map remain
      out['rg.valid'][i][r.randint(1, 7):] = False
  return out


PROP = P()
