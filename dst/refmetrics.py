"""Float64 reference definitions of the documented metrics, one scenario at a time.

Every function returns (value, valid, sure): `sure` is False where rounding may
tip the result (boundary cases), which the caller skips. Inputs are flat states
(dst.scenario.flat) of one scenario and a timestep.
"""
import numpy as np

F = lambda a: np.asarray(a, np.float64)


def lane(fl, index):
  """One scenario of a batched flat state."""
  out = {}
  for k, v in fl.items():
    out[k] = v if k == 'timestep' else v[index]
  return out


def corners(x, y, l, w, yaw):
  x, y, l, w, yaw = map(F, (x, y, l, w, yaw))
  c, s = np.cos(yaw), np.sin(yaw)
  pts = []
  for a, b in ((1, -1), (1, 1), (-1, 1), (-1, -1)):
    pts.append(np.stack([x + a * l / 2 * c - b * w / 2 * s, y + a * l / 2 * s + b * w / 2 * c], -1))
  return np.stack(pts, -2)


def gap(ca, cb, ya, yb):
  """Largest separation of two boxes over the four face normals (>0 apart)."""
  best = -np.inf
  for yaw in (ya, yb):
    for ax in ((np.cos(yaw), np.sin(yaw)), (-np.sin(yaw), np.cos(yaw))):
      pa, pb = ca @ np.array(ax), cb @ np.array(ax)
      best = max(best, max(pa.min() - pb.max(), pb.min() - pa.max()))
  return best


def boxes(fl, t, which='sim'):
  return {k: F(fl[f'{which}.{k}'][:, t]) for k in ('x', 'y', 'length', 'width', 'yaw')}


def overlap(fl, t, which='sim'):
  b = boxes(fl, t, which)
  v = np.asarray(fl[f'{which}.valid'][:, t], bool)
  n = len(v)
  cs = corners(b['x'], b['y'], b['length'], b['width'], b['yaw'])
  val, sure = np.zeros(n), np.ones(n, bool)
  for i in range(n):
    if not v[i]:
      continue
    for j in range(n):
      if i == j or not v[j]:
        continue
      both = np.concatenate([cs[i].ravel(), cs[j].ravel()])
      if not np.isfinite(both).all():
        sure[i] = False
        continue
      tol = 2e-3 + 3e-6 * np.abs(both).max()
      g = gap(cs[i], cs[j], b['yaw'][i], b['yaw'][j])
      if min(b['length'][i], b['width'][i], b['length'][j], b['width'][j]) <= 0:
        sure[i] = False
      if abs(g) <= tol:
        if val[i] == 0:
          sure[i] = False
      elif g < 0:
        val[i] = 1.
        sure[i] = True
    if val[i]:
      sure[i] = True
  return val, v.copy(), sure


def log_divergence(fl, t):
  dx = F(fl['sim.x'][:, t]) - F(fl['log.x'][:, t])
  dy = F(fl['sim.y'][:, t]) - F(fl['log.y'][:, t])
  v = fl['sim.valid'][:, t] & fl['log.valid'][:, t]
  with np.errstate(all='ignore'):
    d = np.hypot(dx, dy)
  return d, v, np.isfinite(d)


EDGES = (15, 16)


def offroad(fl, t):
  """1 where a box corner is on the off-road side of the nearest valid edge."""
  b = boxes(fl, t)
  z = F(fl['sim.z'][:, t])
  cs = corners(b['x'], b['y'], b['length'], b['width'], b['yaw'])
  n = len(z)
  use = fl['rg.valid'] & np.isin(fl['rg.types'], EDGES)
  val, sure = np.zeros(n), np.ones(n, bool)
  if not use.any():
    return val, np.ones(n, bool), np.zeros(n, bool)
  px, py, pz = F(fl['rg.x']), F(fl['rg.y']), F(fl['rg.z'])
  dx, dy = F(fl['rg.dir_x']), F(fl['rg.dir_y'])
  for i in range(n):
    flags = []
    for k in range(4):
      qx, qy = cs[i, k]
      if not np.isfinite([qx, qy, z[i]]).all():
        flags.append(None)
        continue
      d2 = np.where(use, (px - qx) ** 2 + (py - qy) ** 2 + (2 * (pz - z[i])) ** 2, np.inf)
      best = d2.min()
      tol = 1e-3 + 1e-4 * np.sqrt(best) + 4e-6 * (abs(qx) + abs(qy)) * (1 + np.sqrt(best))
      cand = np.flatnonzero(d2 <= best + 4 * tol)
      got = set()
      for c in cand:
        def side(p):
          return (qx - px[c]) * dy[p] - (qy - py[c]) * dx[p]
        s = side(c)
        amb = abs(s) < 2e-3 + 4e-6 * (abs(qx) + abs(qy))
        if c > 0 and use[c - 1] and fl['rg.ids'][c - 1] == fl['rg.ids'][c]:
          s2 = side(c - 1)
          amb = amb or abs(s2) < 2e-3 + 4e-6 * (abs(qx) + abs(qy))
          s = min(s, s2)
        got.add(None if amb else bool(s > 0))
      flags.append(got.pop() if len(got) == 1 else None)
    if any(f is True for f in flags):
      val[i] = 1.
    elif any(f is None for f in flags):
      sure[i] = False
  return val, np.ones(n, bool), sure


def _sdc(fl):
  return int(np.argmax(fl['meta.is_sdc']))


def _paths(fl, t):
  i = _sdc(fl)
  x, y = F(fl['sim.x'][i, t]), F(fl['sim.y'][i, t])
  with np.errstate(all='ignore'):
    d = np.hypot(F(fl['path.x']) - x, F(fl['path.y']) - y)
  tol = 1e-3 + 4e-6 * np.nanmax(np.abs([x, y])) if np.isfinite([x, y]).all() else np.inf
  return i, d, tol


def wrongway(fl, t):
  """Distance to the nearest valid route point beyond 3.5 m."""
  _, d, tol = _paths(fl, t)
  d = np.where(fl['path.valid'], d, np.inf)
  m = d.min()
  if not np.isfinite(tol):
    return 0., False, False
  if not np.isfinite(m):
    return 0., False, True
  return (m if m >= 3.5 else 0.), True, abs(m - 3.5) > tol


def offroute(fl, t):
  i, d, tol = _paths(fl, t)
  present = bool(fl['sim.valid'][i, t])
  on = np.where(fl['path.valid'] & fl['path.on_route'], d, np.inf).min()
  off = np.where(fl['path.valid'] & ~fl['path.on_route'], d, np.inf).min()
  if not present or not np.isfinite(on):
    return 0., False, True if not present else bool(np.isfinite(tol))
  if not np.isfinite(tol):
    return 0., False, False
  far = on > 5 or on - off > 2
  sure = abs(on - 5) > tol and abs(on - off - 2) > 2 * tol
  return (on if far else 0.), True, sure


def progression(fl, t):
  i, d, tol = _paths(fl, t)
  present = bool(fl['sim.valid'][i, t])
  use = fl['path.valid'] & fl['path.on_route']
  dd = np.where(use, d, np.inf)
  m = dd.min()
  if not present or not np.isfinite(m):
    return 0., False, True if not present else bool(np.isfinite(tol))
  if not np.isfinite(tol):
    return 0., False, False
  per = dd.min(-1)
  near = np.flatnonzero(per <= m + 2 * tol)
  sure = len(near) == 1
  k = int(np.argmin(per))
  pv = fl['path.valid'][k]

  def arc(x, y):
    e = np.where(pv, np.hypot(F(fl['path.x'][k]) - x, F(fl['path.y'][k]) - y), np.inf)
    j = int(np.argmin(e))
    c = np.flatnonzero(e <= e.min() + 2 * tol)
    a = F(fl['path.arc_length'][k])
    return a[j], bool(np.all(a[c] == a[j]))
  s0, ok0 = arc(F(fl['log.x'][i, 0]), F(fl['log.y'][i, 0]))
  s1, ok1 = arc(F(fl['log.x'][i, -1]), F(fl['log.y'][i, -1]))
  s, ok = arc(F(fl['sim.x'][i, t]), F(fl['sim.y'][i, t]))
  sure = sure and ok0 and ok1 and ok
  if s1 == s0:
    return 1., True, sure
  return (s - s0) / (s1 - s0), True, sure


def kinematic(fl, t, max_acc=10.4, max_steer=.3, eps=1e-3, dt=.1):
  """1 where the transition t-1 -> t breaks the limits."""
  a = {k: F(fl['sim.' + k][:, t - 1]) for k in ('yaw', 'vel_x', 'vel_y')}
  b = {k: F(fl['sim.' + k][:, t]) for k in ('yaw', 'vel_x', 'vel_y')}
  valid = fl['sim.valid'][:, t - 1] & fl['sim.valid'][:, t]
  with np.errstate(all='ignore'):
    s0, s1 = np.hypot(a['vel_x'], a['vel_y']), np.hypot(b['vel_x'], b['vel_y'])
    acc = (s1 - s0) / dt
    head = np.where(s1 <= .6, b['yaw'], np.arctan2(b['vel_y'], b['vel_x']))
    d = head - a['yaw']
    d = d - 2 * np.pi * np.floor((d + np.pi) / (2 * np.pi))
    dist = s0 * dt + .5 * acc * dt * dt
    st = np.where((s0 < .6) | (s1 < .6), 0., d / dist)
    fast = np.abs(acc) > max_acc + eps
    curv = np.abs(st) > max_steer + eps
    tol_a = 1e-3 + 2e-5 * np.maximum(s0, s1)
    sure = np.abs(np.abs(acc) - max_acc - eps) > tol_a
    sure |= curv & (np.abs(np.abs(st) - max_steer) > .05)
    scale = np.abs(a['yaw']) + np.abs(b['yaw']) + 7
    tol_s = (2e-6 * scale) / np.maximum(dist, 1e-6) + 1e-4 * np.abs(st) + 1e-4
    sure_s = (np.abs(np.abs(st) - max_steer - eps) > tol_s) & (np.abs(s0 - .6) > 1e-4) & (np.abs(s1 - .6) > 1e-4)
    near_pi = np.abs(np.abs(d) - np.pi) < 1e-4  # sign flips, magnitude does not
    sure = np.where(fast & sure, True, sure & (sure_s | near_pi & curv))
    fin = np.isfinite(s0) & np.isfinite(s1) & np.isfinite(a['yaw']) & np.isfinite(b['yaw'])
  return (fast | curv).astype(float), valid, sure & fin


OBJECT = {'overlap': overlap, 'log_divergence': log_divergence, 'offroad': offroad,
          'kinematic_infeasibility': kinematic}
SDC = {'sdc_wrongway': wrongway, 'sdc_off_route': offroute, 'sdc_progression': progression}
REF = dict(OBJECT, **SDC)


def indices(batch):
  return [()] if not batch else list(np.ndindex(*batch))
