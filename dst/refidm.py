"""Float64 reference of the documented route-following agents, one scenario at a time."""
import numpy as np

from dst import refmetrics as rm

F = rm.F
IDM = dict(desired_vel=30., min_spacing=2., safe_time_headway=2., max_accel=2., max_decel=4., delta=4.,
           max_lookahead=10, lookahead_from_current_position=True, additional_lookahead_points=10,
           additional_lookahead_distance=10., invalidate_on_end=False)
END, OFF, STATIC = .05, 5., 1.


def nearest(fl, i, x, y, z, tol, use3d):
  """Candidates for the nearest logged waypoint of object i."""
  lx, ly, lz = (F(fl['log.' + k][i]) for k in 'xyz')
  v = fl['log.valid'][i]
  with np.errstate(all='ignore'):
    d = np.sqrt((lx - x) ** 2 + (ly - y) ** 2 + ((lz - z) ** 2 if use3d else 0))
  d = np.where(v, d, np.inf)
  m = d.min()
  if not np.isfinite(m):
    return [], m
  return list(np.flatnonzero(d <= m + tol)), m


def lookahead(fl, t, i, p, tol):
  """The vehicle's box moved along its way: poses (k, x, y, z, length, width, yaw, valid)."""
  s = {k: F(fl['sim.' + k][i, t]) for k in ('x', 'y', 'z', 'yaw', 'length', 'width')}
  sure = True
  if p['lookahead_from_current_position']:
    pts = [(s['x'], s['y'], s['z'], s['length'], s['width'], s['yaw'], True)]
  else:
    c, _ = nearest(fl, i, s['x'], s['y'], s['z'], tol, True)
    if not c:
      return [], False
    T = fl['log.x'].shape[-1]
    L = p['max_lookahead']
    lo = min(c[0], T - L)
    for q in c[1:]:
      sure = sure and min(q, T - L) == lo
    pts = [tuple(F(fl['log.' + k][i, lo + q]) for k in ('x', 'y', 'z', 'length', 'width', 'yaw')) +
           (bool(fl['log.valid'][i, lo + q]),) for q in range(L)]
  x, y, z, l, w, yaw, v = pts[-1]
  n = p['additional_lookahead_points']
  for q in range(1, n + 1):
    a = p['additional_lookahead_distance'] * q / n
    pts.append((x + a * np.cos(yaw), y + a * np.sin(yaw), z, l, w, yaw, v))
  return pts, sure


def lead(fl, t, i, p, tol):
  """(distance, speed) of the object ahead or None; and whether it is certain."""
  pts, sure = lookahead(fl, t, i, p, tol)
  cur = [F(fl['sim.' + k][i, t]) for k in 'xyz']
  b = rm.boxes(fl, t)
  v = fl['sim.valid'][:, t]
  sp = np.hypot(F(fl['sim.vel_x'][:, t]), F(fl['sim.vel_y'][:, t]))
  cs = rm.corners(b['x'], b['y'], b['length'], b['width'], b['yaw'])
  first_t, dist, vel, closest = None, np.inf, np.inf, np.inf
  amb = []
  for q, (x, y, z, l, w, yaw, ok) in enumerate(pts):
    if not ok:
      continue
    c = rm.corners(x, y, l, w, yaw)
    d = np.sqrt((x - cur[0]) ** 2 + (y - cur[1]) ** 2 + (z - cur[2]) ** 2)
    hit = []
    for j in range(len(v)):
      if j == i or not v[j]:
        continue
      if not np.isfinite(cs[j]).all():
        sure = False
        continue
      g = rm.gap(c, cs[j], yaw, b['yaw'][j])
      if abs(g) <= tol:
        amb.append((q, d))
      elif g < 0:
        hit.append(j)
    if hit:
      dist = min(dist, d)
      if first_t is None:
        first_t = q
        vel = min(sp[j] for j in hit)
  for q, d in amb:
    if first_t is None or q <= first_t or d <= dist + tol:
      sure = False
  if first_t is None:
    return None, sure
  return (dist, vel), sure


def idm_speed(fl, t, i, p, dt=.1):
  """(new speed, absolute error bound, certain)."""
  x, y = F(fl['sim.x'][i, t]), F(fl['sim.y'][i, t])
  tol = 2e-3 + 4e-6 * (abs(x) + abs(y))
  v = float(np.hypot(F(fl['sim.vel_x'][i, t]), F(fl['sim.vel_y'][i, t])))
  ld, sure = lead(fl, t, i, p, tol)
  a = p['max_accel'] * (1 - (v / p['desired_vel']) ** p['delta'])
  err = 1e-4
  if ld is not None:
    d, lv = ld
    s = p['min_spacing'] + max(0., v * p['safe_time_headway'] + v * (v - lv) / (2 * np.sqrt(p['max_accel'] * p['max_decel'])))
    if d == 0 or d < tol and not p['lookahead_from_current_position']:
      sure = sure and d == 0
      d = .1
    q = (s / d) ** 2
    a -= p['max_accel'] * q
    err += dt * p['max_accel'] * q * (2e-5 + 2 * (4e-7 * (abs(x) + abs(y)) / d))
  new = max(0., v + dt * a)
  err += dt * p['max_accel'] * (v / p['desired_vel']) ** p['delta'] * 1e-5 + 1e-5 * v
  return new, err, sure, ld, v


def follow(fl, t, i, new_speed, invalidate_on_end, dt=.1):
  """Next pose of object i along its logged way. Returns dict, certain."""
  s = {k: F(fl['sim.' + k][i, t]) for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')}
  v = np.hypot(s['vel_x'], s['vel_y'])
  go = (new_speed + v) / 2 * dt
  nx, ny = s['x'] + go * np.cos(s['yaw']), s['y'] + go * np.sin(s['yaw'])
  tol = 2e-3 + 4e-6 * (abs(nx) + abs(ny)) + 1e-5 * go
  cand, d = nearest(fl, i, nx, ny, 0., tol, False)
  if not cand:
    return None, False
  val = np.flatnonzero(fl['log.valid'][i])
  last = val[-1]
  outs = []
  for c in cand:
    sx, sy, syaw = (F(fl['log.' + k][i, c]) for k in ('x', 'y', 'yaw'))
    e = np.hypot(F(fl['log.x'][i, last]) - sx, F(fl['log.y'][i, last]) - sy)
    dc = np.hypot(sx - nx, sy - ny)
    end = e < END or dc > OFF
    if abs(e - END) < tol or abs(dc - OFF) < tol:
      outs.append(None)
      continue
    cx, cy = np.cos(syaw), np.sin(syaw)
    if end and invalidate_on_end:
      px, py = sx, sy
    else:
      a = cx * (nx - sx) + cy * (ny - sy)
      px, py = sx + cx * a, sy + cy * a
    if end:
      vx, vy = (0., 0.) if invalidate_on_end else (s['vel_x'], s['vel_y'])
    else:
      vx, vy = new_speed * np.cos(s['yaw']), new_speed * np.sin(s['yaw'])
    ok = not (invalidate_on_end and end and new_speed > STATIC)
    if invalidate_on_end and end and abs(new_speed - STATIC) < 1e-3:
      outs.append(None)
      continue
    outs.append(dict(x=px, y=py, yaw=syaw, vel_x=vx, vel_y=vy, valid=ok, end=end, go=go))
  if any(o is None for o in outs):
    return None, False
  o = outs[0]
  for q in outs[1:]:
    if any(abs(q[k] - o[k]) > 1e-6 for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')) or q['valid'] != o['valid']:
      return None, False
  return o, True
