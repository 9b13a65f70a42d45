"""Synthetic driving scenarios (the simulated world's ground truth).

`arrays(spec)` is a pure function of the spec; `state(arrs)` builds the real
SimulatorState. Log dropouts, late arrivals, placeholder or garbage data in
absent slots, invalid map points etc. are the data faults of this world.
"""
import numpy as np

TRAJ = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros',
        'length', 'width', 'height')
META = ('ids', 'object_types', 'is_sdc', 'is_modeled', 'is_valid',
        'objects_of_interest', 'is_controlled')
TLF = ('x', 'y', 'z', 'state', 'lane_ids', 'valid')
RGF = ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')
PATHF = ('x', 'y', 'z', 'ids', 'valid', 'arc_length', 'on_route')

PRESENCE = ('mix', 'mix', 'mix', 'all', 'late', 'flicker')
GARBAGE = ('womd', 'womd', 'finite', 'near')


def gen_spec(rng, n=6, t=16, p=40, tl=3, npath=3, ppath=14, **over):
  s = dict(
      seed=rng.randrange(2**31), n=n, t=t, p=p, tl=tl, npath=npath, ppath=ppath,
      presence=rng.choice(PRESENCE), garbage=rng.choice(GARBAGE),
      offset=rng.choice((0.0, 0.0, 120.0, -900.0)),
      layout=rng.choice(('road', 'road', 'open', 'crowd')),
      map_garbage=rng.choice(('womd', 'finite', 'near')),
      sdc_dropout=rng.random() < 0.15,
      yaw_wrap=rng.random() < 0.8,
  )
  s.update(over)
  return s


def gen_blackout(rng, t):
  """Steps at which nobody is logged: none mostly, or a tail, head or gap."""
  kind = rng.choice(['none'] * 6 + ['tail', 'tail', 'gap', 'head'])
  a, b = sorted(rng.sample(range(1, t + 1), 2))
  return {'none': None, 'tail': [a, t], 'gap': [a, b], 'head': [0, a]}[kind]


def _ids(spec, ids):
  """Ids are int32; large ones differ in bits that float32 cannot hold."""
  ids = np.array(ids, np.int64)
  return np.where(ids >= 0, ids + spec.get('id_base', 0), ids).astype(np.int32)


def _presence(r, t, mode):
  v = np.ones(t, bool)
  kind = mode
  if mode == 'mix':
    kind = r.choice(['all', 'all', 'late', 'early', 'flicker', 'gap', 'never', 'warm'])
  elif mode == 'late':
    kind = r.choice(['all', 'late', 'late', 'gap'])
  elif mode == 'flicker':
    kind = r.choice(['all', 'flicker', 'flicker', 'early'])
  if kind == 'late':
    v[: r.randint(1, max(2, t - 1))] = False
  elif kind == 'early':
    v[r.randint(1, t):] = False
  elif kind == 'flicker':
    v = r.rand(t) < 0.6
  elif kind == 'gap':
    a = r.randint(0, t - 1)
    b = r.randint(a + 1, t + 1)
    v[a:b] = False
  elif kind == 'never':
    v[:] = False
  elif kind == 'warm':
    v[r.randint(2, max(3, t // 2)):] = False
  return v


def arrays(spec):
  r = np.random.RandomState(spec['seed'])
  n, t = spec['n'], spec['t']
  f = np.float32
  off = np.array([spec['offset'], -0.7 * spec['offset']])
  road_yaw = r.uniform(-np.pi, np.pi)
  d = np.array([np.cos(road_yaw), np.sin(road_yaw)])
  nrm = np.array([-d[1], d[0]])  # left of the road direction
  half = r.uniform(5.0, 9.0)
  z0 = r.uniform(-5, 30)

  def world(along, left):
    return off + along[..., None] * d + left[..., None] * nrm

  # -- objects
  types = r.choice([1, 1, 1, 2, 3, 4, 0], size=n)
  sdc = int(r.randint(n)) if spec.get('sdc') is None else spec['sdc']
  types[sdc] = 1
  length = np.where(types == 1, r.uniform(3.5, 8, n), r.uniform(0.5, 2.2, n))
  width = np.where(types == 1, r.uniform(1.6, 2.6, n), r.uniform(0.4, 1.0, n))
  height = r.uniform(1.2, 3.5, n)
  along0 = r.uniform(-40, 40, n)
  left0 = r.uniform(-half * 1.2, half * 1.2, n)
  if spec['layout'] == 'crowd':
    along0 = r.uniform(-9, 9, n)
    left0 = r.uniform(-6, 6, n)
  elif spec['layout'] == 'lane':
    left0 = r.uniform(-0.6, 0.6, n)
    along0 = np.sort(r.uniform(-40, 60, n))
    r.shuffle(along0)
  pos = world(along0, left0)
  yaw = road_yaw + r.choice([0, 0, 0, np.pi, 0.5, -1.2], size=n) + r.normal(0, .05, n)
  if spec['layout'] == 'lane':
    yaw = road_yaw + r.normal(0, 0.02, n)
  speed = np.where(types == 2, r.uniform(0, 2, n), r.uniform(0, 18, n))
  speed = np.where(r.rand(n) < 0.2, 0.0, speed)
  acc = r.normal(0, 1.5, n)
  steer = r.normal(0, 0.03, n)
  xs = np.zeros((n, t)); ys = np.zeros((n, t)); yaws = np.zeros((n, t))
  vx = np.zeros((n, t)); vy = np.zeros((n, t))
  for k in range(t):
    xs[:, k], ys[:, k] = pos[:, 0], pos[:, 1]
    yaws[:, k] = yaw
    vx[:, k], vy[:, k] = speed * np.cos(yaw), speed * np.sin(yaw)
    if spec['layout'] != 'lane':
      acc = np.clip(acc + r.normal(0, 0.8, n), -5, 5)
      steer = np.clip(steer + r.normal(0, 0.02, n), -0.2, 0.2)
    else:
      acc = acc * 0.5
      steer = steer * 0.3
    a = np.where(speed + acc * 0.1 < 0, -speed / 0.1, acc)
    pos = pos + np.stack([
        speed * np.cos(yaw) * .1 + .5 * a * np.cos(yaw) * .01,
        speed * np.sin(yaw) * .1 + .5 * a * np.sin(yaw) * .01], -1)
    yaw = yaw + steer * (speed * .1 + .5 * a * .01)
    speed = np.maximum(speed + a * .1, 0)
  if spec.get('yaw_wrap', True):
    yaws = (yaws + np.pi) % (2 * np.pi) - np.pi
  z = np.broadcast_to((z0 + r.normal(0, .3, n))[:, None], (n, t)).copy()
  z += r.normal(0, .02, (n, t))
  valid = np.stack([_presence(r, t, spec['presence']) for _ in range(n)])
  if spec['presence'] == 'all':
    valid[:] = True
  if spec.get('sdc_dropout'):
    if r.rand() < 0.7:
      valid[sdc, 1:-1] = r.rand(t - 2) < 0.7
      valid[sdc, [0, -1]] = True
  else:
    valid[sdc] = True
  if spec.get('blackout'):  # steps at which the log has nobody at all
    a, b = spec['blackout']
    valid[:, a:b] = False
  ts = np.broadcast_to(np.arange(t) * 100000 + int(r.randint(0, 999)), (n, t)).copy()
  traj = dict(x=xs, y=ys, z=z, vel_x=vx, vel_y=vy, yaw=yaws, valid=valid,
              timestamp_micros=ts,
              length=np.broadcast_to(length[:, None], (n, t)).copy(),
              width=np.broadcast_to(width[:, None], (n, t)).copy(),
              height=np.broadcast_to(height[:, None], (n, t)).copy())
  g = spec['garbage']
  inv = ~valid
  for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height'):
    if k in ('length', 'width', 'height') and g != 'womd' and g != 'nan':
      continue  # sizes are constant over time
    a = traj[k]
    if g == 'womd':
      if k in ('length', 'width', 'height'):
        a[~valid.any(1)] = -1
      else:
        a[inv] = -1
    elif g == 'finite':
      a[inv] = r.uniform(-1e4, 1e4, inv.sum())
    elif g == 'near':
      # coincide with a present object, the worst placeholder there is
      if k in ('x', 'y'):
        j = r.randint(0, n, size=(n, t))
        src = a[j, np.arange(t)[None, :]]
        a[inv] = (src + r.normal(0, .3, (n, t)))[inv]
      else:
        a[inv] = r.uniform(-5, 5, inv.sum())
    elif g == 'nan':
      if k not in ('length', 'width', 'height'):
        a[inv] = np.nan
  traj['timestamp_micros'][inv] = -1 if g == 'womd' else traj['timestamp_micros'][inv]
  out = {}
  for k, v in traj.items():
    out['log.' + k] = v.astype(bool if k == 'valid' else np.int32 if k == 'timestamp_micros' else f)

  # -- metadata
  is_sdc = np.zeros(n, bool); is_sdc[sdc] = True
  meta = dict(ids=_ids(dict(spec, id_base=spec.get('id_base', 0) * spec.get('big_object_ids', 1)), r.permutation(5000)[:n]), object_types=types.astype(np.int32),
              is_sdc=is_sdc, is_modeled=(r.rand(n) < .4), is_valid=valid.any(1),
              objects_of_interest=(r.rand(n) < .3), is_controlled=(r.rand(n) < .4))
  for k, v in meta.items():
    out['meta.' + k] = v

  # -- traffic lights
  q = spec['tl']
  tlp = world(r.uniform(-30, 30, q), r.uniform(-4, 4, q))
  st = r.randint(0, 9, (q, t))
  tv = r.rand(q, t) < .8
  tlx = np.broadcast_to(tlp[:, :1], (q, t)) + r.normal(0, .01, (q, t))
  tly = np.broadcast_to(tlp[:, 1:], (q, t)) + r.normal(0, .01, (q, t))
  out.update({'tl.x': tlx.astype(f), 'tl.y': tly.astype(f),
              'tl.z': np.full((q, t), z0, f), 'tl.state': st.astype(np.int32),
              'tl.lane_ids': _ids(spec, np.broadcast_to(r.randint(1, 90, q)[:, None], (q, t))),
              'tl.valid': tv})

  # -- map: two or three road edges, a lane centre, clutter, invalid tail
  p = spec['p']
  segs = []
  ne = max(3, p // 4)
  al = np.linspace(-60, 60, ne) + r.uniform(-1, 1)
  curve = r.uniform(-.002, .002)

  def line(left, rev, typ, idd, zz, cnt, lo=-60, hi=60):
    a = np.linspace(lo, hi, cnt)
    pts = world(a, left + curve * a * a)
    tang = d[None] + (2 * curve * a)[:, None] * nrm[None]
    tang /= np.linalg.norm(tang, axis=1, keepdims=True)
    if rev:
      pts, tang = pts[::-1], -tang[::-1]
    segs.append((pts, tang, np.full(cnt, typ), np.full(cnt, idd), np.full(cnt, zz)))
  used = 0
  idbase = int(r.randint(1, 300))
  line(-half, False, int(r.choice([15, 16])), idbase, z0, ne)      # right edge
  line(half, True, 15, idbase + 1, z0, ne)                         # left edge
  used = 2 * ne
  k = min(6, p - used)
  if k > 2:
    if r.rand() < .5:
      line(r.uniform(-2, 2), False, 15, idbase + 2, z0 + 12, k)     # overpass edge
    else:
      line(0., False, int(r.choice([1, 2, 3, 18])), idbase + 2, z0, k)
    used += k
  rest = p - used
  if rest > 0:
    pts = world(r.uniform(-50, 50, rest), r.uniform(-half, half, rest))
    th = r.uniform(-np.pi, np.pi, rest)
    segs.append((pts, np.stack([np.cos(th), np.sin(th)], -1),
                 r.choice([1, 2, 3, 6, 7, 17, 18, 19, 14], size=rest),
                 idbase + 10 + np.arange(rest), np.full(rest, z0)))
  rx = np.concatenate([s[0] for s in segs]); rd = np.concatenate([s[1] for s in segs])
  rt = np.concatenate([s[2] for s in segs]); ri = np.concatenate([s[3] for s in segs])
  rz = np.concatenate([s[4] for s in segs])
  rv = np.ones(p, bool)
  ninv = int(r.randint(0, max(1, p // 4)))
  mg = spec['map_garbage']
  if ninv:
    rv[p - ninv:] = False
    if mg != 'womd' and r.rand() < .5:  # scattered invalid points, whole polyline ends
      rv[ne - 1] = False
      rv[r.randint(0, 2 * ne, max(2, ne // 4))] = False  # holes in the edges
  iv = ~rv
  rx = rx.copy(); rd = rd.copy(); rt = rt.copy(); ri = ri.copy(); rz = rz.copy()
  if mg == 'womd':
    rx[iv] = -1; rd[iv] = -1; rt[iv] = -1; ri[iv] = -1; rz[iv] = -1
  elif mg == 'finite':
    rx[iv] = r.uniform(-1e3, 1e3, (iv.sum(), 2)); rt[iv] = r.choice([15, 16], iv.sum())
    ri[iv] = -1
  else:
    rx[iv] = world(r.uniform(-20, 20, iv.sum()), r.uniform(-half, half, iv.sum()))
    rt[iv] = 15  # keeping the id of the line they were taken from
    rd[iv] = _unit(r, int(iv.sum()))
  dz = r.normal(0, .01, p)
  out.update({'rg.x': rx[:, 0].astype(f), 'rg.y': rx[:, 1].astype(f), 'rg.z': rz.astype(f),
              'rg.dir_x': rd[:, 0].astype(f), 'rg.dir_y': rd[:, 1].astype(f), 'rg.dir_z': dz.astype(f),
              'rg.types': rt.astype(np.int32), 'rg.ids': _ids(spec, ri), 'rg.valid': rv})

  # -- planned vehicle's routes
  m, pp = spec['npath'], spec['ppath']
  px = np.zeros((m, pp)); py = np.zeros((m, pp)); pv = np.ones((m, pp), bool)
  arc = np.zeros((m, pp)); ids = np.zeros((m, pp), int); onr = np.zeros((m, 1), bool)
  gx, gy = xs[sdc], ys[sdc]
  vs = valid[sdc]
  first = np.array([gx[vs][0], gy[vs][0]]) if vs.any() else np.array([gx[0], gy[0]])
  last = np.array([gx[vs][-1], gy[vs][-1]]) if vs.any() else np.array([gx[-1], gy[-1]])
  base = (last - first) / max(1e-6, np.linalg.norm(last - first)) if np.linalg.norm(last - first) > 1 else d
  for i in range(m):
    start = first - base * r.uniform(0, 6) + r.normal(0, .3 if i == 0 else 4, 2)
    direc = base if i == 0 else _rot(base, r.uniform(-.6, .6))
    stp = r.uniform(1.5, 5.0)
    pts = start + np.arange(pp)[:, None] * stp * direc + np.cumsum(r.normal(0, .05, (pp, 2)), 0)
    px[i], py[i] = pts[:, 0], pts[:, 1]
    seg = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    arc[i] = np.concatenate([[0], np.cumsum(seg)])
    ids[i] = 40 + i * 7 + np.arange(pp) // 5
    onr[i, 0] = i == 0 or r.rand() < .3
    kv = int(r.choice([pp, pp, max(2, pp // 2), 0 if i else pp]))
    pv[i, kv:] = False
  if spec.get('no_route'):
    onr[:] = False
  ivp = ~pv
  if mg == 'womd':
    px[ivp] = 0; py[ivp] = 0; arc[ivp] = 0; ids[ivp] = 0
  else:
    px[ivp] = (first[0] + r.normal(0, 2, ivp.sum())); py[ivp] = (first[1] + r.normal(0, 2, ivp.sum()))
    arc[ivp] = r.uniform(-50, 500, ivp.sum())
  out.update({'path.x': px.astype(f), 'path.y': py.astype(f), 'path.z': np.full((m, pp), z0, f),
              'path.ids': _ids(spec, ids), 'path.valid': pv, 'path.arc_length': arc.astype(f),
              'path.on_route': onr})
  return out


def _unit(r, k):
  th = r.uniform(-np.pi, np.pi, k)
  return np.stack([np.cos(th), np.sin(th)], -1)


def _rot(v, a):
  c, s = np.cos(a), np.sin(a)
  return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def stack(list_of_arrays, shape):
  """Batches scenarios to leading dims `shape`."""
  out = {}
  for k in list_of_arrays[0]:
    a = np.stack([x[k] for x in list_of_arrays])
    out[k] = a.reshape(tuple(shape) + a.shape[1:])
  return out


def state(arrs, timestep=-1, sim=None):
  """A real SimulatorState as the data loader would produce it."""
  import jax.numpy as jnp
  from waymax import datatypes
  j = lambda pre, fs: {k: jnp.asarray(arrs[f'{pre}.{k}']) for k in fs}
  log = datatypes.Trajectory(**j('log', TRAJ))
  if sim is None:
    simt = datatypes.fill_invalid_trajectory(log)
  else:
    simt = datatypes.Trajectory(**{k: jnp.asarray(sim[k]) for k in TRAJ})
  return datatypes.SimulatorState(
      sim_trajectory=simt, log_trajectory=log,
      log_traffic_light=datatypes.TrafficLights(**j('tl', TLF)),
      object_metadata=datatypes.ObjectMetadata(**j('meta', META)),
      timestep=jnp.asarray(timestep, jnp.int32),
      sdc_paths=datatypes.Paths(**j('path', PATHF)),
      roadgraph_points=datatypes.RoadgraphPoints(**j('rg', RGF)))


def flat(st):
  """Real state -> dict of numpy arrays with the same names as `arrays`."""
  out = {}
  for k in TRAJ:
    out['sim.' + k] = np.asarray(getattr(st.sim_trajectory, k))
    out['log.' + k] = np.asarray(getattr(st.log_trajectory, k))
  for k in META:
    out['meta.' + k] = np.asarray(getattr(st.object_metadata, k))
  for k in TLF:
    out['tl.' + k] = np.asarray(getattr(st.log_traffic_light, k))
  if st.roadgraph_points is not None:
    for k in RGF:
      out['rg.' + k] = np.asarray(getattr(st.roadgraph_points, k))
  if st.sdc_paths is not None:
    for k in PATHF:
      out['path.' + k] = np.asarray(getattr(st.sdc_paths, k))
  out['timestep'] = np.asarray(st.timestep)
  return out


def unflat(fl):
  """Inverse of flat (restore from durable storage)."""
  return state(fl, fl['timestep'], {k: fl['sim.' + k] for k in TRAJ})


FIXED = tuple('log.' + k for k in TRAJ) + tuple('meta.' + k for k in META) + tuple(
    'tl.' + k for k in TLF) + tuple('rg.' + k for k in RGF) + tuple('path.' + k for k in PATHF)
