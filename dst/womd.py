"""Synthetic motion records in the WOMD tf.Example format, and their reading."""
import numpy as np

N, TLS = 128, 16
STEPS = {'past': 10, 'current': 1, 'future': 80}
SLICE = {'past': slice(0, 10), 'current': slice(10, 11), 'future': slice(11, 91)}
T = 91
FLOATS = ('bbox_yaw', 'height', 'length', 'vel_yaw', 'speed', 'velocity_x', 'velocity_y', 'width', 'x', 'y', 'z')


def record(seed, rg=60, paths=None, pad='0', n=N):
  """Ground truth of one record: arrays over all 91 steps, plus map and lights."""
  r = np.random.RandomState(seed)
  f = np.float32
  k = int(r.choice([1, 3, 20, 100, n])) if n > 20 else n
  k = min(k, n)
  a = {}
  present = r.rand(n, T) < r.choice([.3, .8, 1.0])
  life = r.rand(n)
  present[life < .15] = False
  present[(life > .15) & (life < .3), :int(r.randint(1, 60))] = False
  present[k:] = False
  for name in FLOATS:
    a[name] = (r.normal(0, 50, (n, T))).astype(f)
  a['bbox_yaw'] = r.uniform(-9, 9, (n, T)).astype(f)
  for name in ('length', 'width', 'height'):
    a[name] = (r.uniform(.4, 9, (n, 1)) * r.uniform(.9, 1.1, (n, T))).astype(f)
  a['timestamp_micros'] = (np.arange(T)[None] * 100000 + r.randint(0, 90000, (n, 1))).astype(np.int64)
  for name in list(a):
    a[name][~present] = -1
  a['valid'] = present.astype(np.int64)
  a['valid'][k:] = -1 if pad == '-1' else 0
  out = {'state/' + q: v for q, v in a.items()}
  ids = r.permutation(30000)[:n].astype(f)
  types = r.choice([1, 2, 3, 4, 0], n).astype(f)
  sdc = np.zeros(n, np.int64)
  sdc[r.randint(k)] = 1
  ttp = (r.rand(n) < .4).astype(np.int64)
  ooi = (r.rand(n) < .3).astype(np.int64)
  for v in (ids, types, sdc, ttp, ooi):
    v[k:] = -1
  out.update({'state/id': ids, 'state/type': types, 'state/is_sdc': sdc, 'state/tracks_to_predict': ttp,
              'state/objects_of_interest': ooi})
  tl = {}
  tl['state'] = r.randint(0, 9, (T, TLS))
  tl['valid'] = (r.rand(T, TLS) < .6).astype(np.int64)
  tl['id'] = r.randint(1, 400, (T, TLS))
  for q in 'xyz':
    tl[q] = r.normal(0, 80, (T, TLS)).astype(f)
  gone = tl['valid'] == 0
  for q in ('state', 'id', 'x', 'y', 'z'):
    tl[q][gone] = -1
  tl['timestamp_micros'] = np.arange(T) * 100000
  out.update({'traffic_light_state/' + q: v for q, v in tl.items()})
  ng = int(r.randint(1, rg + 1))
  m = {'dir': r.normal(0, 1, (rg, 3)).astype(f), 'id': r.randint(1, 2**30, (rg, 1)),
       'type': r.randint(0, 20, (rg, 1)), 'valid': np.ones((rg, 1), np.int64), 'xyz': r.normal(0, 200, (rg, 3)).astype(f)}
  m['valid'][ng:] = 0
  for q in ('dir', 'id', 'type', 'xyz'):
    m[q][ng:] = -1
  out.update({'roadgraph_samples/' + q: v for q, v in m.items()})
  if paths:
    p, q = paths
    pv = (r.rand(p, q) < .8).astype(np.int64)
    out.update({'path_samples/xyz': r.normal(0, 100, (p, q, 3)).astype(f), 'path_samples/valid': pv,
                'path_samples/id': r.randint(0, 10**6, (p, q)), 'path_samples/arc_length':
                np.cumsum(r.uniform(0, 3, (p, q)), 1).astype(f), 'path_samples/on_route': r.randint(0, 2, (p, 1))})
  return out


def features(rec):
  """The stored features: time series split into past, current and future."""
  out = {}
  for k, v in rec.items():
    head, tail = k.split('/')
    if head == 'state' and v.ndim == 2:
      for w, s in SLICE.items():
        out[f'state/{w}/{tail}'] = v[:, s]
    elif head == 'traffic_light_state':
      for w, s in SLICE.items():
        out[f'traffic_light_state/{w}/{tail}'] = v[s]
    else:
      out[k] = v
  return out


def serialize(feats):
  import tensorflow as tf
  fm = {}
  for k, v in feats.items():
    v = np.asarray(v)
    if v.dtype.kind == 'f':
      fm[k] = tf.train.Feature(float_list=tf.train.FloatList(value=v.astype(np.float32).reshape(-1)))
    else:
      fm[k] = tf.train.Feature(int64_list=tf.train.Int64List(value=v.astype(np.int64).reshape(-1).tolist()))
  return tf.train.Example(features=tf.train.Features(feature=fm)).SerializeToString(deterministic=True)


def expected(rec, limit=None, steps=slice(0, T), wrap=True):
  """The scenario a loader must make of the record (float64 where computed)."""
  n = slice(0, limit)
  e = {}
  valid = rec['state/valid'][n, steps] == 1
  names = dict(x='x', y='y', z='z', vel_x='velocity_x', vel_y='velocity_y')
  for k, src in names.items():
    e['log.' + k] = rec['state/' + src][n, steps]
  yaw = rec['state/bbox_yaw'][n, steps].astype(np.float64)
  e['log.yaw'] = (yaw + np.pi) % (2 * np.pi) - np.pi if wrap else yaw
  e['log.valid'] = valid
  e['log.timestamp_micros'] = rec['state/timestamp_micros'][n, steps].astype(np.int32)
  cnt = valid.sum(1)
  for k in ('length', 'width', 'height'):
    v = rec['state/' + k][n, steps].astype(np.float64)
    mean = np.where(cnt > 0, (v * valid).sum(1) / np.maximum(cnt, 1), -1.)
    e['log.' + k] = np.broadcast_to(mean[:, None], v.shape)
  e['meta.ids'] = rec['state/id'][n].astype(np.int32)
  e['meta.object_types'] = rec['state/type'][n].astype(np.int32)
  e['meta.is_sdc'] = rec['state/is_sdc'][n] == 1
  e['meta.is_modeled'] = rec['state/tracks_to_predict'][n] == 1
  e['meta.is_valid'] = rec['state/tracks_to_predict'][n] != -1
  e['meta.objects_of_interest'] = rec['state/objects_of_interest'][n] == 1
  e['meta.is_controlled'] = np.zeros(e['meta.is_sdc'].shape, bool)
  for k, src in dict(x='x', y='y', z='z', state='state', lane_ids='id').items():
    v = rec['traffic_light_state/' + src][steps].T
    e['tl.' + k] = v if v.dtype.kind == 'f' else v.astype(np.int32)
  e['tl.valid'] = rec['traffic_light_state/valid'][steps].T == 1
  g = lambda k: rec['roadgraph_samples/' + k]
  for i, ax in enumerate('xyz'):
    e['rg.' + ax] = g('xyz')[:, i]
    e['rg.dir_' + ax] = g('dir')[:, i]
  e['rg.types'], e['rg.ids'] = g('type')[:, 0].astype(np.int32), g('id')[:, 0].astype(np.int32)
  e['rg.valid'] = g('valid')[:, 0] == 1
  if 'path_samples/xyz' in rec:
    p = lambda k: rec['path_samples/' + k]
    for i, ax in enumerate('xyz'):
      e['path.' + ax] = p('xyz')[..., i]
    e['path.ids'], e['path.valid'] = p('id').astype(np.int32), p('valid') == 1
    e['path.arc_length'], e['path.on_route'] = p('arc_length'), p('on_route') == 1
  return e


def differences(got, want, wrapped=True):
  """Names and places where a loaded scenario differs from the expected one."""
  out = []
  for k, w in want.items():
    if k not in got:
      out.append((k, 'missing'))
      continue
    g = got[k]
    if g.shape != w.shape:
      out.append((k, f'shape {g.shape} expected {w.shape}'))
      continue
    if k == 'log.yaw':
      d = np.asarray(g, np.float64) - w
      if wrapped:
        ok = (np.abs((d + np.pi) % (2 * np.pi) - np.pi) < 2e-5) & (np.abs(g) <= np.pi + 1e-5)
      else:
        ok = np.abs((d + np.pi) % (2 * np.pi) - np.pi) < 2e-5
    elif k in ('log.length', 'log.width', 'log.height'):
      ok = np.abs(np.asarray(g, np.float64) - w) <= 2e-5 * np.maximum(1, np.abs(w))
    else:
      ok = g == w
    if not np.all(ok):
      i = tuple(np.argwhere(~ok)[0])
      out.append((k, f'at {tuple(int(x) for x in i)}: {g[i]} expected {w[i]} ({int((~ok).sum())} places)'))
  return out
