"""C27: exporting a simulation and loading it back loses nothing executed."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario
from dst import womd

MAP = tuple('rg.' + k for k in scenario.RGF)
POS = ('x', 'y', 'z')


def description(past, future, n, p, q):
  """The feature description for a given history (the real one for 10/80)."""
  import tensorflow as tf
  from waymax.dataloader import womd_utils
  full = womd_utils.get_features_description(max_num_objects=n, max_num_rg_points=p, num_tls=q)
  if (past, future) == (10, 80):
    return full
  steps = {'past': past, 'current': 1, 'future': future}
  out = {}
  for k, f in full.items():
    parts = k.split('/')
    shape = list(f.shape)
    if len(parts) == 3:
      shape[-1 if parts[0] == 'state' or parts[2] == 'timestamp_micros' else 0] = steps[parts[1]]
    out[k] = tf.io.FixedLenFeature(shape, f.dtype, default_value=None)
  return out


class P(core.Prop):
  id = 'C27'
  rule = ('a run drives a world, exports it at arbitrary steps, crashes, reloads the exported record through the '
          'loader and carries on from it, several times over; non-trivial if a reload was compared')
  real = ep.REAL + ['waymax.dataloader.womd_utils (export)', 'waymax.dataloader factories and preprocessing',
                    'tf.io.parse_example']
  stub = ep.STUB
  assumptions = ['object ids below 2**24: the record format stores them as float32',
                 'export needs at least the full history (t >= 10 for the standard format), as its documentation says',
                 'headings agree up to rounding of the wrap, sizes up to rounding of the mean',
                 'after a reload the objects no agent drives have no logged future, so only driven objects carry on']
  uses_tf = True
  list_keys = ('ops', 'cuts')

  def classes(self, tier):
    out = []
    for i, (dyn, ctrl, env) in enumerate((('bicycle', 'SDC', 'planning'), ('dglobal', 'VALID', 'base'), ('dlocal', 'MODELED', 'base'),
                                          ('state', 'VALID', 'base'), ('disc_bicycle', 'VALID', 'base'))):
      h, f = ((4, 12), (3, 14), (6, 9), (1, 15), (5, 11))[i]
      out.append(ep.cls(dyn=dyn, ctrl=ctrl, env=env, inject=i != 2, init=(2, 3, 7, 1, 4)[i], n=(6, 7, 5, 6, 8)[i],
                        t=h + 1 + f, tl=(2, 3, 1, 4, 2)[i], hist=h, metrics=[], rewards={}, compute_reward=False))
    out.append(ep.cls(dyn='bicycle_norm', ctrl='VALID', init=11, n=6, t=91, tl=3, hist=10, metrics=[], rewards={}, compute_reward=False))
    out.append(ep.cls(dyn='dlocal', ctrl='SDC', env='planning', init=11, n=5, t=91, tl=16, hist=10, metrics=[], rewards={}, compute_reward=False))
    return out + out[:1]

  def runs(self, tier):
    return 112 if tier == 'quick' else 2400

  def gen(self, rng, c, tier):
    k = rng.randint(4, 24)
    faults = [f for f in ep.FAULTS if c['dyn'] != 'dlocal' or f in ('lost', 'stale')]
    modes = ('in', 'in', 'small', 'edge', 'out', 'zero')
    return {'scn': [dict(s, big_object_ids=0) for s in ep.gen_scn(rng, c)], 'ops': ep.gen_ops(rng, c, k, faults=faults, modes=modes),
            'cuts': sorted(rng.sample(range(k), min(k, rng.choice((1, 2, 3))))),
            'how': rng.choice(('eager', 'jit', 'tensorflow', 'eager')), 'checked': rng.random() < .3,
            'follow': rng.randint(1, 4)}

  def simplify(self, plan):
    yield from super().simplify(plan)
    for k, v in (('how', 'eager'), ('checked', False), ('follow', 1)):
      if plan[k] != v:
        yield dict(plan, **{k: v})

  def execute(self, plan, ctx):
    c = plan['cls']
    h, T = c['hist'], c['t']
    sim = ep.get_sim(ctx, {k: v for k, v in c.items() if k != 'hist'})
    again = ep.get_sim(ctx, dict({k: v for k, v in c.items() if k != 'hist'}, init=h + 1))
    fd = description(h, T - h - 1, c['n'], c['p'], c['tl'])
    s, fl = ep.start(sim, plan, ctx)
    cur, prev = sim, None
    i = 0
    for i, op in enumerate(plan['ops']):
      t = int(fl['timestep'])
      if t >= T - 1:
        break
      data, valid = ep.deliver(cur, op, fl, prev, ctx)
      s = cur.step(s, cur.action(data, valid))
      fl = scenario.flat(s)
      ctx.event('step', i, ep.current(fl))
      ctx.step()
      prev = data, valid
      if i in plan['cuts'] and int(fl['timestep']) >= h:
        s2, fl2 = self.crash(ctx, plan, cur, again, fd, h, s, fl)
        self.follow(ctx, plan, cur, again, s, fl, s2, fl2, i)
        cur, s, fl, prev = again, s2, fl2, None
        ctx.fault('crash_and_reload')

  def export(self, ctx, plan, fd, s):
    import jax
    from waymax.dataloader import womd_utils
    how = plan['how']
    if how == 'jit':
      key = 'exp:' + str(plan['cls'])
      if key not in ctx.cache:
        ctx.cache[key] = jax.jit(lambda x: womd_utils.simulator_state_to_womd_dict(x, fd))
      d = ctx.cache[key](s)
    elif how == 'tensorflow':
      d = womd_utils.simulator_state_to_womd_dict_tensorflow(s, fd)
    else:
      d = womd_utils.simulator_state_to_womd_dict(s, fd)
    return {k: np.asarray(v) for k, v in d.items()}

  def crash(self, ctx, plan, sim, again, fd, h, s, fl):
    """Exports, forgets everything but the record, and loads it."""
    import tensorflow as tf
    from waymax.dataloader import womd_dataloader as wd
    from waymax.dataloader import womd_factories as wf
    t = int(fl['timestep'])
    T = plan['cls']['t']
    d = self.export(ctx, plan, fd, s)
    after = scenario.flat(s)
    for k in fl:
      ctx.check(ep.same(fl[k], after[k]), 'export-changed-state', k)
    ctx.check(set(d) == set(fd), 'features', lambda: f'{sorted(set(d) ^ set(fd))[:5]}')
    for k, f in fd.items():
      ctx.check(d[k].shape == tuple(f.shape), 'feature-shape', lambda: f'{k}: {d[k].shape}, format wants {tuple(f.shape)}')
      ctx.check((d[k].dtype.kind == 'f') == f.dtype.is_floating, 'feature-type', lambda: f'{k}: {d[k].dtype}')
    self.derived(ctx, d, fl, t, h)
    if plan['checked']:
      self.validated(ctx, fd, s, t, h)
    ser = womd.serialize(d)
    ex = wd.preprocess_womd_example(tf.io.parse_single_example(ser, fd), aggregate_timesteps=True)
    st = wf.simulator_state_from_womd_dict({k: np.asarray(v) for k, v in ex.items()})
    got = scenario.flat(st)
    self.compare(ctx, got, fl, t, h, T)
    ctx.probe('reloads')
    ctx.event('reload', t, {k: got[k] for k in ('log.x', 'log.valid')})
    ctx.state(t, plan['how'], tuple(got['log.valid'].sum(0)[:h + 1]))
    s2 = again.reset(st)
    return s2, scenario.flat(s2)

  def derived(self, ctx, d, fl, t, h):
    for part, sl in (('past', slice(t - h, t)), ('current', slice(t, t + 1))):
      ok = fl['sim.valid'][:, sl]
      vx, vy = fl['sim.vel_x'][:, sl].astype(np.float64), fl['sim.vel_y'][:, sl].astype(np.float64)
      with np.errstate(all='ignore'):
        sp, vy_ = np.hypot(vx, vy), np.arctan2(vy, vx)
        good = ep.close(d[f'state/{part}/speed'], sp, atol=1e-3, rtol=1e-5)
        ctx.check(good[ok].all(), 'speed', lambda: f'{part}: {ep.where(ok & ~good)}')
        good = ep.close(d[f'state/{part}/vel_yaw'], vy_, atol=1e-4, angle=True) | (sp < 1e-3)
        ctx.check(good[ok].all(), 'velocity-direction', lambda: f'{part}: {ep.where(ok & ~good)}')

  def validated(self, ctx, fd, s, t, h):
    from jax.experimental import checkify
    from waymax.dataloader import womd_utils
    err, _ = checkify.checkify(lambda x: womd_utils.simulator_state_to_womd_dict(x, fd, validate=True))(s)
    bad = err.get() is not None
    ctx.probe('validated')
    ctx.check(bad == (t != h), 'validate', lambda: f'step {t} with history {h}: {err.get()}')

  def compare(self, ctx, got, fl, t, h, T):
    sl = slice(t - h, t + 1)
    want = fl['sim.valid'][:, sl]
    valid = got['log.valid']
    ctx.check(valid.shape == (want.shape[0], T), 'log-shape', lambda: f'{valid.shape}')
    ctx.check((valid[:, :h + 1] == want).all(), 'presence',
              lambda: f'exported at {t}: object, step {ep.where(valid[:, :h + 1] != want)}')
    ctx.check(not valid[:, h + 1:].any(), 'future', lambda: f'objects present after the exported step: {ep.where(valid[:, h + 1:])}')
    for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'timestamp_micros', 'yaw'):
      a, b = got['log.' + k][:, :h + 1], fl['sim.' + k][:, sl]
      if k == 'yaw':
        ok = ep.close(a, b.astype(np.float64), atol=2e-5, angle=True)
      else:
        with np.errstate(invalid='ignore'):
          ok = (a == b) | ((a != a) & (b != b))
      bad = want & ~ok
      ctx.check(not bad.any(), 'trajectory', lambda: f'{k} exported at {t}: object, step {ep.where(bad)}: {a[bad][:2]} was {b[bad][:2]}')
    for k in ('length', 'width', 'height'):
      a, b = got['log.' + k][:, :h + 1], fl['sim.' + k][:, sl].astype(np.float64)
      cnt = want.sum(1)
      mean = np.where(cnt > 0, (b * want).sum(1) / np.maximum(cnt, 1), 0)[:, None]
      bad = want & ~ep.close(a, np.broadcast_to(mean, a.shape), atol=2e-5, rtol=2e-6)
      ctx.check(not bad.any(), 'size', lambda: f'{k}: object, step {ep.where(bad)}')
    known = fl['meta.is_valid']
    ctx.check((got['meta.is_valid'] == known).all(), 'metadata', lambda: 'is_valid')
    for k in ('ids', 'object_types', 'is_sdc', 'is_modeled', 'objects_of_interest'):
      bad = known & (got['meta.' + k] != fl['meta.' + k])
      ctx.check(not bad.any(), 'metadata', lambda: f'{k} of {ep.where(bad)}')
    for k in ('is_sdc', 'is_modeled'):
      ctx.check(not got['meta.' + k][~known].any(), 'metadata', lambda: f'{k} of an unknown object')
    for k in MAP:
      ctx.check(ep.same(got[k], fl[k]), 'map', k)
    lv = fl['tl.valid'][:, sl]
    ctx.check((got['tl.valid'][:, :h + 1] == lv).all(), 'lights', 'valid')
    ctx.check(not got['tl.valid'][:, h + 1:].any(), 'lights', 'lights known after the exported step')
    for k in ('x', 'y', 'z', 'state', 'lane_ids'):
      bad = lv & (got['tl.' + k][:, :h + 1] != fl['tl.' + k][:, sl])
      ctx.check(not bad.any(), 'lights', lambda: f'{k} light, step {ep.where(bad)}')

  def follow(self, ctx, plan, sim, again, a, fa, b, fb, i):
    """The reloaded scene goes on like the one that did not crash."""
    h, T = plan['cls']['hist'], plan['cls']['t']
    c1, c2 = ep.control_mask(sim.c, fa), ep.control_mask(again.c, fb)
    t = int(fb['timestep'])
    ctx.check(t == h, 'resume-step', lambda: f'{t}')
    both = c1 & c2 & fa['sim.valid'][:, int(fa['timestep'])] & fb['sim.valid'][:, h]
    prev = None
    for j in range(plan['follow']):
      if int(fa['timestep']) >= T - 1 or int(fb['timestep']) >= T - 1 or i + 1 + j >= len(plan['ops']):
        return
      data, valid = ep.deliver(sim, plan['ops'][i + 1 + j], fa, prev, ctx)
      a, b = sim.step(a, sim.action(data, valid)), again.step(b, again.action(data, valid))
      fa, fb = scenario.flat(a), scenario.flat(b)
      x, y = ep.current(fa), ep.current(fb)
      ctx.step()
      only = ep.control_mask(again.c, fb)
      ctx.check(not (y['valid'] & ~only).any(), 'resume-presence', lambda: f'{ep.where(y["valid"] & ~only)} appeared without a log')
      ctx.check(y['valid'][both].all() and x['valid'][both].all(), 'resume-presence', lambda: f'{ep.where(both & ~y["valid"])} vanished')
      for k in ep.DYN5:
        tol = {'x': 2e-3, 'y': 2e-3, 'yaw': 3e-4}.get(k, 2e-2)
        bad = both & ~ep.close(y[k], x[k].astype(np.float64), atol=tol, rtol=1e-5, angle=k == 'yaw')
        ctx.check(not bad.any(), 'resume', lambda: f'{k} of {ep.where(bad)}: {y[k][bad][:2]}, uninterrupted {x[k][bad][:2]}')
      ctx.probe('resumed_steps')
      prev = data, valid

  def nontrivial(self, plan, ctx):
    return ctx.probes['reloads'] > 0


PROP = P()
