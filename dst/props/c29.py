"""C29: rendering never disturbs the simulation and releases what it takes."""
import json
import os

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario
from dst import storage

S = dict(p=40, tl=3, npath=3, ppath=8, metrics=['log_divergence', 'overlap', 'offroad'], rewards={'overlap': -1.})
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', n=6, t=12, **S),
    ep.cls(dyn='dlocal', ctrl='SDC', n=5, t=10, init=2, batch=[2], inject=False, **S),
    ep.cls(env='planning', dyn='bicycle', n=5, t=12, **S),
    ep.cls(env='planning', dyn='dglobal', n=4, t=10, init=1, batch=[2], **S),
    ep.cls(dyn='state', ctrl='MODELED', n=1, t=8, **S),
]
KINDS = ('state', 'state', 'state', 'obs', 'obs', 'brax')


def gen_shot(rng, c):
  k = rng.choice(KINDS + (('brax', 'brax') if c['env'] == 'planning' else ()))
  if k == 'brax' and c['env'] != 'planning':
    k = 'state'
  return {'k': k, 'log': rng.random() < .4, 'size': [rng.choice((12., 25., 40., 60.)) for _ in range(4)], 'px': rng.choice((2., 2., 4.)),
          'ids': rng.random() < .4, 'center': rng.choice((-1, -1, 0, 1)) if c['n'] > 1 else -1, 'lane': rng.randrange(8),
          'hl': rng.choice(('SDC', 'MODELED', 'VALID')), 'host': rng.random() < .4, 'obs': [rng.randint(1, 4), rng.randrange(8)],
          'then': rng.sample(('again', 'absent', 'move', 'other', 'save', 'default', 'box', 'box', 'map', 'map'), rng.choice((1, 2, 3, 4))), 's': rng.randrange(2**31)}


class P(core.Prop):
  id = 'C29'
  rule = ('a run interleaves rendering with stepping, beside an identical world that is never rendered and beside '
          'figures of the user; non-trivial if an image was judged')
  real = ep.REAL + ['waymax.visualization', 'matplotlib (Agg)', 'waymax.env.wrappers.brax_wrapper']
  stub = ep.STUB
  assumptions = ['image sizes agree up to one pixel of rounding', 'rendering that fails (no image) is not judged',
                 'shown objects that move by two metres in view change the image']
  class_cost = 2

  def classes(self, tier):
    return CLASSES

  def runs(self, tier):
    return 80 if tier == 'quick' else 900

  def gen(self, rng, c, tier):
    ops = ep.gen_ops(rng, c, rng.randint(1, min(5, c['t'] - c['init'])), faults=('lost', 'stale', 'corrupt', 'lost_garbage'))
    for op in ops:
      op['shots'] = [gen_shot(rng, c) for _ in range(rng.choice((0, 1, 1, 2)))]
    if not any(op['shots'] for op in ops):
      ops[-1]['shots'] = [gen_shot(rng, c)]
    return {'scn': ep.gen_scn(rng, c, offset=rng.choice((0., 120.)), garbage=rng.choice(('womd', 'finite', 'near'))),
            'ops': ops, 'user': rng.choice((0, 1, 2))}

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      import jax
      from waymax.env.wrappers import brax_wrapper
      sim = ep.Sim(c)
      w = brax_wrapper.BraxWrapper(sim.env, sim.dyn, sim.config)
      sim.b_reset, sim.b_step = jax.jit(w.reset), jax.jit(w.step)
      ctx.cache[key] = sim
    return ctx.cache[key]

  def execute(self, plan, ctx):
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
      self.go(plan, ctx, plt)
    finally:
      plt.close('all')

  def go(self, plan, ctx, plt):
    c = plan['cls']
    sim = self.world(ctx, c)
    user = []
    for i in range(plan['user']):
      f = plt.figure(figsize=(1, 1))
      f.gca().plot([0, 1], [i, 2])
      f.canvas.draw()
      user.append((f, np.array(f.canvas.buffer_rgba()), len(f.axes), len(f.axes[0].lines)))
      ctx.fault('user_figure')
    rc = dict(plt.rcParams)
    s = sim.state(plan['scn'])
    a, b = sim.b_reset(s), sim.b_reset(s)
    prev = None
    for op in plan['ops']:
      fl = scenario.flat(a.state)
      for shot in op['shots']:
        before = self.arrays(a)
        self.shot(ctx, c, plan, sim, a, shot, plt)
        ctx.check(plt.get_fignums() == [f.number for f, *_ in user], 'figure-left',
                  lambda: f'open figures {plt.get_fignums()} after {shot["k"]}, the user has {[f.number for f, *_ in user]}')
        if user:
          ctx.check(plt.gcf() is user[-1][0], 'current-figure', 'the current figure is another one after rendering')
        for x, y in zip(before, self.arrays(a)):
          ctx.check(ep.same(x, y), 'state-changed', f'rendering {shot["k"]} changed the state it showed')
      data, valid = ep.deliver(sim, op, fl, prev, ctx)
      prev = data, valid
      act = sim.action(data, valid)
      a, b = sim.b_step(a, act), sim.b_step(b, act)
      ctx.step(sim.lanes())
      ctx.event('step', scenario.flat(a.state)['sim.x'])
      for x, y in zip(self.arrays(a), self.arrays(b)):
        ctx.check(ep.same(x, y), 'later-results', 'a world that is rendered differs from one that is not')
    for f, img, na, nl in user:
      f.canvas.draw()
      ok = len(f.axes) == na and len(f.axes[0].lines) == nl and np.array_equal(np.array(f.canvas.buffer_rgba()), img)
      ctx.check(ok, 'user-figure', 'something was drawn into a figure of the user')
    now = dict(plt.rcParams)
    ctx.check(all(str(now[k]) == str(v) for k, v in rc.items()), 'plot-settings', lambda: str([k for k in rc if str(now[k]) != str(rc[k])][:3]))

  def arrays(self, ts):
    import jax
    return [np.array(x) for x in jax.tree_util.tree_leaves(ts)]

  # ---------------------------------------------------------------- one image

  def shot(self, ctx, c, plan, sim, ts, sh, plt):
    import jax
    from waymax import config
    from waymax.visualization import viz
    batch = tuple(c['batch'])
    lane = sh['lane'] % batch[0] if batch else -1
    fx, bx, fy, by = sh['size']
    vc = dict(front_x=fx, back_x=bx, front_y=fy, back_y=by, px_per_meter=sh['px'], show_agent_id=sh['ids'], center_agent_idx=sh['center'])
    hl = config.ObjectType[sh['hl']]
    st = ts.state
    host = (lambda o: jax.tree_util.tree_map(np.array, o)) if sh['host'] else (lambda o: o)
    if sh['host']:
      ctx.fault('host_copy')
    alone = lambda o: jax.tree_util.tree_map(lambda x: x[lane] if np.ndim(x) else x, o) if batch else o
    w, j = sh['obs']
    j %= c['n']

    def draw(state, idx, cfg=vc):
      if sh['k'] == 'state':
        return viz.plot_simulator_state(host(state), use_log_traj=sh['log'], viz_config=None if cfg is None else dict(cfg), batch_idx=idx, highlight_obj=hl)
      if sh['k'] == 'obs':
        o = self.observer(ctx, w)(state)
        return viz.plot_observation(host(o), j, viz_config=None if cfg is None else dict(cfg), batch_idx=idx, highlight_obj=hl)
      t2 = ts.replace(state=state)
      return viz.plot_single_agent_brax_timestep(host(t2), use_log_traj=sh['log'], viz_config=None if cfg is None else dict(cfg), batch_idx=idx)

    img = draw(st, lane)
    self.sound(ctx, img, (fx + bx) * sh['px'], (fy + by) * sh['px'])
    ctx.probe('images_' + sh['k'])
    ctx.event('image', sh['k'], img.shape)
    ctx.state(sh['k'], sh['log'], sh['center'], lane, tuple(sh['then']), int(np.asarray(st.timestep).reshape(-1)[0]))
    fl = scenario.flat(alone(st))
    t = int(fl['timestep'])
    for what in sh['then']:
      if what == 'again':
        if lane >= 0 and sh['k'] != 'brax':
          again = draw(alone(st), -1)
          ctx.probe('alone')
        else:
          self.sound(ctx, draw(st, lane, dict(vc, px_per_meter=3.)), (fx + bx) * 3, (fy + by) * 3)
          again = draw(st, lane)
        self.equal(ctx, again, img, 'not-repeatable', 'the same view rendered again (alone, or after another one) differs')
      elif what == 'default':
        self.sound(ctx, draw(st, lane, None), 600, 600)
      elif what == 'save':
        from waymax.visualization import utils
        from PIL import Image
        with storage.disk() as dk:
          path = os.path.join(dk.root, 'a', 'b', 'img.png')
          if sh['s'] % 2:
            utils.save_img_as_png(255 - img, path)  # (an older image at the same place)
          utils.save_img_as_png(img, path)
          self.equal(ctx, np.asarray(Image.open(path).convert('RGB')), img, 'saved', 'the saved image differs')
      elif what in ('absent', 'move', 'other') and lane < 0 and sh['k'] != 'obs':
        self.variant(ctx, c, sh, st, fl, t, draw, img, what, (fx, bx, fy, by))

      elif what == 'box' and lane < 0 and sh['k'] != 'obs' and c['n'] > 1:
        self.box(ctx, c, sh, st, fl, t, draw)

      elif what == 'map' and lane < 0 and sh['k'] != 'obs':
        self.map(ctx, c, sh, st, fl, t, draw, hl)

  def map(self, ctx, c, sh, st, fl, t, draw, hl):
    """One light or map point near the object in the middle, and the highlighting of objects."""
    r = np.random.RandomState(sh['s'])
    tr = 'log' if sh['log'] else 'sim'
    keep = int(np.argmax(fl['meta.is_sdc'])) if sh['center'] == -1 else sh['center']
    at = np.array([fl[tr + '.x'][keep, t], fl[tr + '.y'][keep, t]], np.float64)
    if not np.isfinite(at).all():
      return
    cfg = dict(front_x=24., back_x=22., front_y=26., back_y=24., px_per_meter=8., show_agent_id=False, center_agent_idx=sh['center'])
    pre = 'tl' if r.rand() < .6 or not fl['rg.x'].size else 'rg'
    j = r.randint(len(fl[pre + '.x']))
    kind = r.choice((1, 3, 4, 6) if pre == 'tl' else (1, 2, 3, 15, 16, 17, 18, 19))
    a = r.uniform(-np.pi, np.pi)
    off = r.uniform(6, 12) * np.array([np.cos(a), np.sin(a)])
    now = (j, t) if pre == 'tl' else (j,)

    def view(there, shift=(0., 0.), middle=False, other=None):
      new = {k: v.copy() for k, v in fl.items()}
      new[tr + '.valid'][:] = False
      new[tr + '.valid'][keep, t] = middle
      new[tr + '.length'][keep, t], new[tr + '.width'][keep, t], new[tr + '.yaw'][keep, t] = 4, 2, 0
      for k in ('tl', 'rg', 'path'):
        new[k + '.valid'][:] = False
      new[pre + '.x'][now], new[pre + '.y'][now] = at + off + shift
      new[pre + ('.state' if pre == 'tl' else '.types')][now] = kind if other is None else other
      if there == 'then':  # (present at other times only)
        new['tl.valid'][j] = True
        new['tl.x'][j], new['tl.y'][j] = at + off
      new[pre + '.valid'][now] = there is True
      return draw(rebuild(st, new), -1, cfg).astype(np.int32)

    def mark(img):
      ys, xs = np.nonzero(np.abs(img - empty).sum(-1) > 25)
      return None if not len(xs) else np.array([xs.min() + xs.max(), ys.min() + ys.max()]) / 2
    empty = view(False)
    say = f'{"light" if pre == "tl" else "map point"} {j} of kind {kind}'
    one, two, mid = mark(view(True)), mark(view(True, (-off[0], 0.))), mark(view(False, middle=True))
    three = mark(view(True, (0., -off[1])))
    ctx.check(one is not None and two is not None and three is not None and mid is not None, 'not-shown', lambda: f'{say} is present in view at step {t}, the image does not show it')
    # two and three lie beside and above or below the object in the middle
    ctx.check(abs(two[0] - mid[0]) <= 2.5 and abs(three[1] - mid[1]) <= 2.5 and abs(one[1] - two[1]) <= 1.5 and abs(one[0] - three[0]) <= 1.5,
              'mark-place', lambda: f'{say} at {np.round(off, 1)} m from the middle, then on either axis: {one, two, three}, middle {mid}')
    for k, sign in ((0, 1), (1, -1)):
      if abs(off[k]) > 3:
        s = sign * (one - mid)[k] / off[k]
        ctx.check(4 < s < 9, 'mark-place', lambda: f'{say} at {np.round(off, 1)} m is {one - mid} pixels away at 8 pixels per metre')
    if pre == 'tl':
      if fl['tl.valid'].shape[-1] > 1:
        ctx.check(np.array_equal(view('then'), empty), 'shows-absent', lambda: f'{say} is absent at step {t}, but shown')
      if kind in (1, 4, 3, 6):
        stop, go = view(True, other=r.choice((1, 4))), view(True, other=r.choice((3, 6)))
        ctx.check(not np.array_equal(stop, go), 'light-colour', 'a light on stop and one on go look alike')
    ctx.probe('marks_' + pre)
    if sh['k'] == 'state' and sh['hl'] != 'SDC':
      field = {'MODELED': 'is_modeled', 'VALID': 'is_valid'}[sh['hl']]
      m = st.object_metadata
      lit = []
      for on in (True, False):
        flags = np.array(getattr(m, field))
        flags[keep] = on
        st = st.replace(object_metadata=m.replace(**{field: flags}))
        lit.append(view(False, middle=True))
      ctx.check(not np.array_equal(*lit), 'not-highlighted', lambda: f'object {keep} looks alike whether or not it is {sh["hl"]}')

  def box(self, ctx, c, sh, st, fl, t, draw):
    """One object beside the one in the middle: its box is where, as large and as oriented as it is."""
    r = np.random.RandomState(sh['s'])
    tr = 'log' if sh['log'] else 'sim'
    keep = int(np.argmax(fl['meta.is_sdc'])) if sh['center'] == -1 else sh['center']
    if not (np.isfinite(fl[tr + '.x'][keep, t]) and np.isfinite(fl[tr + '.y'][keep, t])):
      return
    i = r.choice([k for k in range(c['n']) if k != keep])
    cfg = dict(front_x=24., back_x=22., front_y=26., back_y=24., px_per_meter=8., show_agent_id=False, center_agent_idx=sh['center'])
    a = r.uniform(-np.pi, np.pi)
    at = np.array([fl[tr + '.x'][keep, t], fl[tr + '.y'][keep, t]], np.float64) + r.uniform(9, 12) * np.array([np.cos(a), np.sin(a)])
    ln, wd, yaw = r.uniform(4, 8), r.uniform(1.5, 3), r.uniform(-np.pi, np.pi)

    def view(there, dx=0., dy=0., middle=True):
      new = {k: v.copy() for k, v in fl.items()}
      new[tr + '.valid'][:] = False
      new[tr + '.valid'][keep, t] = middle
      new[tr + '.valid'][i, t] = there
      new[tr + '.length'][keep, t], new[tr + '.width'][keep, t], new[tr + '.yaw'][keep, t] = 4, 2, yaw - 1
      for k, v in (('x', at[0] + dx), ('y', at[1] + dy), ('length', ln), ('width', wd), ('yaw', yaw)):
        new[f'{tr}.{k}'][i, t] = v
      return draw(rebuild(st, new), -1, cfg).astype(np.int32)

    empty = view(False)
    cloud = []
    for d in ((0, 0), (3, 0), (0, 3)):
      img = view(True, *d)
      ys, xs = np.nonzero(np.abs(img - empty).sum(-1) > 60)
      ctx.check(len(xs) > 20, 'not-shown', f'object {i} is present in view at step {t} of the {tr}, the image does not show it')
      cloud.append(np.stack([xs, ys], -1).astype(np.float64))
    mid = [(q.min(0) + q.max(0)) / 2 for q in cloud]
    # metres per pixel along both axes (y grows upwards in the world)
    sx, sy = (mid[1] - mid[0])[0] / 3, -(mid[2] - mid[0])[1] / 3
    still = abs((mid[1] - mid[0])[1]) <= 1 and abs((mid[2] - mid[0])[0]) <= 1
    ctx.check(still and 4 < sx < 9 and 4 < sy < 9, 'box-place', lambda: f'3 m along x and y shift the box by {mid[1] - mid[0]} and {mid[2] - mid[0]} pixels at 8 pixels per metre')
    rel = (cloud[0] - mid[0]) * [1 / sx, -1 / sy]
    lon = rel @ [np.cos(yaw), np.sin(yaw)]
    lat = rel @ [-np.sin(yaw), np.cos(yaw)]
    tol = .4
    got = [lon.min(), lon.max(), lat.min(), lat.max()]
    ctx.check(np.all(np.abs(np.array(got) - [-ln / 2, ln / 2, -wd / 2, wd / 2]) < tol), 'box-shape',
              lambda: f'a box of {ln:.2f} x {wd:.2f} m with heading {yaw:.2f} spans {np.round(got, 2)} m lengthwise and across')
    for u in (-1, 1):
      for v in (-1, 1):
        near = np.hypot(lon - u * ln / 2, lat - v * wd / 2).min()
        ctx.check(near < tol, 'box-shape', lambda: f'the nearest painted pixel is {near:.2f} m from corner {u, v}')
    inner = np.abs(lat) < wd / 2 - .45
    front, back = (int((inner & (s * lon > .5) & (s * lon < ln / 2 - .5)).sum()) for s in (1, -1))
    ctx.check(front > back, 'box-heading', lambda: f'{front} pixels mark the front half, {back} the rear half')
    # drawn over the object in the middle it stands out
    def colour(img):
      px = img[np.abs(img - empty).sum(-1) > 60]
      vals, counts = np.unique(px.reshape(-1, 3), axis=0, return_counts=True)
      return vals[np.argmax(counts)].tolist()
    off = [fl[tr + '.x'][keep, t], fl[tr + '.y'][keep, t]] - at
    plain, over = colour(view(True)), colour(view(True, off[0] + .4, off[1] + .3))
    ctx.check(plain != over, 'overlap-unmarked', lambda: f'object {i} alone and overlapping object {keep} is drawn in the same colour {plain}')
    # it is away from the object in the middle as far as it is in the world
    ys, xs = np.nonzero(np.abs(view(False, middle=False) - empty).sum(-1) > 60)
    ctx.check(len(xs) > 20, 'not-shown', f'object {keep} is present in view at step {t} of the {tr}, the image does not show it')
    apart = (mid[0] - [(xs.min() + xs.max()) / 2, (ys.min() + ys.max()) / 2]) / [sx, -sy]
    want = at - [fl[tr + '.x'][keep, t], fl[tr + '.y'][keep, t]]
    ctx.check(np.all(np.abs(apart - want) < .8), 'box-place', lambda: f'the box is drawn {np.round(apart, 2)} m from the object in the middle, it is {np.round(want, 2)} m away')
    ctx.probe('boxes')

  def observer(self, ctx, w):
    key = f'observer{w}'
    if key not in ctx.cache:
      import functools
      import jax
      from waymax import config
      from waymax import datatypes as d
      ctx.cache[key] = jax.jit(functools.partial(d.observation_from_state, obs_num_steps=w, roadgraph_top_k=10,
                                                 coordinate_frame=config.CoordinateFrame.OBJECT))
    return ctx.cache[key]

  def variant(self, ctx, c, sh, st, fl, t, draw, img, what, box):
    r = np.random.RandomState(sh['s'])
    tr, ot = ('log', 'sim') if sh['log'] else ('sim', 'log')
    keep = int(np.argmax(fl['meta.is_sdc'])) if sh['center'] == -1 else sh['center']
    new = {k: v.copy() for k, v in fl.items()}
    if what == 'move':
      x, y, ok = (fl[f'{tr}.{k}'][:, t] for k in ('x', 'y', 'valid'))
      dx, dy = x - x[keep], y - y[keep]
      fx, bx, fy, by = box
      see = ok & ok[keep] & (dx < .5 * fx) & (dx > -.6 * bx) & (dy < .5 * fy) & (dy > -.6 * by)
      see &= fl[tr + '.length'][:, t] > 0
      see[keep] = False
      if not see.any():
        return
      i = int(np.flatnonzero(see)[0])
      new[tr + '.x'][i, t] += 2
      new[tr + '.y'][i, t] += 1
      ctx.probe('moved')
      other = draw(rebuild(st, new), -1)
      ctx.check(other.shape == img.shape and not np.array_equal(other, img), 'not-shown', lambda: f'object {i} in view moved at step {t} of the {tr}, the image did not change')
      return
    if what == 'other':
      for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
        new[f'{ot}.{k}'] += r.uniform(-9, 9, new[f'{ot}.{k}'].shape).astype(np.float32)
      new[ot + '.valid'] ^= True
      say = f'the {ot} changed, the {tr} is shown'
      ctx.probe('other_trajectory')
    else:
      gone = ~fl[tr + '.valid']
      gone[keep] = False
      for k in ('x', 'y', 'yaw', 'length', 'width'):
        a = new[f'{tr}.{k}']
        a[gone] = (r.uniform(1, 4, gone.sum()) if k in ('length', 'width') else
                   (a[keep, t] if k != 'yaw' else 0) + r.uniform(-9, 9, gone.sum()))
      lost = ~fl['tl.valid']
      for k in 'xy':
        new['tl.' + k][lost] = fl[f'{tr}.{k}'][keep, t] + r.uniform(-9, 9, lost.sum())
      new['tl.state'][lost] = r.randint(0, 9, lost.sum())
      off = ~fl['rg.valid']
      for k in 'xy':
        new['rg.' + k][off] = fl[f'{tr}.{k}'][keep, t] + r.uniform(-9, 9, off.sum())
      new['rg.types'][off] = r.choice([1, 2, 15, 17], off.sum())
      nop = ~fl['path.valid']
      for k in 'xy':
        new['path.' + k][nop] = fl[f'{tr}.{k}'][keep, t] + r.uniform(-9, 9, nop.sum())
      say = 'only absent entries changed'
      ctx.fault('absent_entries_scrambled', int(gone.sum() + lost.sum() + off.sum()))
    self.equal(ctx, draw(rebuild(st, new), -1), img, 'shows-' + what, say + ', but the image did too')

  def sound(self, ctx, img, w, h):
    ok = isinstance(img, np.ndarray) and img.ndim == 3 and img.shape[2] == 3 and img.dtype == np.uint8
    ctx.check(ok, 'image-kind', lambda: f'{type(img)} {getattr(img, "shape", None)}')
    ctx.check(abs(img.shape[0] - h) <= 1 and abs(img.shape[1] - w) <= 1, 'image-size', lambda: f'{img.shape}, configured {h} x {w}')
    ctx.check(img.min() != img.max(), 'image-blank', 'nothing drawn')

  def equal(self, ctx, a, b, kind, detail):
    ctx.check(np.shape(a) == np.shape(b) and np.array_equal(a, b), kind, detail)

  def nontrivial(self, plan, ctx):
    return any(k.startswith('images') for k in ctx.probes)


def rebuild(st, fl):
  import jax.numpy as jnp
  rep = lambda o, pre, fs: o.replace(**{f: jnp.asarray(fl[f'{pre}.{f}']) for f in fs})
  return st.replace(sim_trajectory=rep(st.sim_trajectory, 'sim', scenario.TRAJ), log_trajectory=rep(st.log_trajectory, 'log', scenario.TRAJ),
                    log_traffic_light=rep(st.log_traffic_light, 'tl', scenario.TLF),
                    roadgraph_points=rep(st.roadgraph_points, 'rg', scenario.RGF), sdc_paths=rep(st.sdc_paths, 'path', scenario.PATHF))


PROP = P()
