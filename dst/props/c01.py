"""C01: reset replays exactly the logged warm-up, whatever state it is given."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario


class P(core.Prop):
  id = 'C01'
  rule = ('a run resets, steps a random number of times with faulty commands, then resets again from '
          'a fresh, half-finished, finished or restored state, several times; non-trivial if at '
          'least one reset started from a used state')
  real = ep.REAL
  stub = ep.STUB
  assumptions = ['warm-up no longer than the log', 'one SDC per scenario']
  list_keys = ('ops',)

  def classes(self, tier):
    out = [ep.cls(dyn='bicycle', ctrl='VALID', init=3),
           ep.cls(dyn='state', ctrl='SDC', init=1, inject=False),
           ep.cls(dyn='dlocal', ctrl='MODELED', init=11, t=16, batch=[2]),
           ep.cls(dyn='dglobal', ctrl='VALID', init=16, t=16),
           ep.cls(env='planning', dyn='bicycle', init=2, n=5),
           ep.cls(env='planning', dyn='state', init=5, batch=[2, 2], n=4, inject=False),
           ep.cls(dyn='bicycle_norm', ctrl='VALID', init=15, t=16, n=3, batch=[1]),
           ep.cls(dyn='disc_bicycle', ctrl='SDC', init=4, n=7, t=12, jit=False),
           ep.default_cls(t=30)]
    if tier == 'thorough':
      out += [dict(c, init=k) for c in out[:7] for k in (1, 2, 7, 12)]
      out += [dict(c, n=12, t=30) for c in out[:4]]
    return out

  def runs(self, tier):
    return 96 if tier == 'quick' else 1600

  def gen(self, rng, c, tier):
    ops = []
    for _ in range(rng.randint(3, 6)):
      ops.append({'op': 'reset', 'from': rng.choice(['fresh', 'used', 'used', 'restored', 'garbled'])})
      for o in ep.gen_ops(rng, c, rng.choice([0, 1, 2, 5, c['t']])):
        ops.append(dict(o, op='step'))
    ops.append({'op': 'reset', 'from': 'used'})
    garb = rng.choice(['womd', 'finite', 'near', 'nan'])
    return {'scn': ep.gen_scn(rng, c, dark=True, garbage=garb), 'ops': ops}

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    arrs = sim.arrays(plan['scn'])
    pristine = scenario.state(arrs)
    s = pristine
    fl = None
    prev = None
    k = c['init']
    for op in plan['ops']:
      if op['op'] == 'reset':
        src = op['from'] if fl is not None else 'fresh'
        given = pristine
        if src == 'used':
          given = s
          ctx.probe('reset_at_end' if int(fl['timestep']) == c['t'] - 1 else 'reset_midway')
        elif src == 'restored':
          given = scenario.unflat(fl)
          ctx.fault('crash_restore')
        elif src == 'garbled':
          g = dict(fl)
          r = np.random.RandomState(int(fl['timestep']) + 7)
          for f in scenario.TRAJ:
            a = g['sim.' + f]
            if f == 'valid':
              g['sim.' + f] = r.rand(*a.shape) < .5
            elif f != 'timestamp_micros':
              g['sim.' + f] = r.uniform(-99, 99, a.shape).astype(a.dtype)
          given = scenario.unflat(dict(g, timestep=np.int32(r.randint(-1, c['t']))))
          ctx.fault('stale_simulation_content')
        s = sim.reset(given)
        fl = scenario.flat(s)
        prev = None
        ctx.event('reset', fl)
        ctx.step(0)
        self.check_reset(ctx, c, arrs, fl)
        fl2 = scenario.flat(sim.reset(s))
        for key in fl:
          ctx.check(ep.same(fl[key], fl2[key]), 'reset-not-idempotent', key)
      elif fl is not None and int(fl['timestep']) < c['t'] - 1:
        data, valid = ep.deliver(sim, op, fl, prev, ctx)
        prev = (data, valid)
        s = sim.step(s, sim.action(data, valid))
        fl = scenario.flat(s)
        ctx.step(sim.lanes())
        ctx.event('step', fl['sim.x'])
        ctx.state(int(fl['timestep']), op['m'])

  def check_reset(self, ctx, c, arrs, fl):
    k = c['init']
    ctx.check(np.all(fl['timestep'] == k - 1), 'clock-after-reset',
              lambda: f'timestep {fl["timestep"]} after a warm-up of {k} steps')
    for f in scenario.TRAJ:
      got, log = fl['sim.' + f], arrs['log.' + f]
      ctx.check(got.shape == log.shape, 'reset-shape', f'{f} {got.shape} {log.shape}')
      ctx.check(ep.same(got[..., :k], log[..., :k]), 'warmup-not-log',
                lambda f=f, got=got, log=log: f'{f} differs from the log in warm-up at '
                f'{ep.where(got[..., :k] != log[..., :k])}')
    ctx.check(not fl['sim.valid'][..., k:].any(), 'future-valid-after-reset',
              lambda: f'valid after warm-up at {ep.where(fl["sim.valid"][..., k:])}')
    for f in scenario.TRAJ:
      if f != 'valid':
        fut = fl['sim.' + f][..., k:]
        ctx.check(bool(np.all(fut == -1)), 'future-not-cleared',
                  lambda f=f, fut=fut: f'{f} holds {fut[fut != -1][:3]} after warm-up')
    for key in scenario.FIXED:
      ctx.check(ep.same(fl[key], arrs[key]), 'reset-changed-scenario', key)

  def nontrivial(self, plan, ctx):
    return sum(o['op'] == 'reset' for o in plan['ops']) > 1 and ctx.checks > 50


PROP = P()
