"""C02: a step commits exactly one new timestep and nothing else."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', inject=True, init=3),
    ep.cls(dyn='state', ctrl='MODELED', inject=False, init=2, batch=[2]),
    ep.cls(dyn='dlocal', ctrl='VALID', inject=False, init=1, n=5),
    ep.cls(dyn='dglobal', ctrl='SDC', inject=True, init=4, batch=[2, 2], n=4, t=12),
    ep.cls(dyn='disc_dlocal', ctrl='VALID', inject=True, init=3, n=5, t=12),
    ep.cls(env='planning', dyn='bicycle', inject=True, init=3),
    ep.cls(env='planning', dyn='dlocal', inject=False, init=2, batch=[2], n=5),
    ep.cls(dyn='bicycle_norm', ctrl='MODELED', init=3, n=3, t=9, jit=False),
    ep.default_cls(),
]


class P(core.Prop):
  id = 'C02'
  rule = ('a run is one episode from reset to the end of the log (or a prefix) under a faulty '
          'action channel; non-trivial if at least three steps were taken')
  real = ep.REAL
  stub = ep.STUB
  assumptions = ['stepping past the end of the log is outside the property']

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, n=10, t=40, init=11) for c in CLASSES[:7]]
      out += [dict(c, dyn=d) for c in CLASSES[:3] for d in ('dglobal', 'bicycle_tight', 'disc_bicycle')]
    return out

  def runs(self, tier):
    return 112 if tier == 'quick' else 1600

  def gen(self, rng, c, tier):
    steps = c['t'] - c['init'] if rng.random() < .7 else rng.randint(1, c['t'] - c['init'])
    return {'scn': ep.gen_scn(rng, c, dark=True, garbage=rng.choice(['womd', 'finite', 'near', 'nan'])),
            'ops': ep.gen_ops(rng, c, steps)}

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    T = c['t']
    n = 0
    shape = tuple(c['batch'])
    for r in ep.drive(sim, plan, ctx):
      b, a, t = r.before, r.after, r.t
      n += 1
      for key in b:
        ctx.check(key in a and a[key].shape == b[key].shape and a[key].dtype == b[key].dtype,
                  'state-structure', key)
      ctx.check(np.all(a['timestep'] == b['timestep'] + 1) and int(np.ravel(a['timestep'])[0]) == t + 1,
                'clock', lambda: f'{b["timestep"]} -> {a["timestep"]}')
      for key in scenario.FIXED:
        ctx.check(ep.same(a[key], b[key]), 'step-changed-scenario', key)
      for f in scenario.TRAJ:
        x, y = b['sim.' + f], a['sim.' + f]
        ctx.check(ep.same(x[..., :t + 1], y[..., :t + 1]), 'past-rewritten',
                  lambda f=f, x=x, y=y: f'step {t}->{t+1} changed {f} at (…,object,time) '
                  f'{ep.where(x[..., :t + 1] != y[..., :t + 1])}')
        ctx.check(ep.same(x[..., t + 2:], y[..., t + 2:]), 'future-written',
                  lambda f=f: f'step {t}->{t+1} wrote {f} beyond {t+1}')
      for f in ('length', 'width', 'height', 'z'):
        ctx.check(ep.same(a['sim.' + f][..., t + 1], b['sim.' + f][..., t]), 'size-or-height-changed', f)
      ctx.check(ep.same(a['sim.timestamp_micros'][..., t + 1], b['log.timestamp_micros'][..., t + 1]),
                'timestamp', 'timestamp is not the log\'s')
      for s, fl in ((r.state, b), (r.next_state, a)):
        left = T - 1 - int(np.ravel(fl['timestep'])[0])
        tr = np.asarray(sim.truncation(s))
        te = np.asarray(sim.termination(s))
        ctx.check(tr.dtype == bool and np.all(tr == (left == 0)), 'truncation',
                  lambda: f'truncation {tr} with {left} logged steps left')
        ctx.check(te.dtype == bool and not te.any(), 'termination', f'{te}')
        ctx.check(np.all(np.asarray(s.is_done) == (left == 0)), 'is-done', f'{s.is_done} with {left} left')
        ctx.check(np.all(np.asarray(s.remaining_timesteps) == left), 'remaining', f'{s.remaining_timesteps} {left}')
      if left == 0:
        ctx.probe('episode_ran_to_its_end')
        ctx.check(n == T - c['init'], 'episode-length', f'{n} steps')

  def nontrivial(self, plan, ctx):
    return len(plan['ops']) >= 3


PROP = P()
