"""C04: presence follows the log and the injection setting, never the actions."""
import numpy as np

from dst import core
from dst import episodes as ep

CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', inject=True, init=3),
    ep.cls(dyn='bicycle', ctrl='VALID', inject=False, init=3),
    ep.cls(dyn='state', ctrl='MODELED', inject=True, init=2, batch=[2]),
    ep.cls(dyn='state', ctrl='MODELED', inject=False, init=2, n=5),
    ep.cls(dyn='dlocal', ctrl='SDC', inject=True, init=4, n=5),
    ep.cls(dyn='dglobal', ctrl='SDC', inject=False, init=1, batch=[2], n=5),
    ep.cls(env='planning', dyn='bicycle', inject=True, init=3),
    ep.cls(env='planning', dyn='dlocal', inject=False, init=3, n=5),
    ep.default_cls(t=60, n=6),
]


class P(core.Prop):
  id = 'C04'
  rule = ('a run is one episode over a log with objects dropping out, returning and appearing late, '
          'under a faulty action channel; non-trivial if some object changed presence or was absent')
  real = ep.REAL
  stub = ep.STUB
  assumptions = []

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, n=16, t=40, init=11) for c in CLASSES]
    return out

  def runs(self, tier):
    return 128 if tier == 'quick' else 2000

  def gen(self, rng, c, tier):
    over = {}
    if rng.random() < .5:
      over['presence'] = rng.choice(['flicker', 'late', 'mix'])
    if rng.random() < .4:
      over['sdc_dropout'] = True
    return {'scn': ep.gen_scn(rng, c, dark=True, garbage=rng.choice(['womd', 'finite', 'near', 'nan']), **over),
            'ops': ep.gen_ops(rng, c, rng.randint(2, c['t'] - c['init']))}

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    for r in ep.drive(sim, plan, ctx):
      t = r.t
      cur, got = r.before['sim.valid'][..., t], r.after['sim.valid'][..., t + 1]
      log = r.before['log.valid'][..., t + 1]
      want = ep.next_valid(c, r.before, r.ctrl)
      ctx.probe('controlled_kept_beyond_log', int((r.ctrl & cur & ~log).sum()))
      ctx.probe('object_left', int((cur & ~want).sum()))
      ctx.probe('object_injected', int((~cur & want).sum()))
      ctx.probe('object_not_readmitted', int((~cur & log & ~want).sum()))
      bad = got != want
      ctx.check(not bad.any(), 'presence',
                lambda: f'at step {t+1} presence is {got[bad][:3]} for {ep.where(bad)}: was '
                f'{cur[bad][:3]}, log has {log[bad][:3]}, controlled {r.ctrl[bad][:3]}, '
                f'injection {"on" if c["inject"] else "off"}')

  def nontrivial(self, plan, ctx):
    return sum(ctx.probes.values()) > 0


PROP = P()
