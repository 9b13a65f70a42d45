"""C03: uncontrolled objects replay the log; commands do not cross objects."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

CLASSES = [
    ep.cls(dyn='bicycle', ctrl='MODELED', inject=True, init=3),
    ep.cls(dyn='bicycle', ctrl='VALID', inject=False, init=3),
    ep.cls(dyn='state', ctrl='VALID', inject=True, init=2, batch=[2]),
    ep.cls(dyn='dlocal', ctrl='SDC', inject=False, init=4, n=5),
    ep.cls(dyn='dglobal', ctrl='MODELED', inject=False, init=1, batch=[2], n=5),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', inject=True, init=3, n=5, t=12),
    ep.cls(dyn='bicycle_norm', ctrl='SDC', inject=True, init=3, batch=[2, 2], n=4, t=12),
    ep.cls(dyn='dlocal', ctrl='VALID', inject=True, init=5, n=6, t=14),
    ep.default_cls(t=40, n=5),
]


class P(core.Prop):
  id = 'C03'
  rule = ('a run is two episodes with the same nominal commands, one through a clean channel and one '
          'where faults hit only a chosen subset of objects; non-trivial if a fault fired or an '
          'uncontrolled object was present')
  real = ep.REAL
  stub = ep.STUB
  assumptions = []

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, n=12, t=40, init=11) for c in CLASSES]
      out += [dict(c, ctrl=k) for c in CLASSES[:5] for k in ('SDC', 'VALID', 'MODELED') if k != c['ctrl']]
    return out

  def runs(self, tier):
    return 112 if tier == 'quick' else 1600

  def gen(self, rng, c, tier):
    steps = rng.randint(2, c['t'] - c['init'])
    return {'scn': ep.gen_scn(rng, c, dark=True), 'ops': ep.gen_ops(rng, c, steps, rate=rng.choice((.3, .6, 1.))),
            'victims': rng.randrange(2**31)}

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    shape = tuple(c['batch']) + (c['n'],)
    victims = np.random.RandomState(plan['victims']).rand(*shape) < .5
    clean = dict(plan, ops=[dict(o, faults=[]) for o in plan['ops']])
    quiet = core.Ctx(ctx.cache)
    if c['dyn'] == 'state':  # nominal state commands derive from the state: record them
      runs = zip(ep.drive(sim, clean, quiet), self.faulty_state(sim, plan, ctx, victims))
    else:
      runs = zip(ep.drive(sim, clean, quiet), ep.drive(sim, plan, ctx, only=victims))
    for r0, r in runs:
      t = r.t
      nxt = ep.current(r.after, at=t + 1)
      log = ep.current(r.after, 'log', at=t + 1)
      free = ~r.ctrl & nxt['valid']
      ctx.probe('uncontrolled_present', int(free.sum()))
      for f in ep.DYN5:
        ctx.check(ep.same(nxt[f][free], log[f][free]), 'uncontrolled-left-log',
                  lambda f=f: f'{f} of an uncontrolled object is not the log\'s at step {t+1}: '
                  f'{ep.where(free & (nxt[f] != log[f]))}')
      base = ep.current(r0.after, at=t + 1)
      safe = ~(victims & r.ctrl)
      ctx.check(ep.same(base['valid'][safe], nxt['valid'][safe]), 'fault-crossed-objects', 'valid')
      m = safe & nxt['valid']
      for f in ep.DYN5:
        bad = m & ~ep.close(nxt[f], base[f], atol=1e-6, rtol=1e-6)
        ctx.check(not bad.any(), 'fault-crossed-objects',
                  lambda f=f: f'commands of other objects changed {f} at step {t+1}: {ep.where(bad)}')

  def faulty_state(self, sim, plan, ctx, victims):
    """As drive(), with nominal commands taken from the clean episode."""
    c = plan['cls']
    clean = []
    s, fl = ep.start(sim, plan, core.Ctx())
    for op in plan['ops'][:c['t'] - c['init']]:
      clean.append(ep.nominal(sim, op, fl))
      s = sim.step(s, sim.action(*clean[-1]))
      fl = scenario.flat(s)
    s, fl = ep.start(sim, plan, ctx)
    prev = None
    for i, (op, (d0, v0)) in enumerate(zip(plan['ops'], clean)):
      d, v = ep.deliver(sim, op, fl, prev, ctx, only=victims)
      keep = ~victims
      d[keep], v[keep] = d0[keep], v0[keep]
      s2 = sim.step(s, sim.action(d, v))
      r = ep.Step()
      r.i, r.t, r.before = i, int(fl['timestep']), fl
      r.after = scenario.flat(s2)
      r.ctrl = ep.control_mask(c, fl)
      ctx.step(sim.lanes())
      ctx.event('step', r.after['sim.x'])
      ctx.state(op['m'], tuple(f['k'] for f in op['faults']))
      yield r
      s, fl, prev = s2, r.after, (d, v)

  def nontrivial(self, plan, ctx):
    return bool(ctx.faults) or ctx.probes['uncontrolled_present'] > 0


PROP = P()
