"""C11: the Brax adapter reports the wrapped environment step for step."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario

M = ['log_divergence', 'overlap', 'offroad', 'sdc_progression']
RW = {'overlap': -1.0, 'log_divergence': -.3, 'offroad': -.5}
S = dict(metrics=M, rewards=RW, p=30, npath=2, ppath=8)
CLASSES = [
    ep.cls(env='base', dyn='bicycle', ctrl='VALID', init=3, t=9, n=3, **S),
    ep.cls(env='base', dyn='dlocal', ctrl='MODELED', init=2, t=8, n=3, batch=[2], **S),
    ep.cls(env='planning', dyn='bicycle', init=3, t=9, n=4, agents=['even', 'blink'], **S),
    ep.cls(env='planning', dyn='dglobal', init=1, t=8, n=3, batch=[2, 1], **S),
    ep.cls(env='base', dyn='state', ctrl='SDC', init=2, t=12, n=3, term=True, **S),
    ep.cls(env='planning', dyn='disc_bicycle', init=2, t=9, n=3, batch=[3], term=True, observe=True, **S),
    ep.cls(env='base', dyn='bicycle_norm', ctrl='VALID', init=4, t=10, n=2, observe=True, compute_reward=False, inject=False, **S),
]


class P(core.Prop):
  id = 'C11'
  rule = ('a run steps the adapter along a random tree of timesteps (stepping again from older ones, '
          'interleaved with other scenarios) and compares with the wrapped environment; non-trivial if at least one step')
  real = ep.REAL + ['waymax.env.wrappers.brax_wrapper', 'waymax.rewards', 'waymax.metrics']
  stub = ep.STUB
  assumptions = ['equal up to float32 rounding; metric values at decision boundaries come from the same program']
  list_keys = ('ops',)
  class_cost = 4

  def classes(self, tier):
    return CLASSES if tier == 'quick' else CLASSES + [dict(c, t=c['t'] + 10, n=c['n'] + 2) for c in CLASSES]

  def runs(self, tier):
    return 168 if tier == 'quick' else 2000

  def gen(self, rng, c, tier):
    ops = ep.gen_ops(rng, c, rng.randint(2, 14))
    for op in ops:
      op['back'] = rng.choice([0, 0, 0, 1, 2, 5])
      op['e'] = rng.choice([0, 0, 1])
      op['again'] = rng.random() < .3
    return {'scn': [ep.gen_scn(rng, c), ep.gen_scn(rng, c)], 'ops': ops, 'lim': [rng.randint(1, 5) for _ in range(8)]}

  def simplify(self, plan):
    for i, s in enumerate(plan['scn']):
      for j, sp in enumerate(s):
        for c in core.simplify_spec(sp):
          yield dict(plan, scn=plan['scn'][:i] + [s[:j] + [c] + s[j + 1:]] + plan['scn'][i + 1:])

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key in ctx.cache:
      return ctx.cache[key]
    import jax
    import jax.numpy as jnp
    from dst import actors
    from waymax.env.wrappers import brax_wrapper
    def one():
      ag = [actors.make_sim_agent(k, i) for i, k in enumerate(c.get('agents', []))]
      sim = ep.Sim(c, actors=ag, params=[{'gain': .1}] * len(ag))
      base = type(sim.env)
      class Custom(base):
        # lanes of a batch may end at different times, whatever the metric says
        def termination(self, state):
          if not c.get('term'):
            return base.termination(self, state)
          lim = state.object_metadata.ids[..., 0] % 5 + 1
          return state.timestep >= c['init'] - 1 + lim
        def observe(self, state):
          if not c.get('observe'):
            return base.observe(self, state)
          return {'clock': jnp.broadcast_to(state.timestep, state.shape), 'now': state.current_sim_trajectory.x}
      sim.env.__class__ = Custom
      return sim
    a, ref = one(), one()
    w = brax_wrapper.BraxWrapper(a.env, a.dyn, a.config)
    a.b_reset, a.b_step, a.wrapper = jax.jit(w.reset), jax.jit(w.step), w
    ref.obs = jax.jit(ref.env.observe)
    ref.term = jax.jit(ref.env.termination)
    ref.trunc = jax.jit(ref.env.truncation)
    ctx.cache[key] = (a, ref)
    return ctx.cache[key]

  def execute(self, plan, ctx):
    import jax
    c = plan['cls']
    sim, ref = self.world(ctx, c)
    eps = []
    for e in range(2):
      scn = sim.state(plan['scn'][e])
      ts = sim.b_reset(scn)
      s0 = ref.reset(scn)
      self.alike(ctx, c, 'reset', 'state', ts.state, s0)
      self.alike(ctx, c, 'reset', 'observation', ts.observation, ref.obs(s0))
      self.alike(ctx, c, 'reset', 'metrics', ts.metrics, ref.metrics(s0), self.sure(c, scenario.flat(s0)))
      one = () if c['env'] == 'planning' else (c['n'],)
      self.alike(ctx, c, 'reset', 'reward', ts.reward, np.zeros(sim.batch + one, np.float32))
      self.alike(ctx, c, 'reset', 'discount', ts.discount, np.ones(sim.batch, np.float32))
      if e == 0:
        w, sp = sim.wrapper, sim.wrapper.action_spec()
        want = one + (ep.dim(c['dyn']),)
        ctx.check(tuple(sp.data.shape) == want and tuple(sp.valid.shape)[-1] == 1, 'action-spec', f'{sp}')
        if not c['dyn'].startswith('disc'):
          lo, hi = ep.bounds(c['dyn'])
          ctx.check(np.allclose(np.broadcast_to(lo, want), np.asarray(sp.data.minimum)) and
                    np.allclose(np.broadcast_to(hi, want), np.asarray(sp.data.maximum)), 'action-spec', f'{sp}')
        ctx.check(tuple(w.reward_spec().shape) == one, 'reward-spec', f'{w.reward_spec()}')
        ds = w.discount_spec()
        ctx.check(tuple(ds.shape) == () and float(ds.minimum) == 0 and float(ds.maximum) == 1, 'discount-spec', f'{ds}')
        ctx.check(tuple(ts.shape) == sim.batch, 'shape', f'{ts.shape}')
      if not np.any(np.asarray(ref.trunc(s0))):
        self.alike(ctx, c, 'reset', 'done', ts.done, ref.term(s0))
      eps.append({'nodes': [(ts, s0)], 'prev': None})
    for j, op in enumerate(plan['ops']):
      E = eps[op['e']]
      k = max(0, len(E['nodes']) - 1 - op['back'])
      ts, s = E['nodes'][k]
      if bool(np.any(np.asarray(ref.trunc(s)))):
        k, (ts, s) = 0, E['nodes'][0]
      if op['back']:
        ctx.fault('branched_from_older_timestep')
      before = [np.array(x) for x in jax.tree_util.tree_leaves(ts)]
      fl = scenario.flat(s)
      data, valid = ep.deliver(sim, op, fl, E['prev'], ctx)
      act = sim.action(data, valid)
      nt = sim.b_step(ts, act)
      ns = ref.step(s, act)
      what = f'op {j}'
      ctx.step(sim.lanes())
      term, trunc = np.asarray(ref.term(ns)), np.asarray(ref.trunc(ns))
      ctx.event('step', j, term | trunc)
      self.alike(ctx, c, what, 'state', nt.state, ns)
      self.alike(ctx, c, what, 'observation', nt.observation, ref.obs(ns))
      sure = self.sure(c, fl)
      if sure:
        self.alike(ctx, c, what, 'reward', nt.reward, ref.reward(s, act))
      self.alike(ctx, c, what, 'metrics', nt.metrics, ref.metrics(s), sure)
      self.alike(ctx, c, what, 'done', nt.done, term | trunc)
      self.alike(ctx, c, what, 'discount', nt.discount, (~term).astype(np.float32))
      ctx.probe('terminated', int(term.any()))
      ctx.probe('truncated', int(trunc.any()))
      ctx.probe('mixed_ends', int(term.any() and not term.all()))
      for x, y in zip(before, jax.tree_util.tree_leaves(ts)):
        ctx.check(ep.same(x, y), 'timestep-mutated', f'{what}: the timestep stepped from was changed')
      if op['again']:
        n2 = sim.b_step(ts, act)
        for x, y in zip(jax.tree_util.tree_leaves(nt), jax.tree_util.tree_leaves(n2)):
          ctx.check(ep.same(x, y), 'step-not-repeatable', f'{what}')
      ctx.state(op['e'], k, int(np.asarray(s.timestep).reshape(-1)[0]), c['dyn'], tuple(np.ravel(term)))
      E['nodes'].append((nt, ns))
      E['prev'] = (data, valid)

  def sure(self, c, fl):
    """No scenario stands within rounding of a metric's decision boundary."""
    t = int(np.asarray(fl['timestep']).reshape(-1)[0])
    for ix in (np.ndindex(*c['batch']) if c['batch'] else [()]):
      one = rm.lane(fl, ix) if ix else fl
      if not all(np.all(rm.REF[m](one, t)[2]) for m in M):
        return False
    return True

  def alike(self, ctx, c, what, name, got, want, sure=True):
    import jax
    if isinstance(want, dict):
      ctx.check(isinstance(got, dict) and set(got) == set(want), name, lambda: f'{what}: keys {sorted(got)} want {sorted(want)}')
      for k in want:
        if sure or k not in M:
          self.alike(ctx, c, what + ' ' + k, name, got[k], want[k])
      return
    a, b = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
    ctx.check(len(a) == len(b), name, f'{what}: structure {len(a)} {len(b)}')
    for x, y in zip(a, b):
      x, y = np.asarray(x), np.asarray(y)
      ok = x.shape == y.shape
      if ok and y.dtype.kind == 'f':
        good = ep.close(x, y, atol=2e-3, rtol=1e-5)
        # two programs may round an angle near +-pi or a boundary differently
        ok = bool(good.all()) or bool((ep.close(x, y, atol=2e-3, rtol=1e-5, angle=True)).all())
      elif ok:
        ok = np.array_equal(x, y)
      ctx.check(ok, name, lambda: f'{what} {name}: got {x.shape} {x.reshape(-1)[:6]} want {y.shape} {y.reshape(-1)[:6]}')

  def nontrivial(self, plan, ctx):
    return ctx.sim_steps > 0


PROP = P()
