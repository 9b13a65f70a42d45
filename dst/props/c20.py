"""C20: reward is the weighted sum of its metrics for agents, zero for others."""
import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario

MW = {'overlap': -1., 'offroad': -2.5, 'log_divergence': -.25}
ALLW = {'overlap': -1.5, 'offroad': 1., 'kinematic_infeasibility': -.75, 'log_divergence': .2,
        'sdc_wrongway': -.3, 'sdc_off_route': -.6, 'sdc_progression': 2.}
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, n=5, rewards=MW),
    ep.cls(dyn='state', ctrl='MODELED', init=2, n=4, batch=[4], t=10, rewards=ALLW),
    ep.cls(dyn='dlocal', ctrl='SDC', init=3, n=4, batch=[2, 2], t=10, rewards={'sdc_progression': 1., 'overlap': -3.}),
    ep.cls(env='planning', dyn='bicycle', init=3, n=4, rewards=ALLW),
    ep.cls(env='planning', dyn='state', init=2, n=4, batch=[4], t=10, rewards=MW),
    ep.cls(dyn='state', ctrl='VALID', init=3, n=5, rewards={'kinematic_infeasibility': -1., 'log_divergence': 0.}, inject=False),
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, n=4, rewards=MW, compute_reward=False),
    ep.cls(env='planning', dyn='dglobal', init=3, n=3, batch=[2], t=9, rewards=MW, compute_reward=False),
    ep.cls(dyn='dglobal', ctrl='MODELED', init=1, n=4, t=10, metrics=[], rewards={'sdc_off_route': -2., 'offroad': -.5}, inject=False),
    ep.default_cls(t=24, n=5),
    ep.default_cls(env='planning', dyn='dlocal', t=20),
]


class P(core.Prop):
  id = 'C20'
  rule = ('a run is one episode through a faulty channel; the reward is compared at every step with the '
          'weighted sum of float64 reference metrics; non-trivial if a reward was judged')
  real = ep.REAL + ['waymax.rewards', 'waymax.metrics']
  stub = ep.STUB
  assumptions = ['steps where a metric is within rounding of its decision boundary are not judged for that object']

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 5, t=40) for c in CLASSES if len(c['batch']) < 1] if tier == 'thorough' else [])

  def runs(self, tier):
    return 120 if tier == 'quick' else 1800

  def gen(self, rng, c, tier):
    return {'scn': ep.gen_scn(rng, c, layout=rng.choice(['crowd', 'road', 'open'])),
            'ops': ep.gen_ops(rng, c, rng.randint(2, c['t'] - c['init'])), 'salt': rng.randrange(2**31)}

  def agents(self, c, fl):
    return {'SDC': fl['meta.is_sdc'], 'MODELED': fl['meta.is_modeled'], 'VALID': fl['meta.is_valid']}[c['ctrl']]

  def execute(self, plan, ctx):
    c = plan['cls']
    sim = ep.get_sim(ctx, c)
    r = np.random.RandomState(plan['salt'])
    for st in ep.drive(sim, plan, ctx):
      a = sim.action(st.data, st.valid)
      rew = np.asarray(sim.reward(st.state, a))
      ctx.event('reward', rew)
      self.judge(ctx, c, rew, st.before, st.t)
      # nothing but the state: another command, a state restored from storage
      junk = sim.action(ep._garbage(r, st.data, 50, sim), ~st.valid)
      ctx.check(ep.same(rew, np.asarray(sim.reward(st.state, junk))), 'reward-depends-on-action',
                lambda: f'step {st.t}')
      if r.rand() < .3:
        again = np.asarray(sim.reward(self.restore(sim, st), a))
        ctx.fault('restored_from_storage')
        ctx.check(ep.same(rew, again), 'reward-depends-on-history', lambda: f'{rew} {again}')
      last = st
    if plan['ops']:
      rew = np.asarray(sim.reward(last.next_state, sim.action(last.data, last.valid)))
      self.judge(ctx, c, rew, last.after, last.t + 1)

  def restore(self, sim, st):
    return scenario.unflat(st.before)

  def judge(self, ctx, c, rew, fl, t):
    batch = tuple(c['batch'])
    plan_env = c['env'] == 'planning'
    shape = batch + (() if plan_env else (c['n'],))
    ctx.check(rew.shape == shape, 'reward-shape', f'{rew.shape}, expected {shape}')
    if not c['compute_reward']:
      ctx.check(not rew.any(), 'reward-when-off', f'{rew}')
      ctx.probe('reward_off')
      return
    ctx.check(rew.dtype == np.float32, 'reward-dtype', f'{rew.dtype}')
    for i in rm.indices(batch):
      lf = rm.lane(fl, i)
      total = np.zeros(c['n'])
      sure = np.ones(c['n'], bool)
      for name, w in c['rewards'].items():
        if name == 'kinematic_infeasibility' and t == 0:
          continue
        v, valid, s = rm.REF[name](lf, t)
        total = total + w * np.where(valid, v, 0.)
        sure &= s
      agent = self.agents(c, lf)
      want = np.where(agent, total, 0.)
      sure &= np.isfinite(total)
      got = rew[i]
      if plan_env:
        k = int(np.argmax(lf['meta.is_sdc']))
        want, sure, agent = want[k], sure[k], agent[k]
      mag = np.abs(lf['sim.x'][:, t]).max() + np.abs(lf['sim.y'][:, t]).max()
      mag = mag if np.isfinite(mag) else 0
      if plan_env:
        bad = sure & ~ep.close(got, want, scale=np.abs(want) + mag, atol=2e-3, rtol=1e-5)
      else:
        bad = sure & agent & ~ep.close(got, want, scale=np.abs(want) + mag, atol=2e-3, rtol=1e-5)
      ctx.probe('rewards_judged', int(np.sum(sure & agent)))
      ctx.probe('rewards_nonzero', int(np.sum(sure & (np.abs(want) > 1e-6))))
      ctx.check(not np.any(bad), 'reward', lambda: f'step {t} scenario {i}: reward {got}, weighted sum {want} '
                f'(judged {sure}, agents {agent})')
      if not plan_env:
        other = ~agent & np.isfinite(total)
        ctx.probe('non_agents', int(other.sum()))
        ctx.check(not np.any(got[other] != 0), 'reward-non-agent', lambda: f'step {t}: {got} agents {agent}')

  def nontrivial(self, plan, ctx):
    return ctx.probes['rewards_judged'] + ctx.probes['reward_off'] > 0


PROP = P()
