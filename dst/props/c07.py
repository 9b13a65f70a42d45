"""C07: determinism, crash/restore, interleaving, no hidden memory."""
import io
import json
import os

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

M = ['log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway',
     'sdc_off_route', 'sdc_progression']
RW = {'log_divergence': -.1, 'overlap': .7, 'offroad': -1.3, 'kinematic_infeasibility': .013,
      'sdc_off_route': .0171, 'sdc_wrongway': -.333}
S = dict(metrics=M, rewards=RW, t=11, n=4, p=24, npath=2, ppath=8)
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, **S),
    ep.cls(dyn='dlocal', ctrl='MODELED', init=2, inject=False, jit=False, **S),
    ep.cls(env='planning', dyn='bicycle', init=3, agents=['odd', 'blink'], **S),
    ep.cls(env='planning', dyn='dglobal', init=3, agents=['even'], idm=True, **S),
    ep.cls(dyn='state', ctrl='SDC', init=2, batch=[2], **S),
    ep.cls(env='planning', dyn='state', init=2, agents=['near'], jit=False, **S),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', init=3, jit=False, **S),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', init=1, actor='expert', **S),
]


class P(core.Prop):
  id = 'C07'
  rule = ('a run interleaves two or three episodes over one shared environment with reads, crashes '
          '(process state dropped, state restored from a file), re-reads of old states and repeated '
          'calls, and compares with each episode run alone; non-trivial if two episodes interleaved '
          'or a crash happened')
  real = ep.REAL + ['waymax.agents (expert, IDM)', 'waymax.metrics', 'waymax.rewards', 'observation functions']
  stub = ep.STUB + ['durable storage: numpy archives in a scratch directory']
  assumptions = ['one XLA CPU build: bit-identity is claimed per compiled program']
  class_cost = 6
  rerun = 10  # runs re-executed in another process under another hash seed

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, t=24, n=8) for c in CLASSES]
    return out

  def runs(self, tier):
    return 48 if tier == 'quick' else 600

  def gen(self, rng, c, tier):
    k = rng.choice([1, 2, 2, 3])
    ops = []
    for _ in range(rng.randint(8, 10 + 8 * k)):
      e = rng.randrange(k)
      kind = rng.choice(['step'] * 6 + ['metrics', 'reward', 'observe', 'crash', 'reread', 'repeat', 'reset', 'actor', 'compare'])
      ops.append({'e': e, 'op': kind, 'cold': rng.random() < .2})
    return {'scn': [ep.gen_scn(rng, c) for _ in range(k)], 'ops': ops,
            'cmds': [ep.gen_ops(rng, c, c['t']) for _ in range(k)],
            'keys': [None if rng.random() < .35 else rng.randrange(2**31) for _ in range(k)]}

  def simplify(self, plan):
    for i, s in enumerate(plan['scn']):
      for j, sp in enumerate(s):
        for c in core.simplify_spec(sp):
          yield dict(plan, scn=plan['scn'][:i] + [s[:j] + [c] + s[j + 1:]] + plan['scn'][i + 1:])

  # -- world building
  def world(self, c):
    import jax
    from dst import actors
    ag = [actors.make_sim_agent(k, i) for i, k in enumerate(c.get('agents', []))]
    params = [{'gain': .1}] * len(ag)
    if c.get('idm'):
      from waymax import agents
      from waymax import config
      ag.append(agents.create_sim_agents_from_config(config.SimAgentConfig(
          agent_type=config.SimAgentType.IDM, controlled_objects=config.ObjectType.NON_SDC)))
      params.append({})
    sim = ep.Sim(c, actors=ag, params=params)
    from waymax import datatypes
    w = jax.jit if c['jit'] else (lambda f: f)
    sim.obs = w(lambda s: (sim.env.observe(s), datatypes.sdc_observation_from_state(s, obs_num_steps=1, roadgraph_top_k=5)))
    from waymax import agents
    ex = agents.create_expert_actor(dynamics_model=sim.env.dynamics)
    sim.actor = w(lambda s: ex.select_action({}, s, None, None))
    return sim

  def keys(self, plan, e, i):
    import jax
    if plan['keys'][e] is None:
      return None  # callers may leave the key out
    return jax.random.fold_in(jax.random.PRNGKey(plan['keys'][e]), i)

  def step(self, c, sim, plan, e, i, s, fl, prev, ctx):
    op = plan['cmds'][e][i]
    data, valid = ep.deliver(sim, op, fl, prev, ctx)
    key = self.keys(plan, e, i + 1)
    a = sim.action(data, valid)
    return sim.step(s, a, key), a, (data, valid)

  def alone(self, c, sim, plan, e, n):
    """The reference: episode e on its own, uninterrupted."""
    from dst import actors
    q = core.Ctx()
    s = sim.reset(sim.state(plan['scn'][e]), self.keys(plan, e, 0))
    out = []
    prev = None
    a = None
    for i in range(n + 1):
      fl = scenario.flat(s)
      rec = {'fl': fl, 'extra': actors.leaves_np(getattr(s, 'sim_agent_actor_states', ()))}
      out.append(rec)
      if i == n:
        break
      s, a, prev = self.step(c, sim, plan, e, i, s, fl, prev, q)
      rec['action'] = prev
    return out

  def readings(self, sim, s, a):
    from dst import actors
    return {'metrics': lambda: actors.leaves_np(sim.metrics(s)),
            'reward': lambda: actors.leaves_np(sim.reward(s, a)),
            'observe': lambda: actors.leaves_np(sim.obs(s)),
            'actor': lambda: actors.leaves_np(sim.actor(s))}

  def execute(self, plan, ctx):
    import jax
    from dst import actors
    c = plan['cls']
    if 'world' not in ctx.cache:
      ctx.cache['world'] = (self.world(c), self.world(c))
    sim, other = ctx.cache['world']
    k = len(plan['scn'])
    limit = c['t'] - c['init']
    need = [min(limit, sum(o['op'] in ('step',) and o['e'] == e for o in plan['ops'])) for e in range(k)]
    refs = [self.alone(c, other, plan, e, need[e]) for e in range(k)]
    scn = [sim.state(plan['scn'][e]) for e in range(k)]
    live = [None] * k
    reads = {}
    null = sim.action(np.zeros(sim.action_shape()), np.ones(sim.action_shape()[:-1] + (1,), bool))
    last_e = None
    for op in plan['ops']:
      e = op['e']
      if live[e] is None or op['op'] == 'reset':
        s = sim.reset(scn[e], self.keys(plan, e, 0))
        live[e] = {'s': s, 'i': 0, 'prev': None, 'old': []}
        self.match(ctx, 'reset', refs[e][0], s, e, 0)
        if op['op'] == 'reset':
          continue
      L = live[e]
      if last_e is not None and last_e != e:
        ctx.probe('context_switch')
      last_e = e
      ctx.state(op['op'], L['i'], e)
      if op['op'] == 'step':
        if L['i'] >= need[e]:
          continue
        before = scenario.flat(L['s'])
        s2, a, prev = self.step(c, sim, plan, e, L['i'], L['s'], before, L['prev'], ctx)
        after = scenario.flat(L['s'])
        for f in before:
          ctx.check(ep.same(before[f], after[f]), 'given-state-modified', f'step changed {f} of the state it was given')
        L['old'].append((L['s'], L['i'], L['prev']))
        L['s'], L['i'], L['prev'] = s2, L['i'] + 1, prev
        self.match(ctx, 'step', refs[e][L['i']], s2, e, L['i'])
        ctx.step(sim.lanes())
        ctx.event('step', e, L['i'], scenario.flat(s2)['sim.x'])
        if c['jit']:  # compared with the same step in other processes
          ctx.event('reward', *actors.leaves_np(sim.reward(s2, a)))
      elif op['op'] == 'crash':
        ctx.fault('crash_restart')
        L['s'] = self.crash(sim, c, L['s'])
        L['old'] = []
        if op['cold']:  # everything in memory is lost: rebuild the environment
          if ctx.cache.get('cold', 0) < 2:
            ctx.cache['cold'] = ctx.cache.get('cold', 0) + 1
            sim = self.world(c)
            ctx.cache['world'] = (sim, other)
            ctx.fault('environment_rebuilt')
      elif op['op'] == 'repeat' and L['old']:
        s, i, prev = L['old'][(7 * L['i']) % len(L['old'])]
        s2, _, _ = self.step(c, sim, plan, e, i, s, scenario.flat(s), prev, core.Ctx())
        ctx.probe('branched_from_old_state')
        self.match(ctx, 'repeat', refs[e][i + 1], s2, e, i + 1)
      elif op['op'] == 'compare':
        self.compare(ctx, c, sim, L)
      elif op['op'] == 'reread':
        for s, i, _ in L['old'][-2:]:
          self.match(ctx, 'reread', refs[e][i], s, e, i)
      elif op['op'] in ('metrics', 'reward', 'observe', 'actor'):
        if op['op'] == 'actor' and L['i'] >= limit:
          continue
        vals = self.readings(sim, L['s'], null)[op['op']]()
        tag = (e, L['i'], op['op'])
        ctx.event('read', *[v for v in vals])
        before = refs[e][L['i']]
        self.match(ctx, 'read-' + op['op'], before, L['s'], e, L['i'])
        if tag in reads:
          ok = len(reads[tag]) == len(vals) and all(ep.same(a, b) for a, b in zip(reads[tag], vals))
          ctx.check(ok, 'reading-not-repeatable', f'{op["op"]} at step {L["i"]} of episode {e}')
          ctx.probe('read_twice')
        reads[tag] = vals
    # readings of the interleaved run against a fresh environment object
    for (e, i, what), vals in list(reads.items())[:6]:
      s = self.rebuild(refs[e][i], live, e, c, other)
      vals2 = self.readings(other, s, null)[what]()
      ok = len(vals) == len(vals2) and all(ep.same(a, b) for a, b in zip(vals, vals2))
      ctx.check(ok, 'reading-depends-on-history', f'{what} at step {i} of episode {e}')
    for e in range(k):
      fl = scenario.flat(scn[e])
      arrs = sim.arrays(plan['scn'][e])
      for key in scenario.FIXED:
        ctx.check(ep.same(fl[key], arrs[key]), 'given-state-modified', f'{key} of the scenario')

  def rebuild(self, rec, live, e, c, sim):
    s = scenario.unflat(rec['fl'])
    if c['env'] == 'planning':
      import jax
      from waymax.env import planning_agent_environment as pa
      tmpl = sim.reset(s, jax.random.PRNGKey(0)).sim_agent_actor_states
      tdef = jax.tree_util.tree_structure(tmpl)
      extra = jax.tree_util.tree_unflatten(tdef, [jax.numpy.asarray(v) for v in rec['extra']])
      s = pa.PlanningAgentSimulatorState(**{k: getattr(s, k) for k in (
          'sim_trajectory', 'log_trajectory', 'log_traffic_light', 'object_metadata', 'timestep',
          'sdc_paths', 'roadgraph_points')}, sim_agent_actor_states=extra)
    return s

  def crash(self, sim, c, s):
    """Only what was written to storage survives."""
    from dst import actors
    d = os.environ.get('DST_SCRATCH', '/tmp')
    path = os.path.join(d, f'snap-{os.getpid()}.npz')
    rec = {'f:' + k: v for k, v in scenario.flat(s).items()}
    ex = actors.leaves_np(getattr(s, 'sim_agent_actor_states', ()))
    rec.update({f'x:{i:03d}': v for i, v in enumerate(ex)})
    np.savez(path, **rec)
    del s
    with np.load(path) as z:
      got = {k: z[k] for k in z.files}
    os.unlink(path)
    return self.rebuild({'fl': {k[2:]: v for k, v in got.items() if k[0] == 'f'},
                         'extra': [got[k] for k in sorted(got) if k[0] == 'x']}, None, 0, c, sim)

  def compare(self, ctx, c, sim, L):
    """States are equal exactly when everything in them is."""
    from dst import actors
    fl = scenario.flat(L['s'])
    ex = actors.leaves_np(getattr(L['s'], 'sim_agent_actor_states', ()))
    clean = all(np.isfinite(v).all() for v in list(fl.values()) + ex if v.dtype.kind == 'f')
    if not clean:
      return  # not-a-number differs from itself
    rec = {'fl': fl, 'extra': ex}
    again = self.rebuild(rec, None, 0, c, sim)
    try:
      L['s'] == again  # pylint: disable=pointless-statement
    except Exception as err:  # pylint: disable=broad-except
      ctx.check(False, 'states-not-comparable', f'{type(err).__name__}: {str(err)[:200]}')
    ctx.check(bool(L['s'] == again), 'equal-states-differ', f'step {L["i"]}: a restored state is not equal to the one saved')
    for s, i, _ in L['old'][-1:]:
      ctx.check(not bool(L['s'] == s), 'different-states-equal', f'the states at steps {L["i"]} and {i} compare equal')
    names = sorted(k for k in fl if fl[k].size)
    for j in range(3):
      k = names[(L['i'] * 31 + j * 17 + len(L['old']) * 5) % len(names)]
      v = fl[k].copy()
      at = (L['i'] * 7 + j) % v.size
      v.reshape(-1)[at] = not v.reshape(-1)[at] if v.dtype == bool else v.reshape(-1)[at] * 2 + 3
      other = self.rebuild({'fl': dict(fl, **{k: v}), 'extra': ex}, None, 0, c, sim)
      ctx.check(not bool(L['s'] == other), 'different-states-equal', f'step {L["i"]}: states that differ in {k} compare equal')
    ctx.probe('states_compared')

  def match(self, ctx, what, ref, s, e, i):
    from dst import actors
    fl = scenario.flat(s)
    for k in ref['fl']:
      ctx.check(ep.same(ref['fl'][k], fl[k]), 'differs-from-uninterrupted-run',
                lambda: f'after {what}: {k} of episode {e} at step {i} differs from the episode run alone: '
                f'{ep.where(~((ref["fl"][k] == fl[k]) | (ref["fl"][k] != ref["fl"][k])))}')
    ex = actors.leaves_np(getattr(s, 'sim_agent_actor_states', ()))
    ctx.check(len(ex) == len(ref['extra']) and all(ep.same(a, b) for a, b in zip(ex, ref['extra'])),
              'differs-from-uninterrupted-run', f'after {what}: agent states of episode {e} at step {i}')

  def nontrivial(self, plan, ctx):
    return ctx.probes['context_switch'] > 0 or ctx.faults['crash_restart'] > 0


PROP = P()
