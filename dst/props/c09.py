"""C09: a rollout records exactly what stepping by hand produces."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

M = ['log_divergence', 'overlap', 'kinematic_infeasibility']
RW = {'overlap': -1.0, 'log_divergence': -.3}
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', init=3, t=12, n=4, steps=6, metrics=M, rewards=RW),
    ep.cls(dyn='dlocal', ctrl='MODELED', init=2, t=10, n=4, batch=[2], steps=4, metrics=M, rewards=RW),
    ep.cls(dyn='state', ctrl='SDC', init=1, t=9, n=3, steps=8, metrics=['offroad'], rewards={'offroad': 2.}),
    ep.cls(env='planning', dyn='bicycle', init=3, t=12, n=4, steps=7, metrics=M, rewards=RW),
    ep.cls(env='planning', dyn='dglobal', init=2, t=10, n=3, batch=[2, 1], steps=5, metrics=M, rewards=RW, agents=['even', 'blink']),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', init=3, t=9, n=3, steps=1, metrics=[], rewards=RW),
    ep.cls(dyn='bicycle_norm', ctrl='VALID', init=4, t=9, n=3, steps=5, metrics=M, compute_reward=False, inject=False),
    ep.cls(env='planning', dyn='bicycle', init=3, t=10, n=4, steps=7, metrics=M, rewards=RW, expert=True),
]


class P(core.Prop):
  id = 'C09'
  rule = ('a run rolls out a stateful stochastic actor with a random key and parameters and replays '
          'the loop by hand, feeding the actor the keys it recorded; non-trivial if at least one step')
  real = ep.REAL + ['waymax.env.rollout', 'waymax.agents.actor_core']
  stub = ['scenario source', 'actor (a recording stateful stochastic driver)']
  assumptions = ['n steps at least one and within the log', 'results equal up to float32 rounding 1e-4']
  list_keys = ()
  class_cost = 3

  def classes(self, tier):
    out = list(CLASSES)
    if tier == 'thorough':
      out += [dict(c, steps=k) for c in CLASSES for k in (1, 2, 3)]
      out += [dict(c, n=8, t=40, init=11, steps=29) for c in CLASSES if not c['dyn'].startswith('disc')]
    return out

  def runs(self, tier):
    return 64 if tier == 'quick' else 900

  def gen(self, rng, c, tier):
    return {'scn': ep.gen_scn(rng, c, garbage=rng.choice(['womd', 'near'])),
            'key': rng.randrange(2**31), 'gain': rng.choice([.2, .7, 1.]), 'idle': rng.choice([0., 0., .4, 1.]), 'used': rng.random() < .3}

  def build(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key in ctx.cache:
      return ctx.cache[key]
    import jax
    from dst import actors
    import importlib
    ro = importlib.import_module('waymax.env.rollout')
    ag = [actors.make_sim_agent(k, i) for i, k in enumerate(c.get('agents', []))]
    sim = ep.Sim(c, actors=ag, params=[{'gain': .1}] * len(ag))
    d = ep.dim(c['dyn'])
    fn = (lambda s: s.object_metadata.shape[:-1] + (d,)) if c['env'] == 'planning' else (
        lambda s: s.object_metadata.shape + (d,))
    if c['dyn'].startswith('disc'):
      actor = actors.make_tap_actor(fn, None, None, int(np.prod(np.array(ep.BINS[c['dyn']]) + 1)))
    elif c['dyn'] == 'state':
      actor = actors.make_tap_actor(fn, np.full(5, -5.), np.full(5, 5.))
    else:
      actor = actors.make_tap_actor(fn, *ep.bounds(c['dyn']))
    if c.get('expert'):
      roll = jax.jit(lambda s, k, p: ro.rollout_log_by_expert_sdc(s, sim.env, sim.env.dynamics, c['steps']))
      from waymax import agents
      ex = agents.create_expert_actor(dynamics_model=sim.env.dynamics)
      select = jax.jit(lambda p, s, a, k: ex.select_action(p, s, a, k))
    else:
      roll = jax.jit(lambda s, k, p: ro.rollout(s, actor, sim.env, k, c['steps'], p))
      select = jax.jit(actor.select_action)
    init = jax.jit(actor.init)
    obs = jax.jit(sim.env.observe)
    ctx.cache[key] = (sim, actor, roll, select, init, obs)
    return ctx.cache[key]

  def execute(self, plan, ctx):
    import jax
    import jax.numpy as jnp
    from dst import actors
    c = plan['cls']
    sim, actor, roll, select, init, obs = self.build(ctx, c)
    n = c['steps']
    scn = sim.state(plan['scn'])
    if plan['used']:  # a rollout starts from the beginning whatever it is given
      scn = sim.reset(scn)
      scn = sim.step(scn, sim.action(np.zeros(sim.action_shape()), np.ones(sim.action_shape()[:-1] + (1,), bool)))
      scn = scenario.unflat(scenario.flat(scn))
      ctx.fault('started_from_used_state')
    params = {'gain': jnp.asarray(plan['gain'], jnp.float32), 'idle': jnp.asarray(plan['idle'], jnp.float32)}
    key = jax.random.PRNGKey(plan['key'])
    out = roll(scn, key, params)
    ctx.event('rollout', actors.leaves_np(out))
    ctx.step(n * sim.lanes())
    for name in ('action', 'state', 'observation', 'metrics', 'reward'):
      for leaf in jax.tree_util.tree_leaves(getattr(out, name)):
        ctx.check(leaf.shape[:1] == (n + 1,), 'record-count', f'{name} {leaf.shape}')
    at = lambda tree, i: jax.tree_util.tree_map(lambda x: x[i], tree)
    s = sim.reset(scn)
    expert = c.get('expert')
    keys = []
    actor_state = None
    if not expert:
      taps = np.asarray(out.action.tap)[:n].reshape(n, -1, np.asarray(out.action.tap).shape[-1])[:, 0]
      nb = (taps.shape[1] - 3) // 4
      for i in range(n):
        hi, lo = taps[i, :nb].astype(np.int64), taps[i, nb:2 * nb].astype(np.int64)
        keys.append(tuple(int(v) for v in (hi << 16) + lo))
        ctx.check(taps[i, 2 * nb] == i, 'actor-state-threading',
                  f'at step {i} the actor was handed its state after {taps[i, 2*nb]} calls')
        ctx.check(np.isclose(taps[i, 2 * nb + 1], plan['gain']), 'actor-params', f'{taps[i]}')
        ctx.check(taps[i, 2 * nb + 2] == c['init'] - 1 + i, 'actor-saw-other-state',
                  f'at step {i} the actor saw clock {taps[i, 2*nb+2]}')
      ctx.check(len(set(keys)) == n, 'key-reused', f'{n - len(set(keys))} of {n} step keys repeat')
      given = tuple(int(v) for v in np.asarray(actors.key_bits(key)))
      ctx.check(given not in keys, 'key-reused', 'the caller\'s key was used for a step')
      born = taps[:, 2 * nb + 3:].astype(np.int64)
      ctx.check((born == born[0]).all(), 'actor-state-threading', 'the state of the actor lost its origin')
      born = tuple(int(v) for v in (born[0, :nb] << 16) + born[0, nb:])
      ctx.check(born not in keys, 'key-reused', 'the key that initialised the actor was used for a step')
      # an actor may split or fold what it is handed: no key may derive from another's
      grown = self.derived(ctx, keys + [born])
      for i, k in enumerate(keys + [born]):
        for j, ds in enumerate(grown):
          ctx.check(k not in ds, 'key-not-fresh', f'key {i} can be derived from key {j} (of {n} and the initial one)')
      ctx.probe('keys_checked', len(keys))
    for i in range(n + 1):
      self.same(ctx, i, 'state', at(out.state, i), s)
      self.same(ctx, i, 'observation', at(out.observation, i), obs(s))
      self.same(ctx, i, 'metrics', at(out.metrics, i), sim.metrics(s))
      act_i = at(out.action, i)
      if i == n:
        for leaf in jax.tree_util.tree_leaves(act_i):
          ctx.check(not np.asarray(leaf).any(), 'padding-action', 'the action after the end is not empty/invalid')
      else:
        if expert:
          o = select(None, s, None, None)
        else:
          if actor_state is None:
            actor_state = init(jnp.asarray(np.array(born, np.uint32)), s)
          k = jnp.asarray(np.array(keys[i], np.uint32))
          o = select(params, s, actor_state, k)
          actor_state = o.actor_state
        self.same(ctx, i, 'action', act_i, o.action)
      rew = sim.reward(s, act_i)
      ctx.check(rew.shape == np.asarray(out.reward)[i].shape, 'reward-shape', f'{rew.shape}')
      self.same(ctx, i, 'reward', out.reward[i], rew)
      ctx.state(i, c['dyn'], n)
      if i < n:
        s = sim.step(s, act_i)
    again = roll(scn, key, params)
    for a, b in zip(actors.leaves_np(out), actors.leaves_np(again)):
      ctx.check(ep.same(a, b), 'rollout-not-repeatable', 'two rollouts with one key differ')
    if not expert:
      other = roll(scn, jax.random.PRNGKey(plan['key'] ^ 1), params)
      ctx.check(not ep.same(np.asarray(other.action.tap), np.asarray(out.action.tap)), 'key-ignored',
                'another key gives the same step keys')

  def derived(self, ctx, keys):
    import jax
    if 'derive' not in ctx.cache:
      def grow(k):
        one = [jax.random.split(k, m) for m in (2, 3, 4)] + [
            jax.vmap(lambda j: jax.random.fold_in(k, j))(jax.numpy.arange(4))]
        two = [jax.vmap(lambda q: jax.random.split(q, 2))(one[0]).reshape(-1, k.shape[-1])]
        return jax.numpy.concatenate(one + two)
      ctx.cache['derive'] = jax.jit(jax.vmap(grow))
    out = np.asarray(ctx.cache['derive'](jax.numpy.asarray(np.array(keys, np.uint32))))
    return [set(map(tuple, o.tolist())) for o in out]

  def same(self, ctx, i, name, a, b):
    import jax
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    ctx.check(len(la) == len(lb), 'misaligned-' + name, f'structure {len(la)} {len(lb)}')
    for x, y in zip(la, lb):
      x, y = np.asarray(x), np.asarray(y)
      ok = x.shape == y.shape and (
          bool(np.all(ep.close(x, y, atol=1e-4, rtol=2e-6))) if y.dtype.kind == 'f' else bool(np.array_equal(x, y)))
      ctx.check(ok, 'misaligned-' + name,
                lambda: f'{name} recorded at position {i} differs from the hand-written loop: shapes '
                f'{x.shape} {y.shape}, e.g. ' + self.diff(x, y))

  def diff(self, x, y):
    if x.shape != y.shape:
      return f'{x.reshape(-1)[:4]} {y.reshape(-1)[:4]}'
    at = np.flatnonzero(~(ep.close(x, y, atol=1e-4, rtol=2e-6) if y.dtype.kind == 'f' else x == y).reshape(-1))[:4]
    return f'{x.reshape(-1)[at]} {y.reshape(-1)[at]} at {at}'

  def nontrivial(self, plan, ctx):
    return ctx.sim_steps > 0


PROP = P()
