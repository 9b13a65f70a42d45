"""C10: the dm_env adapter keeps its protocol under any call history."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

M = []
RW = {'overlap': -1.0, 'log_divergence': -.3}
CLASSES = [
    ep.cls(env='planning', dyn='bicycle', init=3, t=9, n=3, rewards=RW, metrics=M),
    ep.cls(env='planning', dyn='disc_bicycle', init=2, t=8, n=3, rewards=RW, metrics=M),
    ep.cls(env='base', dyn='dlocal', ctrl='VALID', init=2, t=7, n=3, rewards=RW, metrics=M),
    ep.cls(env='base', dyn='bicycle_norm', ctrl='MODELED', init=1, t=6, n=2, batch=[2], rewards=RW, metrics=M),
    ep.cls(env='planning', dyn='disc_bicycle', init=2, t=8, n=2, batch=[2], rewards=RW, metrics=M, squeeze=False),
    ep.cls(env='planning', dyn='disc_bicycle', init=2, t=8, n=2, batch=[3], rewards=RW, metrics=M),
    ep.cls(env='planning', dyn='dglobal', init=3, t=12, n=3, rewards=RW, metrics=M, term=3),
    ep.cls(env='base', dyn='state', ctrl='SDC', init=2, t=9, n=2, batch=[2], rewards=RW, metrics=M, term=2, observe=True),
    ep.cls(env='planning', dyn='bicycle', init=3, t=10, n=4, rewards=RW, metrics=M, idm=True),
    ep.cls(env='planning', dyn='bicycle', init=1, t=3, n=2, rewards=RW, metrics=M, observe=True),
]


class SourceError(IOError):
  pass


class Source:
  """A scripted scenario source: fails, ends, recovers; remembers its position."""

  def __init__(self, events, make):
    self.events, self.make, self.pos, self.log = list(events), make, 0, []

  def __iter__(self):
    return self

  def __next__(self):
    e = self.events[self.pos] if self.pos < len(self.events) else {'e': 'end'}
    self.pos += 1
    self.log.append(e['e'])
    if e['e'] == 'fail':
      raise SourceError('storage failed')
    if e['e'] == 'end':
      raise StopIteration()
    return self.make(e)


class P(core.Prop):
  id = 'C10'
  rule = ('a run drives one or two adapters over one environment through a random history of resets, steps, '
          'reads and bad calls against scripted scenario sources that fail, end and recover; non-trivial if '
          'at least one step or protocol error')
  real = ep.REAL + ['waymax.env.wrappers.dm_env_wrapper', 'waymax.rewards']
  stub = ['scenario source (scripted, failing)', 'dataloader.simulator_state_generator (patched, one class)']
  assumptions = ['rewards and observations equal the wrapped environment\'s up to float32 rounding',
                 'all scenarios of a batch end together (mixed step types are documented as unsupported)']
  list_keys = ('ops', 'events')
  class_cost = 4

  def classes(self, tier):
    return CLASSES if tier == 'quick' else CLASSES + [dict(c, t=c['t'] + 8, n=c['n'] + 2) for c in CLASSES]

  def runs(self, tier):
    return 160 if tier == 'quick' else 1600

  def gen(self, rng, c, tier):
    w = rng.choice([(6, 1, 1, 1), (3, 2, 2, 1), (12, 0, 0, 0), (2, 1, 1, 3)])
    evs = []
    for k in range(2):
      evs.append([{'e': 'ok', 's': rng.randrange(2**31)}] + [
          {'e': rng.choices(['ok', 'fail', 'end', 'finished'], w)[0], 's': rng.randrange(2**31)}
          for _ in range(8)])
    ops = []
    for _ in range(rng.randint(4, 34)):
      ops.append({'op': rng.choices(['step', 'reset', 'read', 'bad', 'spec', 'run'], (10, 3, 3, 1, .6, 1.5))[0],
                  'a': rng.choice([0, 0, 1]), 's': rng.randrange(2**31),
                  'form': rng.choice(['np', 'jnp', 'py', 'list']), 'm': rng.choice(['in', 'out', 'edge', 'small'])})
    return {'events': evs, 'ops': ops, 'two': rng.random() < .5}

  def shrink_candidates(self, plan):
    for c in core.Prop.shrink_candidates(self, dict(plan, events=[])):
      yield dict(c, events=plan['events'])

  def simplify(self, plan):
    return
    yield

  def make_env(self, c, sim):
    """The same environment with the user hooks the adapter must honour."""
    import jax.numpy as jnp
    env = sim.env
    if c.get('term') or c.get('observe'):
      base = type(env)
      class Custom(base):
        def termination(self, state):
          if not c.get('term'):
            return base.termination(self, state)
          return jnp.broadcast_to(state.timestep >= c['init'] - 1 + c['term'], state.shape)
        def observe(self, state):
          if not c.get('observe'):
            return base.observe(self, state)
          return {'clock': jnp.broadcast_to(state.timestep, state.shape), 'now': state.current_sim_trajectory.x}
      env.__class__ = Custom
    return env

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      import jax
      def one():
        ag, params = [], []
        if c.get('idm'):
          from waymax import agents, config
          ag.append(agents.create_sim_agents_from_config(config.SimAgentConfig(
              agent_type=config.SimAgentType.IDM, controlled_objects=config.ObjectType.NON_SDC)))
          params.append({})
        sim = ep.Sim(c, actors=ag, params=params)
        self.make_env(c, sim)
        return sim
      a, b = one(), one()
      ctx.cache[key] = (a, b)
    return ctx.cache[key]

  def scn(self, sim, c, e):
    import random
    rng = random.Random(e['s'])
    arrs = [scenario.arrays(s) for s in ep.gen_scn(rng, c)]
    if e['e'] == 'finished':  # a log no longer than the warm-up
      arrs = [{k: v[..., :c['init']] if k[:3] in ('log', 'tl.') else v for k, v in x.items()} for x in arrs]
    return scenario.state(scenario.stack(arrs, c['batch']) if c['batch'] else arrs[0])

  def adapter(self, c, sim, source):
    from waymax.env.wrappers import dm_env_wrapper as dw
    if c.get('idm'):
      import dataclasses
      from waymax import config
      cfg = dataclasses.replace(sim.config, sim_agents=[config.SimAgentConfig(
          agent_type=config.SimAgentType.IDM, controlled_objects=config.ObjectType.NON_SDC)])
      dc = config.DatasetConfig(path='/nonexistent', max_num_objects=c['n'])
      old = dw.dataloader.simulator_state_generator
      dw.dataloader.simulator_state_generator = lambda config: source
      try:
        return dw.make_sdc_dm_environment(sim.dyn, dc, cfg)
      finally:
        dw.dataloader.simulator_state_generator = old
    return dw.DMEnvWrapper(source, sim.env, squeeze_scalar_actions=c.get('squeeze', True))

  def execute(self, plan, ctx):
    import dm_env
    import jax.numpy as jnp
    from waymax.env import errors
    c = plan['cls']
    env_sim, ref = self.world(ctx, c)
    k = 2 if plan['two'] else 1
    srcs = [Source(plan['events'][i], lambda e: self.scn(ref, c, e)) for i in range(k)]
    ad = [self.adapter(c, env_sim, s) for s in srcs]
    for i in range(k):
      ctx.check(srcs[i].pos <= 1, 'source-overread', f'{srcs[i].pos} scenarios taken before the first reset')
    model = [{'live': False, 'done': False, 'state': None} for _ in range(k)]

    def read(i, what):
      m = model[i]
      try:
        got = ad[i].simulation_state
      except errors.SimulationNotInitializedError:
        ctx.check(not m['live'], 'read-refused', f'{what}: reading the state of a started episode raised')
        ctx.probe('read_refused')
        return
      ctx.check(m['live'], 'read-without-episode', f'{what}: the state was served without a started episode')
      fg = scenario.flat(got)
      self.state(ctx, what, fg, scenario.flat(m['state']))

    def refused(i, action, what):
      """A call that must raise and must not touch anything."""
      before = srcs[i].pos
      try:
        ad[i].step(action)
      except errors.SimulationNotInitializedError:
        ctx.check(not model[i]['live'], 'wrong-error', f'{what}: not-initialised raised inside an episode')
      except errors.EpisodeAlreadyFinishedError:
        ctx.check(model[i]['live'] and model[i]['done'], 'wrong-error', f'{what}: episode-finished raised, model {model[i]["live"]} {model[i]["done"]}')
      else:
        raise core.Violation('stepped-outside-episode', f'{what}: step was served though '
                             + ('the episode is over' if model[i]['live'] else 'no episode was started'))
      ctx.check(srcs[i].pos == before, 'source-overread', f'{what}: a refused step read the source')
      ctx.probe('step_refused')

    for j, op in enumerate(plan['ops']):
      i = op['a'] if k == 2 else 0
      m, a, src = model[i], ad[i], srcs[i]
      what = f'op {j} {op["op"]} on adapter {i}'
      r = np.random.RandomState(op['s'])
      if op['op'] == 'reset':
        ev = src.events[src.pos] if src.pos < len(src.events) else {'e': 'end'}
        before = src.pos
        self.reset(ctx, c, ref, a, m, ev, what, errors)
        ctx.check(src.pos == before + 1, 'source-overread', f'{what}: took {src.pos - before} scenarios')
      elif op['op'] == 'read':
        read(i, what)
      elif op['op'] == 'spec':
        self.specs(ctx, c, ref, a, what)
      elif op['op'] == 'bad':
        if m['live'] and not m['done']:
          shape = ref.action_shape()
          bad = np.zeros(int(np.prod(shape)) + 1 + r.randint(3), np.float32)
          try:
            a.step(bad)
          except Exception as e:  # any error will do  # pylint: disable=broad-except
            ctx.fault('misshapen_action')
            del e
          else:
            raise core.Violation('misshapen-action-accepted', f'{what}: {bad.shape} for {shape}')
        else:
          refused(i, self.action(c, ref, a, r, op)[0], what)
        read(i, what)
      else:
        for _ in range(3 if op['op'] == 'run' else 1):
          action, data = self.action(c, ref, a, r, op)
          if not m['live'] or m['done']:
            refused(i, action, what)
            continue
          got = a.step(action)
          act = ref.action(data, np.ones(data.shape[:-1] + (1,), bool))
          rew = ref.reward(m['state'], act)
          nxt = ref.step(m['state'], act)
          term, trunc = np.asarray(ref.env.termination(nxt)), np.asarray(ref.env.truncation(nxt))
          done = bool(np.all(term | trunc))
          ctx.event('step', i, done, np.asarray(rew))
          ctx.step(ref.lanes())
          ctx.check((got.step_type == dm_env.StepType.LAST) == done and not got.first(), 'step-type',
                    f'{what}: {got.step_type} while the environment says done={done}')
          self.close(ctx, 'reward', what, got.reward, rew)
          self.discount(ctx, what, got.discount, term, done, c)
          m['state'], m['done'] = nxt, done
          self.obs(ctx, c, what, got.observation, ref.env.observe(nxt))
          self.state(ctx, what, scenario.flat(a.simulation_state), scenario.flat(nxt))
      ctx.state(op['op'], m['live'], m['done'], src.log[-1] if src.log else '', i)
    for i in range(k):
      read(i, 'the end')

  def action(self, c, sim, a, r, op):
    """(what the user passes, the command the environment must see)."""
    import jax.numpy as jnp
    shape = sim.action_shape()
    if c['dyn'].startswith('disc'):
      kk = int(np.prod(np.array(ep.BINS[c['dyn']]) + 1))
      data = r.randint(0, kk, shape).astype(np.int32)
    elif c['dyn'] == 'state':
      data = r.uniform(-50, 50, shape).astype(np.float32)
    else:
      lo, hi = ep.bounds(c['dyn'])
      amp = {'in': 1, 'out': 3, 'edge': 1, 'small': .1}[op['m']]
      u = r.uniform(-1, 1, shape)
      u = np.sign(u) if op['m'] == 'edge' else u
      data = ((lo + hi) / 2 + amp * u * (hi - lo) / 2).astype(np.float32)
    spec = tuple(a.action_spec().shape)
    given = data.reshape(tuple(c['batch']) + spec)
    if op['form'] == 'jnp':
      return jnp.asarray(given), data
    if op['form'] == 'py' and given.shape == ():
      return given.item(), data
    if op['form'] == 'list' and given.ndim == 1:
      return given.tolist(), data
    return given, data

  def reset(self, ctx, c, ref, a, m, ev, what, errors):
    m['live'], m['done'] = False, False
    try:
      got = a.reset()
    except SourceError:
      ctx.check(ev['e'] == 'fail', 'reset-error', f'{what}: source error on event {ev}')
      ctx.fault('source_failed')
      return
    except StopIteration:
      ctx.check(ev['e'] == 'end', 'reset-error', f'{what}: StopIteration on event {ev}')
      ctx.fault('source_ended')
      return
    except errors.SimulationNotInitializedError:
      ctx.check(ev['e'] == 'finished', 'reset-error', f'{what}: not-initialised raised on event {ev}')
      ctx.fault('source_finished_scenario')
      return
    ctx.check(ev['e'] == 'ok', 'reset-served', f'{what}: an episode was started from a {ev["e"]} event')
    m['live'] = True
    m['state'] = ref.env.reset(self.scn(ref, c, ev))
    ctx.event('reset', int(np.asarray(m['state'].timestep)))
    ctx.check(bool(got.first()), 'step-type', f'{what}: {got.step_type} after a reset')
    ctx.check(got.reward is None and got.discount is None, 'reset-timestep', f'{what}: {got.reward} {got.discount}')
    self.obs(ctx, c, what, got.observation, ref.env.observe(m['state']))
    self.state(ctx, what, scenario.flat(a.simulation_state), scenario.flat(m['state']))

  def specs(self, ctx, c, ref, a, what):
    import jax
    sp = a.action_spec()
    one = () if c['env'] == 'planning' else (c['n'],)
    want = one + (ep.dim(c['dyn']),)
    disc = c['dyn'].startswith('disc')
    if disc and want == (1,) and c.get('squeeze', True):
      want = ()
    ctx.check(tuple(sp.shape) == want, 'action-spec', f'{sp} want {want}')
    if disc:
      lo, hi = 0, int(np.prod(np.array(ep.BINS[c['dyn']]) + 1)) - 1
    else:
      lo, hi = ep.bounds(c['dyn'])
    ctx.check(np.allclose(np.broadcast_to(lo, want), np.asarray(sp.minimum)) and
              np.allclose(np.broadcast_to(hi, want), np.asarray(sp.maximum)), 'action-spec', f'{sp.minimum} {sp.maximum}')
    rs, ds = a.reward_spec(), a.discount_spec()
    ctx.check(tuple(rs.shape) == one and np.dtype(rs.dtype) == np.float32, 'reward-spec', f'{what}: {rs}')
    ctx.check(tuple(ds.shape) == () and float(ds.minimum) == 0 and float(ds.maximum) == 1, 'discount-spec', f'{what}: {ds}')
    ctx.check(a.config is a.stateless_env.config, 'config', f'{what}: {a.config}')
    ctx.probe('specs')
    if not c.get('observe'):
      ob = ref.env.observe(ref.env.reset(self.scn(ref, c, {'e': 'ok', 's': 1})))
      nb = len(c['batch'])
      for x, y in zip(jax.tree_util.tree_leaves(a.observation_spec()), jax.tree_util.tree_leaves(ob)):
        ctx.check(tuple(x.shape) == tuple(y.shape[nb:]) and x.dtype == y.dtype, 'observation-spec', f'{x} {y.shape} {y.dtype}')

  def discount(self, ctx, what, got, term, done, c):
    got = np.asarray(got, float)
    want = 1.0 - term.astype(float) if done else np.ones(())
    ctx.check(np.array_equal(np.broadcast_to(got, np.shape(want)), want), 'discount', f'{what}: {got} want {want}')

  def obs(self, ctx, c, what, got, want):
    import jax
    if c.get('observe'):
      ctx.check(set(got) == set(want), 'observation', f'{what}: {set(got)}')
    a, b = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
    ctx.check(len(a) == len(b), 'observation', f'{what}: structure')
    for x, y in zip(a, b):
      self.close(ctx, 'observation', what, x, y)

  def close(self, ctx, name, what, x, y):
    x, y = np.asarray(x), np.asarray(y)
    ok = x.shape == y.shape and (bool(np.all(ep.close(x, y, atol=2e-4, rtol=2e-6))) if y.dtype.kind == 'f' else np.array_equal(x, y))
    ctx.check(ok, name, lambda: f'{what}: got {x.shape} {x.reshape(-1)[:5]} want {y.shape} {y.reshape(-1)[:5]}')

  def state(self, ctx, what, got, want):
    for k in want:
      ctx.check(k in got, 'state', k)
      self.close(ctx, 'state', f'{what} {k}', got[k], want[k])

  def nontrivial(self, plan, ctx):
    return ctx.sim_steps > 0 or ctx.probes.get('step_refused', 0) > 0


PROP = P()
