"""C12: planning steps move the planned vehicle and simulated agents by precedence."""
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import refmetrics as rm
from dst import scenario

S = dict(env='planning', p=12, npath=1, ppath=4, metrics=[], rewards={'overlap': -1.})
CLASSES = [
    ep.cls(dyn='bicycle', init=3, n=5, t=11, agents=['even', 'rand'], rng=True, **S),
    ep.cls(dyn='dlocal', init=2, n=5, t=9, agents=['rand', 'rand', 'rand'], rng=False, **S),
    ep.cls(dyn='bicycle', init=3, n=4, t=9, batch=[2], agents=['rand', 'vehicles', 'blink'], rng=True, inject=False, **S),
    ep.cls(dyn='state', init=1, n=4, t=8, batch=[2, 1], agents=['all', 'none', 'rand'], rng=True, **S),
    ep.cls(dyn='disc_bicycle', init=2, n=6, t=10, agents=['rand'], rng=True, inject=False, **S),
    ep.cls(dyn='dglobal', init=2, n=3, t=7, agents=[], rng=True, **S),
    ep.cls(dyn='bicycle_norm', init=3, n=4, t=6, agents=['rand', 'all'], rng=True, jit=False, **S),
    ep.cls(dyn='bicycle', init=3, n=6, t=12, agents=['blink', 'rand', 'near', 'odd'], rng=True, **S),
]
CALLS = []


def make_agent(kind, salt, jit):
  """Records in its state all that it was handed and all that it answered."""
  import jax
  import jax.numpy as jnp
  from dst import actors
  from waymax import datatypes
  from waymax.agents import actor_core

  def claim(state, count):
    m = state.object_metadata
    idx = jnp.broadcast_to(jnp.arange(m.num_objects), m.shape)
    x = state.current_sim_trajectory.x[..., 0]
    bits = m.ids + idx * 7 + count * (3 if kind == 'rand' else 0) + salt * 5
    c = {'all': jnp.ones(m.shape, bool), 'none': jnp.zeros(m.shape, bool), 'even': idx % 2 == 0,
         'odd': idx % 2 == 1, 'vehicles': m.object_types == 1, 'rand': (bits // 2) % 2 == 0,
         'blink': jnp.broadcast_to(count % 2 == 1, m.shape),
         'near': jnp.floor(x / 7).astype(jnp.int32) % 2 == 0}[kind]
    return c & ~m.is_sdc

  def blank(state):
    shape = state.object_metadata.shape
    return {'count': jnp.zeros((), jnp.int32), 'salt': jnp.asarray(salt, jnp.int32),
            'token': jnp.asarray(salt + 1, jnp.int32), 'key': jnp.zeros(2, jnp.uint32),
            'gain': jnp.zeros(()), 'clock': jnp.asarray(-7, jnp.int32), 'seen': jnp.zeros(shape),
            'data': jnp.zeros(shape + (5,)), 'claim': jnp.zeros(shape, bool)}

  def init(rng, state):
    if not jit:
      CALLS.append(('init', salt))
    return dict(blank(state), key=actors.key_bits(rng), clock=jnp.asarray(state.timestep, jnp.int32))

  def select_action(params, state, actor_state, rng):
    if not jit:
      CALLS.append(('act', salt))
    cur = state.current_sim_trajectory
    shape = state.object_metadata.shape
    noise = 0. if rng is None else jax.random.uniform(rng, shape + (5,), minval=-.4, maxval=.4)
    base = jnp.concatenate([cur.x, cur.y, cur.yaw, cur.vel_x, cur.vel_y], axis=-1)
    base = jnp.where(jnp.isfinite(base), base, 0.)
    data = (base + noise + params['gain'] * (salt + 1) + .03 * actor_state['count']).astype(jnp.float32)
    c = claim(state, actor_state['count'])
    # what an agent says about objects it does not claim must not matter
    data = jnp.where(c[..., None], data, data * 3 + 1e3 * (salt + 1))
    # nor does it matter whether an agent vouches for its action: it claims the object
    m = state.object_metadata
    good = (m.ids + 3 * actor_state['count'] + salt) % 5 != 0
    new = dict(actor_state, count=actor_state['count'] + 1, token=(actor_state['token'] * 31 + salt + 1) % 65521,
               key=actors.key_bits(rng), gain=jnp.asarray(params['gain'], jnp.float32),
               clock=jnp.asarray(state.timestep, jnp.int32), seen=cur.x[..., 0], data=data, claim=c)
    return actor_core.WaymaxActorOutput(
        actor_state=new, action=datatypes.Action(data=data, valid=good[..., None]), is_controlled=c)

  return actor_core.actor_core_factory(init=init, select_action=select_action, name=f'rec-{kind}-{salt}')


class P(core.Prop):
  id = 'C12'
  rule = ('a run is one planning episode with recording simulated agents and a faulty planned-vehicle channel; '
          'every object is compared at every step with the merge of the recorded answers; non-trivial if a '
          'claimed object was judged (or no agent is configured)')
  real = ep.REAL + ['waymax.agents.actor_core']
  stub = ep.STUB + ['simulated agents (recording; stochastic when given keys)']
  assumptions = ['agents do not claim the planned vehicle', 'objects present at the step are judged',
                 'objects whose logged boxes touch within rounding at the first log step are not judged']
  class_cost = 3

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 4, t=c['t'] + 20) for c in CLASSES if c['jit']] if tier == 'thorough' else [])

  def runs(self, tier):
    return 240 if tier == 'quick' else 3000

  def gen(self, rng, c, tier):
    return {'scn': ep.gen_scn(rng, c, layout=rng.choice(['crowd', 'road', 'open', 'crowd'])),
            'ops': ep.gen_ops(rng, c, rng.randint(1, min(c['t'] - c['init'], 3 if not c['jit'] else 99))),
            'key': rng.randrange(2**31), 'restore': rng.random() < .3,
            'bare': rng.random() < .5}

  def world(self, ctx, c):
    key = json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      ag = [make_agent(k, i, c['jit']) for i, k in enumerate(c['agents'])]
      params = [{'gain': np.float32(.07 * (i + 1))} for i in range(len(ag))]
      ctx.cache[key] = ep.Sim(c, actors=ag, params=params)
    return ctx.cache[key]

  def execute(self, plan, ctx):
    import jax
    c = plan['cls']
    sim = self.world(ctx, c)
    k = len(c['agents'])
    del CALLS[:]
    root = jax.random.PRNGKey(plan['key'])
    use = c['rng']
    args = (jax.random.fold_in(root, 0),) if use else ()
    keys = [tuple(np.asarray(args[0]).tolist())] if use else []
    s = sim.reset(sim.state(plan['scn']), *args)
    fl = scenario.flat(s)
    ast = self.states(ctx, s, k, 'reset')
    if not c['jit']:
      ctx.check(CALLS == [('init', i) for i in range(k)], 'agent-calls', f'reset made {CALLS}')
    for i in range(k):
      a = ast[i]
      ctx.check(int(a['salt']) == i and int(a['count']) == 0, 'agent-state', f'reset: agent {i} got {a["salt"]} {a["count"]}')
      ctx.check(int(a['clock']) == c['init'] - 1, 'agent-saw', f'agent {i} was initialised at clock {a["clock"]}')
      keys.append(tuple(a['key'].tolist())) if use else None
    stuck, sure = self.overlap0(c, fl)
    prev = None
    token = [int(a['token']) for a in ast]
    for j, op in enumerate(plan['ops'][:c['t'] - c['init']]):
      data, valid = ep.deliver(sim, op, fl, prev, ctx)
      args = (jax.random.fold_in(root, j + 1),) if use else ()
      del CALLS[:]
      if plan['restore'] and j == len(plan['ops']) // 2:
        ctx.fault('state_through_storage')
        s = jax.tree_util.tree_map(lambda x: jax.numpy.asarray(np.array(x)), s)
      s2 = sim.step(s, sim.action(data, valid), *args)
      f2 = scenario.flat(s2)
      new = self.states(ctx, s2, k, f'step {j}')
      t = int(np.asarray(fl['timestep']).reshape(-1)[0])
      ctx.event('step', j, f2['sim.x'][..., t + 1])
      ctx.step(sim.lanes())
      if use:
        keys.append(tuple(np.asarray(args[0]).tolist()))
      if not c['jit']:
        ctx.check(CALLS == [('act', i) for i in range(k)], 'agent-calls', f'a step made {CALLS}')
      cur = ep.current(fl)
      for i in range(k):
        a = new[i]
        ctx.check(int(a['salt']) == i, 'agent-state', f'step {j}: agent {i} holds the state of agent {a["salt"]}')
        ctx.check(int(a['count']) == j + 1, 'agent-state', f'step {j}: agent {i} was called {a["count"]} times in a row of states')
        token[i] = (token[i] * 31 + i + 1) % 65521
        ctx.check(int(a['token']) == token[i], 'agent-state', f'step {j}: agent {i} was not handed its latest state')
        ctx.check(np.isclose(a['gain'], .07 * (i + 1)), 'agent-params', f'step {j}: agent {i} got gain {a["gain"]}')
        ctx.check(int(a['clock']) == t, 'agent-saw', f'step {j}: agent {i} saw clock {a["clock"]}, the step starts at {t}')
        ctx.check(ep.same(a['seen'], cur['x']), 'agent-saw', f'step {j}: agent {i} did not see the state before the step')
        if use:
          keys.append(tuple(a['key'].tolist()))
        else:
          ctx.check(not a['key'].any(), 'agent-key', f'step {j}: agent {i} got a key though none was given')
      self.merge(ctx, c, sim, fl, f2, new, stuck, sure, data, valid, t)
      if plan['bare'] and j % 2 == 0:
        self.bare(ctx, c, sim, s, s2, fl, f2, data, valid, t)
      s, fl, prev = s2, f2, (data, valid)
    ctx.check(len(set(keys)) == len(keys), 'key-reused', f'{len(keys) - len(set(keys))} of {len(keys)} keys repeat')

  def bare(self, ctx, c, sim, s, s2, fl, f2, data, valid, t):
    """The planning motion model used on its own, as any motion model is."""
    import jax
    if not hasattr(sim, 'alone'):
      from waymax.env import planning_agent_environment as pa
      model = pa.PlanningAgentDynamics(ep.make_dynamics(c['dyn']))
      w = jax.jit if c['jit'] else (lambda f: f)
      sim.alone = w(lambda x, a: model.forward(
          action=a, trajectory=x.sim_trajectory, reference_trajectory=x.log_trajectory,
          is_controlled=x.object_metadata.is_sdc, timestep=x.timestep, allow_object_injection=c['inject']))
    if c['batch']:
      return  # a motion model takes one clock for all
    try:
      tr = sim.alone(s, sim.action(data, valid))
    except TypeError as e:
      tr = e
    ctx.check(not isinstance(tr, Exception), 'model-signature', lambda: f'not called as a motion model is: {tr}')
    ctx.probe('model_on_its_own')
    cur, log, sdc = ep.current(fl), ep.current(fl, 'log', at=t + 1), fl['meta.is_sdc']
    for f in scenario.TRAJ:
      got = np.asarray(getattr(tr, f))
      ctx.check(ep.same(np.delete(got, t + 1, -1), np.delete(fl['sim.' + f], t + 1, -1)), 'model-other-slots', f)
      a, b = got[..., t + 1], f2['sim.' + f][..., t + 1]
      if f in ep.DYN5:
        ok = ep.close(a, b, scale=np.nan_to_num(np.abs(b), posinf=0.), atol=1e-3, rtol=2e-5, angle=f == 'yaw') | ~np.isfinite(b)
        bad = sdc & cur['valid'] & ~ok
        ctx.check(not bad.any(), 'model-planned-vehicle', lambda: f'{f} at step {t+1}: {a[bad]}, in the environment {b[bad]}')
        bad = ~sdc & (a != log[f]) & ~((a != a) & (log[f] != log[f]))
        ctx.check(not bad.any(), 'model-others', lambda: f'{f} at step {t+1} of {ep.where(bad)}: {a[bad]}, log {log[f][bad]}')
    want = np.where(sdc & cur['valid'], True, log['valid'] if c['inject'] else cur['valid'] & log['valid'])
    got = np.asarray(tr.valid)[..., t + 1]
    ctx.check((got == want).all(), 'model-presence', lambda: f'step {t+1}: {got}, want {want}')

  def states(self, ctx, s, k, what):
    import jax
    st = s.sim_agent_actor_states
    ctx.check(len(st) == k, 'agent-state', f'{what}: {len(st)} states for {k} agents')
    return [jax.tree_util.tree_map(np.asarray, a) for a in st]

  def overlap0(self, c, fl):
    batch = tuple(c['batch'])
    stuck = np.zeros(batch + (c['n'],), bool)
    sure = np.ones(batch + (c['n'],), bool)
    for i in rm.indices(batch):
      v, m, ok = rm.overlap(rm.lane(fl, i), 0, 'log')
      stuck[i], sure[i] = (v > 0) & m, ok
    return stuck, sure

  def merge(self, ctx, c, sim, fl, f2, agents, stuck, sure, data, valid, t):
    cur, nxt, log = ep.current(fl), ep.current(f2, at=t + 1), ep.current(f2, 'log', at=t + 1)
    sdc = fl['meta.is_sdc']
    owner = np.full(sdc.shape, -1)
    want = np.stack([log[f] for f in ep.DYN5], -1).copy()
    for i, a in enumerate(agents):
      m = a['claim'] & ~stuck
      owner[m] = i
      want[m] = a['data'][m]
    claimed = owner >= 0
    # validity
    alive = np.where(cur['valid'], True if c['inject'] else cur['valid'], False)
    judge = sure & cur['valid'] & ~sdc
    wv = np.where(claimed, True, log['valid'])
    bad = judge & (nxt['valid'] != wv)
    ctx.check(not bad.any(), 'presence', lambda: f'presence at step {t+1} of {ep.where(bad)}, owners {owner}')
    absent = sure & ~cur['valid'] & ~sdc & ~claimed
    wa = log['valid'] if c['inject'] else np.zeros_like(log['valid'])
    bad = absent & (nxt['valid'] != wa)
    ctx.check(not bad.any(), 'presence', lambda: f'an absent unclaimed object at step {t+1}: {ep.where(bad)}')
    judge = judge & wv
    ctx.probe('claimed_judged', int((judge & claimed).sum()))
    ctx.probe('claims_refused_overlap', int(np.sum([(a['claim'] & stuck & judge).sum() for a in agents])) if agents else 0)
    ctx.probe('contested', int(sum((judge & (owner > i) & a['claim']).sum() for i, a in enumerate(agents))))
    for q, f in enumerate(ep.DYN5):
      w = want[..., q]
      m = judge & claimed
      bad = m & ~ep.close(nxt[f], w, atol=2e-5, rtol=3e-7, angle=f == 'yaw')
      ctx.check(not bad.any(), 'claimed-object', lambda: f'{f} at step {t+1} of {ep.where(bad)}: {nxt[f][bad][:3]}, '
                f'its agent said {w[bad][:3]} (owners {owner[bad][:3]})')
      m = (judge | absent & wa) & ~claimed
      bad = m & ~(nxt[f] == w)
      ctx.check(not bad.any(), 'unclaimed-object', lambda: f'{f} at step {t+1} of {ep.where(bad)}: {nxt[f][bad][:3]}, log {w[bad][:3]}')
    for f in ('z', 'length', 'width', 'height'):
      m = judge & ~claimed
      bad = m & ~(nxt[f] == log[f])
      if f == 'z':
        continue
      ctx.check(not bad.any(), 'unclaimed-object', lambda: f'{f} at step {t+1} of {ep.where(bad)}')
    # the planned vehicle
    pres = (cur['valid'] & sdc).any(-1)
    ok = pres & np.asarray(valid)[..., 0] & np.isfinite(np.asarray(data, np.float64)).all(-1)
    mine = {f: ep.pick_sdc(cur[f][..., None], fl)[..., 0] for f in ep.DYN5}
    got = {f: ep.pick_sdc(nxt[f][..., None], fl)[..., 0] for f in ep.DYN5}
    wantp = ep.ref_motion(c['dyn'], mine, data)
    mag = np.abs(mine['x']) + np.abs(mine['y'])
    with np.errstate(all='ignore'):
      speed = np.nan_to_num(np.hypot(mine['vel_x'], mine['vel_y']).astype(float), posinf=0.)
      mag = np.nan_to_num(mag, posinf=0.)
    for f, w in zip(ep.DYN5, wantp):
      scale = mag if f in 'xy' else speed * 30 + 1
      bad = ok & ~ep.close(got[f], w, scale=scale, atol=1e-3, rtol=2e-5, angle=f == 'yaw')
      ctx.check(not np.any(bad), 'planned-vehicle', lambda: f'{f} at step {t+1}: {got[f]}, its command gives {w}')
    gv = ep.pick_sdc(nxt['valid'][..., None], fl)[..., 0]
    ctx.check(not np.any(pres & ~gv), 'planned-vehicle', f'the planned vehicle vanished at step {t+1}')
    ctx.probe('planned_judged', int(np.sum(ok)))
    ctx.state(t, tuple(owner.reshape(-1)[:8]), tuple(nxt['valid'].reshape(-1)[:8]))
    del alive

  def nontrivial(self, plan, ctx):
    return ctx.probes['claimed_judged'] > 0 or (not plan['cls']['agents'] and ctx.sim_steps > 0)


PROP = P()
