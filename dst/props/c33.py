"""C33: misuse is refused where it happens and leaves no mark."""
import dataclasses
import json

import numpy as np

from dst import core
from dst import episodes as ep
from dst import scenario

M = ['log_divergence', 'overlap', 'sdc_progression', 'sdc_off_route', 'sdc_wrongway']
RW = {'log_divergence': -.3, 'overlap': -1., 'sdc_progression': .5}
S = dict(metrics=M, rewards=RW, p=20, npath=2, ppath=6, t=9)
CLASSES = [
    ep.cls(dyn='bicycle', ctrl='VALID', n=3, **S),
    ep.cls(dyn='dlocal', ctrl='MODELED', n=4, batch=[2], init=2, inject=False, **S),
    ep.cls(dyn='state', ctrl='SDC', n=3, batch=[1, 2], **S),
    ep.cls(dyn='disc_bicycle', ctrl='VALID', n=5, **S),
    ep.cls(env='planning', dyn='bicycle', n=4, agents=['even', 'near'], **S),
    ep.cls(env='planning', dyn='dglobal', n=3, agents=['near'], batch=[2], **S),
    ep.cls(env='planning', dyn='disc_dglobal', n=3, init=2, **S),
]


# ---------------------------------------------------------------- misuses
# Each makes a call that cannot be served. `w` is the world, `s` the current
# state, `a` a proper action for it, `r` a RandomState. The call must raise.

def _lead(x, k=1):
  import jax
  import jax.numpy as jnp
  return jax.tree_util.tree_map(lambda z: jnp.stack([z] * k), x)


def _resize(a, axis, k):
  import jax
  import jax.numpy as jnp

  def one(z):
    ix = np.arange(k) % z.shape[axis]
    return jnp.take(z, ix, axis=axis)
  return jax.tree_util.tree_map(one, a)


def _objects(x, k):
  """A trajectory or metadata of k objects."""
  import jax
  import jax.numpy as jnp
  b = x.valid.ndim - 2 if hasattr(x, 'valid') else x.ids.ndim - 1
  return jax.tree_util.tree_map(lambda z: jnp.take(z, np.arange(k) % z.shape[b], axis=b), x)


def other_count(w, r):
  n = w.c['n']
  return int(r.choice([k for k in (1, n - 1, n + 1, 2 * n) if k != n and k > 0]))


def act_objects(w, s, a, r, how):
  return how.step(s, _resize(a, -2, other_count(w, r)))


def act_extra_batch(w, s, a, r, how):
  return how.step(s, _lead(a, int(r.choice([1, 2, 3]))))


def act_less_rank(w, s, a, r, how):
  import jax
  return how.step(s, jax.tree_util.tree_map(lambda z: z[0], a))


def act_valid_float(w, s, a, r, how):
  import jax.numpy as jnp
  return how.step(s, a.replace(valid=a.valid.astype(r.choice([np.float32, np.int32]))))


def act_valid_flat(w, s, a, r, how):
  return how.step(s, a.replace(valid=a.valid[..., 0]))


def act_valid_wide(w, s, a, r, how):
  return how.step(s, a.replace(valid=_resize(a.valid, -1, int(r.choice([2, 3])))))


def reset_objects(w, s, a, r, how):
  k = other_count(w, r)
  return how.reset(w.raw.replace(log_trajectory=_objects(w.raw.log_trajectory, k),
                                 sim_trajectory=_objects(w.raw.sim_trajectory, k),
                                 object_metadata=_objects(w.raw.object_metadata, k)))


def state_log_objects(w, s, a, r, how):
  return how.step(s.replace(log_trajectory=_objects(s.log_trajectory, other_count(w, r))), a)


def state_sim_objects(w, s, a, r, how):
  return how.step(s.replace(sim_trajectory=_objects(s.sim_trajectory, other_count(w, r))), a)


def metrics_no_paths(w, s, a, r, how):
  return how.metrics(s.replace(sdc_paths=None))


def reward_no_paths(w, s, a, r, how):
  return how.reward(s.replace(sdc_paths=None), a)


def actor_states(w, s, a, r, how):
  have = list(s.sim_agent_actor_states)
  more = have + [None] * int(r.choice([1, 2]))
  return how.step(s.replace(sim_agent_actor_states=more if not have or r.rand() < .5 else have[:-1]), a)


def _damage(x, r):
  """One field of the wrong shape or of the wrong kind."""
  names = [f.name for f in dataclasses.fields(x) if hasattr(getattr(x, f.name), 'dtype')]
  f = names[r.randint(len(names))]
  v = getattr(x, f)
  if v.ndim and r.rand() < .5 and v.shape[-1]:
    return x.replace(**{f: _resize(v, -1, v.shape[-1] + int(r.choice([1, 2])))})
  kinds = [k for k in (np.int32, np.float32, np.bool_, np.float16) if np.dtype(k) != v.dtype]
  return x.replace(**{f: v.astype(kinds[r.randint(len(kinds))])})


def validate_part(w, s, a, r, how):
  parts = [s.log_trajectory, s.sim_trajectory, s.object_metadata, s.log_traffic_light, s.roadgraph_points, s.sdc_paths]
  return _damage(parts[r.randint(len(parts))], r).validate()


def validate_update(w, s, a, r, how):
  from waymax import datatypes
  cur = s.current_sim_trajectory
  return _damage(datatypes.TrajectoryUpdate(x=cur.x, y=cur.y, yaw=cur.yaw, vel_x=cur.vel_x, vel_y=cur.vel_y, valid=cur.valid), r).validate()


def validate_more(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.agents import actor_core
  n, b = w.c['n'], s.shape
  k = other_count(w, r)
  act = datatypes.Action(data=jnp.zeros(b + (n, 2)), valid=jnp.ones(b + (n, 1), bool))
  arr = datatypes.MaskedArray(value=jnp.zeros(b + (n, 3)), valid=jnp.ones(b + (n,), bool))
  i = r.randint(11)
  if i < 8:
    return [act.replace(valid=_resize(act.valid, -1, 2)), act.replace(valid=act.valid.astype(np.float32)), act.replace(valid=_resize(act.valid, -2, k)),
            act.replace(data=_resize(act.data, -2, k)), arr.replace(value=_resize(arr.value, -2, k)), arr.replace(valid=arr.valid.astype(np.int32)),
            actor_core.WaymaxActorOutput(actor_state=None, action=act, is_controlled=jnp.ones(b + (k,), bool)),
            actor_core.WaymaxActorOutput(actor_state=None, action=act, is_controlled=jnp.ones(b + (n, 1), bool))][i].validate()
  o = datatypes.sdc_observation_from_state(s, roadgraph_top_k=4)
  return [o.replace(is_ego=o.is_ego.astype(np.float32)), o.replace(is_ego=_resize(o.is_ego, -1, k)),
          o.replace(trajectory=_resize_tree(o.trajectory, len(b)))][i - 8].validate()


def _resize_tree(x, axis):
  import jax
  return jax.tree_util.tree_map(lambda z: z[(slice(None),) * axis + (0,)], x)


def metric_result(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax import metrics
  cur = s.current_sim_trajectory
  v, ok = [(cur.x, cur.valid[..., 0]), (cur.ids if hasattr(cur, 'ids') else cur.timestamp_micros, cur.valid),
           (cur.x, cur.valid.astype(jnp.float32))][r.randint(3)]
  return metrics.abstract_metric.MetricResult.create_and_validate(v, ok)


def mask_kind(w, s, a, r, how):
  from waymax import config
  from waymax import datatypes
  kinds = [None, 'SDC', 0, config.ObjectType.NON_SDC]
  return datatypes.get_control_mask(s.object_metadata, kinds[r.randint(len(kinds))])


def select_shape(w, s, a, r, how):
  from waymax import datatypes
  return datatypes.select_by_onehot(s.sim_trajectory, _resize(s.object_metadata.is_sdc, -1, other_count(w, r)))


def too_many_points(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax import datatypes
  at = jnp.zeros(s.shape + (2,))
  k = s.roadgraph_points.num_points
  if r.rand() < .5:
    return datatypes.roadgraph.filter_topk_roadgraph_points(s.roadgraph_points, at, k + int(r.choice([1, 2, 100])))
  return datatypes.roadgraph.filter_topk_roadgraph_points(s.roadgraph_points, jnp.zeros(s.shape + (3,)), 2)


def odd_frame(w, s, a, r, how):
  from waymax import datatypes
  f = [datatypes.observation_from_state, datatypes.sdc_observation_from_state][r.randint(2)]
  return f(s, roadgraph_top_k=4, coordinate_frame=[None, 'SDC', 17][r.randint(3)])


def too_many_observed(w, s, a, r, how):
  from waymax import datatypes
  f = [datatypes.observation_from_state, datatypes.sdc_observation_from_state][r.randint(2)]
  return f(s, roadgraph_top_k=s.roadgraph_points.num_points + 1)


def merge_nothing(w, s, a, r, how):
  from waymax.agents import actor_core
  return actor_core.merge_actions([])


def planning_controls(w, s, a, r, how):
  from waymax import config
  from waymax import env
  kinds = [config.ObjectType.VALID, config.ObjectType.MODELED, config.ObjectType.NON_SDC]
  return env.PlanningAgentEnvironment(w.sim.dyn, dataclasses.replace(w.sim.config, controlled_object=kinds[r.randint(3)]))


def planning_params(w, s, a, r, how):
  from dst import actors
  from waymax import config
  from waymax import env
  k, m = [(1, 0), (0, 1), (2, 1), (1, 2)][r.randint(4)]
  return env.PlanningAgentEnvironment(
      w.sim.dyn, dataclasses.replace(w.sim.config, controlled_object=config.ObjectType.SDC),
      sim_agent_actors=[actors.make_sim_agent('even', i) for i in range(k)], sim_agent_params=[{'gain': .1}] * m)


def dm_controls(w, s, a, r, how):
  from waymax import config
  from waymax.env.wrappers import dm_env_wrapper
  kinds = [config.ObjectType.VALID, config.ObjectType.MODELED, config.ObjectType.NON_SDC]
  return dm_env_wrapper.make_sdc_dm_environment(w.sim.dyn, config.DatasetConfig(path='none'),
                                                dataclasses.replace(w.sim.config, controlled_object=kinds[r.randint(3)]))


def reward_name(w, s, a, r, how):
  from waymax import config
  from waymax import rewards
  names = [{'no_such_metric': 1.}, {'overlap': 1., 'offroads': 0.}, {'': 0.}][r.randint(3)]
  return rewards.LinearCombinationReward(config.LinearCombinationRewardConfig(rewards=names))


def metric_name(w, s, a, r, how):
  import types
  from waymax import metrics
  names = [('overlap', 'no_such_metric'), ('overlaps',), ('log_divergence', '')][r.randint(3)]
  return metrics.run_metrics(s, types.SimpleNamespace(metrics_to_run=names))


def register_again(w, s, a, r, how):
  from waymax import metrics
  names = sorted(metrics.get_metric_names())
  return metrics.register_metric(names[r.randint(len(names))], metrics.OverlapMetric())


def short_history(w, s, a, r, how):
  from waymax import config
  k = int(r.choice([1, 2, 5, 11]))
  return config.EnvironmentConfig(init_steps=k, observation=config.ObservationConfig(num_steps=k + int(r.choice([1, 3]))))


def routes_needed(w, s, a, r, how):
  from waymax import config
  name = ['sdc_wrongway', 'sdc_progression', 'sdc_off_route'][r.randint(3)]
  names = tuple(x for x in ('overlap', name) if r.rand() < .6 or x == name)
  m = config.MetricsConfig(metrics_to_run=names)
  return config.WaymaxConfig(data_config=config.DatasetConfig(path='none', include_sdc_paths=False),
                             env_config=config.EnvironmentConfig(metrics=m))


def agent_kind(w, s, a, r, how):
  import types
  from waymax import agents
  from waymax import config
  t, o = [(config.SimAgentType.IDM, config.ObjectType.VALID), (config.SimAgentType.IDM, config.ObjectType.MODELED),
          ('IDM', config.ObjectType.SDC), (None, config.ObjectType.NON_SDC)][r.randint(4)]
  return agents.create_sim_agents_from_config(types.SimpleNamespace(agent_type=t, controlled_objects=o))


def bins(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax.dynamics import discretizer
  k = int(r.choice([1, 2, 3]))
  d = discretizer.Discretizer(jnp.full((k,), -1.), jnp.full((k,), 1.), jnp.full((k,), 4))
  return d.discretize(jnp.zeros((3, k + int(r.choice([1, 2])))))


def bins_shape(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax.dynamics import discretizer
  k = [[2, 2, 1], [1, 2, 2], [2, 1, 2], [3, 3, 1], [1, 1, 2], [2, 1, 1]][r.randint(6)]
  return discretizer.Discretizer(jnp.full((k[0],), -1.), jnp.full((k[1],), 1.), jnp.full((k[2],), 4))


def pose_shape(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.datatypes import observation as ob
  o = datatypes.sdc_observation_from_state(s, roadgraph_top_k=4)
  pose = ob.ObjectPose2D.from_center_and_yaw(xy=jnp.zeros(s.shape + (2, 2)), yaw=jnp.zeros(s.shape + (2,)), valid=jnp.ones(s.shape + (2,), bool))
  f, x = [(ob.transform_observation, o), (ob.transform_trajectory, o.trajectory), (ob.transform_roadgraph_points, o.roadgraph_static_points),
          (ob.transform_traffic_lights, o.traffic_lights)][r.randint(4)]
  return f(x, pose)


def transform_shape(w, s, a, r, how):
  import jax.numpy as jnp
  from waymax.utils import geometry
  k = int(r.choice([2, 3]))
  return [lambda: geometry.transform_points(jnp.zeros((k, 3, 3)), jnp.zeros((k + 1, 2))),
          lambda: geometry.transform_trajectories(jnp.zeros((k, 6)), jnp.zeros((k, 3, 3)), jnp.zeros((k, 1))),
          lambda: geometry.transform_direction(jnp.zeros((k, 3, 3)), jnp.zeros((k + 1, 2))),
          lambda: geometry.corners_from_bboxes(jnp.zeros((k, 4))),
          lambda: geometry.has_overlap(jnp.zeros((k, 5)), jnp.zeros((k + 1, 5)))][r.randint(5)]()


def draw_state(w, s, a, r, how):
  from waymax import visualization as viz
  # neither the batch asked for nor a single scenario
  if s.shape:
    return viz.plot_simulator_state(s) if len(s.shape) > 1 or r.rand() < .5 else viz.plot_simulator_state(_lead(s), batch_idx=0)
  return viz.plot_simulator_state(s, batch_idx=int(r.choice([0, 1])))


def draw_parts(w, s, a, r, how):
  from waymax.visualization import utils
  from waymax.visualization import viz
  bad = [lambda ax: viz.plot_trajectory(ax, _lead(s.sim_trajectory), np.ones(3, bool)),
         lambda ax: viz.plot_roadgraph_points(ax, _lead(s.roadgraph_points)),
         lambda ax: viz.plot_traffic_light_signals_as_points(ax, _lead(s.log_traffic_light)),
         lambda ax: utils.plot_numpy_bounding_boxes(ax, np.zeros((2, 4)), np.zeros(3)),
         lambda ax: utils.plot_numpy_bounding_boxes(ax, np.zeros((2, 5)), np.zeros(4)),
         lambda ax: utils.plot_numpy_bounding_boxes(ax, np.zeros(5), np.zeros(3))]
  return bad[r.randint(len(bad))](None)


def time_key(w, s, a, r, how):
  from waymax import dataloader
  f = [dataloader.womd_factories.simulator_state_from_womd_dict, dataloader.womd_factories.traffic_lights_from_womd_dict][r.randint(2)]
  return f({}, time_key=['never', '', 'now', None][r.randint(4)])


def features(w, s, a, r, how):
  from waymax.dataloader import womd_utils
  p, q = [(None, None), (3, None), (None, 4)][r.randint(3)]
  return womd_utils.get_features_description(include_sdc_paths=True, num_paths=p, num_points_per_path=q)


def data_format(w, s, a, r, how):
  from waymax.dataloader import dataloader_utils
  it = dataloader_utils.tf_examples_dataset('/nonexistent/x@1', ['TFRECORD', None, 7][r.randint(3)], lambda x: x)
  return next(iter(it))


BASE = ('act_objects', 'act_extra_batch', 'act_less_rank')
PLAN = ('actor_states', 'act_extra_batch')
STEP = ('act_valid_float', 'act_valid_flat', 'act_valid_wide', 'reset_objects', 'state_log_objects',
        'state_sim_objects', 'metrics_no_paths', 'reward_no_paths')
ASIDE = ('validate_part', 'validate_more', 'validate_update', 'metric_result', 'mask_kind', 'select_shape', 'too_many_points', 'odd_frame',
         'too_many_observed', 'merge_nothing', 'planning_controls', 'planning_params', 'dm_controls', 'reward_name',
         'metric_name', 'register_again', 'short_history', 'routes_needed', 'agent_kind', 'bins', 'bins_shape', 'pose_shape', 'transform_shape',
         'draw_state', 'draw_parts', 'time_key', 'features', 'data_format')


def names(c):
  own = BASE if c['env'] != 'planning' else tuple(
      k for k in PLAN if k != 'act_extra_batch' or c['batch'])
  return own + STEP


class World:
  pass


class P(core.Prop):
  id = 'C33'
  rule = ('a run is one episode during which a seeded schedule makes calls that cannot be served (wrong object counts, '
          'shapes, kinds, names, missing parts; eagerly or compiled, on the environment, its adapters or the tools '
          'around it) between proper steps; the proper steps are compared exactly with those of an environment that '
          'was never misused; non-trivial if a misuse was refused')
  real = ep.REAL + ['waymax.config', 'waymax.datatypes (validation)', 'waymax.metrics', 'waymax.rewards', 'waymax.visualization (argument checks)',
                    'waymax.env.wrappers']
  stub = ep.STUB
  assumptions = ['only misuses the documentation or an explicit check names are made; which exception is raised is not judged']
  list_keys = ('ops', 'mis')
  class_cost = 8

  def classes(self, tier):
    return CLASSES + ([dict(c, n=c['n'] + 3, t=20) for c in CLASSES] if tier == 'thorough' else [])

  def runs(self, tier):
    return 70 if tier == 'quick' else 900

  def gen(self, rng, c, tier):
    ops = ep.gen_ops(rng, c, rng.randint(2, c['t'] - c['init'] - 1))
    own = list(names(c))
    for op in ops:
      op['mis'] = []
      for _ in range(rng.choice((1, 3, 5, 9, 14))):
        k = rng.choice(own) if rng.random() < .5 else rng.choice(ASIDE)
        op['mis'].append({'k': k, 's': rng.randrange(2**31), 'how': rng.choice(('eager', 'jit', 'jit', 'brax'))})
    return {'scn': ep.gen_scn(rng, c), 'ops': ops, 'dm': c['env'] == 'planning' and rng.random() < .5}

  def world(self, ctx, c):
    key = 'w' + json.dumps(c, sort_keys=True)
    if key not in ctx.cache:
      from dst import actors

      def sim():
        ag = [actors.make_sim_agent(k, i) for i, k in enumerate(c.get('agents', []))]
        return ep.Sim(c, actors=ag, params=[{'gain': .1}] * len(ag))
      w = World()
      w.c, w.sim, w.twin = c, sim(), sim()
      ctx.cache[key] = w
    return ctx.cache[key]

  def execute(self, plan, ctx):
    import jax
    c = plan['cls']
    w = self.world(ctx, c)
    from waymax.env.wrappers import brax_wrapper
    w.raw = w.sim.state(plan['scn'])
    brax = brax_wrapper.BraxWrapper(w.sim.env, w.sim.dyn, w.sim.config)

    class Brax:
      reset = brax.reset
      metrics = brax.metrics
      reward = brax.reward

      @staticmethod
      def step(s, a):
        return brax.step(brax_wrapper.TimeStep(state=s, reward=None, observation=None, done=None, discount=None, metrics={}), a)
    hows = {'eager': w.sim.env, 'jit': w.sim, 'brax': Brax}
    dm = None
    if plan['dm']:
      dm = [self.dm(ctx, w, x) for x in ('sim', 'twin')]
      for d in dm:
        d.raw = [w.raw]
        d.env.reset()
    s = w.sim.reset(w.raw)
    z = w.twin.reset(w.raw)
    self.equal(ctx, s, z, 'after reset')
    prev = None
    for i, op in enumerate(plan['ops']):
      data, valid = ep.deliver(w.sim, op, scenario.flat(s), prev, ctx)
      prev = data, valid
      a = w.sim.action(data, valid)
      at = f'step {i}'
      for m in op['mis']:
        before = jax.tree_util.tree_map(lambda x: np.array(x), (s, a, w.raw))
        try:
          globals()[m['k']](w, s, a, np.random.RandomState(m['s']), hows[m['how']])
          served = True
        except Exception as e:  # pylint: disable=broad-except
          served = False
          if 'unexpected keyword' in str(e) or isinstance(e, (NameError, ImportError)):
            raise core.HarnessError(f'{m["k"]}: {e}') from e
          ctx.event('refused', m['k'], type(e).__name__)
        ctx.fault('misuse_' + m['k'])
        ctx.check(not served, 'accepted', lambda: f'{at}: {m["k"]} ({m["how"]}) was served')
        self.equal(ctx, (s, a, w.raw), before, f'{at}: after {m["k"]}')
        ctx.state(m['k'], m['how'], i)
        if dm is not None and m['s'] % 2:
          self.dm_misuse(ctx, w, dm[0], data, np.random.RandomState(m['s']), at)
      s2, z2 = w.sim.step(s, a), w.twin.step(z, a)
      self.equal(ctx, s2, z2, at)
      self.equal(ctx, w.sim.metrics(s2), w.twin.metrics(z2), at + ' metrics')
      self.equal(ctx, w.sim.reward(s, a), w.twin.reward(z, a), at + ' reward')
      if dm is not None and np.all(valid):
        x, y = [d.env.step(data) for d in dm]
        self.equal(ctx, tuple(x), tuple(y), at + ' of the dm_env adapter')
        if y.step_type == 2:
          dm = None
      ctx.step(w.sim.lanes())
      s, z = s2, z2
      ctx.event('step', i, *[np.asarray(x) for x in jax.tree_util.tree_leaves(s.sim_trajectory)])
    ctx.probe('refused', sum(len(op['mis']) for op in plan['ops']))

  def dm(self, ctx, w, which):
    key = which + json.dumps(w.c, sort_keys=True)
    if key not in ctx.cache:
      from waymax.env.wrappers import dm_env_wrapper
      d = World()
      d.raw = [w.raw]

      def feed():
        while True:
          yield d.raw[0]
      d.env = dm_env_wrapper.DMEnvWrapper(feed(), getattr(w, which).env)
      ctx.cache[key] = d
    return ctx.cache[key]

  def dm_misuse(self, ctx, w, d, data, r, at):
    """A command of a size that is not the action's leaves the episode as it is."""
    before = d.env.simulation_state
    shape = np.shape(data)
    wrong = [shape[:-1] + (shape[-1] + 1,), (2,) + shape, shape[:-1] + (0,)]
    x = np.zeros(wrong[r.randint(len(wrong))], np.float32)
    try:
      d.env.step(x)
      served = True
    except Exception:  # pylint: disable=broad-except
      served = False
    ctx.fault('misuse_dm_step')
    ctx.check(not served, 'accepted', lambda: f'{at}: the dm_env adapter took a command of {x.shape}')
    self.equal(ctx, d.env.simulation_state, before, f'{at}: dm_env after a command of {x.shape}')

  def equal(self, ctx, got, want, what):
    import jax
    tu = jax.tree_util
    ctx.check(tu.tree_structure(got) == tu.tree_structure(want), 'mark', lambda: f'{what}: another structure')
    bad = [i for i, (x, y) in enumerate(zip(tu.tree_leaves(got), tu.tree_leaves(want))) if not ep.same(x, y)]
    ctx.check(not bad, 'mark', lambda: f'{what}: {len(bad)} arrays differ from those of an environment never misused')

  def nontrivial(self, plan, ctx):
    return any(k.startswith('misuse_') for k in ctx.faults)


PROP = P()
