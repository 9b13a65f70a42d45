"""Simulated agents: stateful, stochastic, recording what they are handed."""
import chex
import jax
import jax.numpy as jnp
import numpy as np

from waymax import datatypes
from waymax.agents import actor_core


@chex.dataclass
class TapAction(datatypes.Action):
  """An action carrying what its actor saw: key, call count, state mark, params."""
  tap: jax.Array


def key_bits(key):
  return jax.random.key_data(key).astype(jnp.uint32).reshape(-1) if key is not None else jnp.zeros(2, jnp.uint32)


def tap_values(key, actor_state, params, state):
  """Exact as float32: 16-bit halves of the key, counters, the clock."""
  b = key_bits(key)
  parts = [(b >> 16).astype(jnp.float32), (b & 0xffff).astype(jnp.float32),
           jnp.stack([actor_state['count'].astype(jnp.float32),
                      jnp.asarray(params['gain'], jnp.float32),
                      jnp.asarray(state.timestep, jnp.float32)])]
  return jnp.concatenate(parts)


def make_tap_actor(action_shape_fn, lo, hi, discrete=0):
  """A stateful stochastic driver of every object (or of the planned vehicle)."""

  def init(rng, state):
    b = key_bits(rng)
    return {'count': jnp.zeros((), jnp.int32),
            'mark': (b & 0xff).astype(jnp.float32).sum() / 512.,
            'walk': jnp.zeros(action_shape_fn(state), jnp.float32),
            'born': jnp.concatenate([(b >> 16).astype(jnp.float32), (b & 0xffff).astype(jnp.float32)])}

  def select_action(params, state, actor_state, rng):
    shape = action_shape_fn(state)
    u = jax.random.uniform(rng, shape, minval=-1., maxval=1.)
    walk = .7 * actor_state['walk'] + .3 * u
    if discrete:
      data = jnp.clip(((walk + 1) / 2 * discrete).astype(jnp.int32), 0, discrete - 1)
    else:
      half = jnp.asarray((hi - lo) / 2, jnp.float32)
      data = walk * half * params['gain'] + .01 * actor_state['mark'] * half
      cur = state.current_sim_trajectory
      data = data + .002 * actor_state['count'] * half
      del cur
    new = {'count': actor_state['count'] + 1, 'mark': actor_state['mark'], 'walk': walk,
           'born': actor_state['born']}
    tap = jnp.concatenate([tap_values(rng, actor_state, params, state), actor_state['born']])
    # it may be idle: all its actions invalid at once, or some of them
    idle = jnp.asarray(params.get('idle', 0.), jnp.float32)
    k = jax.random.fold_in(rng, 77)
    lazy = jax.random.uniform(k) < idle
    some = jax.random.uniform(jax.random.fold_in(k, 1), shape[:-1] + (1,)) < idle / 2
    valid = ~(lazy | some)
    action = TapAction(data=data, valid=valid,
                       tap=jnp.broadcast_to(tap, shape[:-1] + tap.shape))
    return actor_core.WaymaxActorOutput(
        actor_state=new, action=action, is_controlled=jnp.ones(shape[:-1], bool))

  return actor_core.actor_core_factory(init=init, select_action=select_action, name='tap')


def make_sim_agent(kind, salt):
  """A simulated agent for the planning environment (5-value pose commands).

  kind: which objects it claims - 'all', 'none', 'even', 'odd', 'vehicles',
  'sdc', 'blink' (odd steps only), 'near' (by position).
  """

  def claim(state, actor_state):
    m = state.object_metadata
    idx = jnp.broadcast_to(jnp.arange(m.num_objects), m.shape)
    even = idx % 2 == 0
    if kind == 'all':
      return jnp.ones(m.shape, bool)
    if kind == 'none':
      return jnp.zeros(m.shape, bool)
    if kind == 'even':
      return even
    if kind == 'odd':
      return ~even
    if kind == 'vehicles':
      return m.object_types == 1
    if kind == 'sdc':
      return m.is_sdc
    if kind == 'notsdc':
      return ~m.is_sdc
    if kind == 'blink':
      return jnp.broadcast_to((actor_state['count'] % 2 == 1), m.shape) & ~m.is_sdc
    if kind == 'near':
      x = state.current_sim_trajectory.x[..., 0]
      return (jnp.floor(x / 7).astype(jnp.int32) % 2) == 0
    raise ValueError(kind)

  def init(rng, state):
    return {'count': jnp.zeros((), jnp.int32), 'key': key_bits(rng), 'salt': jnp.asarray(salt, jnp.int32)}

  def select_action(params, state, actor_state, rng):
    cur = state.current_sim_trajectory
    shape = state.object_metadata.shape
    noise = 0. if rng is None else jax.random.uniform(rng, shape + (5,), minval=-.2, maxval=.2)
    base = jnp.concatenate([cur.x, cur.y, cur.yaw, cur.vel_x, cur.vel_y], axis=-1)
    data = base + noise + params['gain'] * (salt + 1) + .05 * actor_state['count'].astype(jnp.float32)
    new = {'count': actor_state['count'] + 1, 'key': key_bits(rng), 'salt': actor_state['salt']}
    return actor_core.WaymaxActorOutput(
        actor_state=new,
        action=datatypes.Action(data=data.astype(jnp.float32), valid=jnp.ones(shape + (1,), bool)),
        is_controlled=claim(state, actor_state))

  return actor_core.actor_core_factory(init=init, select_action=select_action, name=f'sim-{kind}-{salt}')


def tree_np(t):
  return jax.tree_util.tree_map(np.asarray, t)


def leaves_np(t):
  return [np.asarray(x) for x in jax.tree_util.tree_leaves(t)]
