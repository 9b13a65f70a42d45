"""Shared helpers of the demonstrations (copied beside each demo)."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jax
import jax.numpy as jnp
import numpy as np

import world as W
from waymax import agents, config, dataloader, datatypes, dynamics, env as wenv, metrics
from waymax.env.wrappers import brax_wrapper, dm_env_wrapper

OT = config.ObjectType


def spec(seed, **over):
  base = dict(presence='all', garbage='finite', offset=0.0, layout='road',
              map_garbage='finite', sdc_dropout=False, yaw_wrap=True)
  base.update(over)
  return W.gen_spec(random.Random(seed), **base)


def scn(seed=0, edit=None, **over):
  a = W.arrays(spec(seed, **over))
  if edit is not None:
    edit(a)
  return W.state(a)


def cfg(n=6, init=3, ctrl=OT.SDC, inject=True, mets=('log_divergence',), rew=None, **kw):
  return config.EnvironmentConfig(
      max_num_objects=n, init_steps=init, controlled_object=ctrl,
      allow_new_objects_after_warmup=inject,
      metrics=config.MetricsConfig(metrics_to_run=tuple(mets)),
      rewards=config.LinearCombinationRewardConfig(rewards=dict(rew or {'overlap': -1.0})), **kw)


def benv(dyn, **kw):
  return wenv.BaseEnvironment(dyn, cfg(**kw))


def penv(dyn, actors=(), params=(), **kw):
  return wenv.PlanningAgentEnvironment(dyn, cfg(**kw), actors, params)


def act(data, valid=True):
  data = jnp.asarray(data)
  return datatypes.Action(data=data, valid=jnp.full(data.shape[:-1] + (1,), valid))


def same(a, b):
  return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == 'f')
             for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b), strict=True))


def close(a, b, tol=1e-3):
  return np.allclose(np.asarray(a), np.asarray(b), atol=tol, rtol=1e-4, equal_nan=True)


def check(ok, what):
  if not bool(ok):
    print('BROKEN:', what)
    sys.exit(1)


def wrap(a):
  return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi
