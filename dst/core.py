"""Simulator core: seeds, event log, violations, fault accounting, shrinking.

One integer decides a run: every choice derives from `Rand(master, prop, run)`.
A *plan* (plain JSON) is what the generator makes of it - scenario seeds,
configuration, operations and faults - and executing a plan is a pure function
of the plan and the code under test, so a plan is also the replay file.
"""
import collections
import hashlib
import json
import random
import traceback

import numpy as np


def Rand(*parts):
  h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
  return random.Random(int.from_bytes(h[:8], 'big'))


class Violation(Exception):
  """The property does not hold in this run. `kind` is the violation class."""

  def __init__(self, kind, detail, **data):
    super().__init__(f'{kind}: {detail}')
    self.kind = kind
    self.detail = detail
    self.data = data


class HarnessError(Exception):
  """The harness itself is at fault (never a violation)."""


class Ctx:
  """Per-run context: event log digest, fault and probe counters."""

  def __init__(self, cache=None):
    self.cache = cache if cache is not None else {}
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.states = set()
    self.sim_steps = 0
    self.sim_time = 0.0
    self.checks = 0
    self._h = hashlib.sha256()
    self.events = []
    self.keep_events = False

  # -- logging never draws randomness nor reads a clock.
  def event(self, name, *vals):
    self._h.update(name.encode())
    for v in vals:
      self._hash(v)
    if self.keep_events:
      self.events.append([name, digest(vals)])

  def _hash(self, v):
    if isinstance(v, (dict,)):
      for k in sorted(v):
        self._h.update(str(k).encode())
        self._hash(v[k])
    elif isinstance(v, (list, tuple)):
      for x in v:
        self._hash(x)
    elif v is None or isinstance(v, (str, int, float, bool)):
      self._h.update(repr(v).encode())
    else:
      a = np.asarray(v)
      self._h.update(str(a.dtype).encode() + str(a.shape).encode())
      self._h.update(np.ascontiguousarray(a).tobytes())

  def digest(self):
    return self._h.hexdigest()[:16]

  def fault(self, kind, n=1):
    if n:
      self.faults[kind] += int(n)

  def probe(self, name, n=1):
    if n:
      self.probes[name] += int(n)

  def state(self, *key):
    self.states.add(digest(key))

  def step(self, n=1, dt=0.1):
    self.sim_steps += n
    self.sim_time += n * dt

  def check(self, ok, kind, detail='', **data):
    self.checks += 1
    if not ok:
      raise Violation(kind, detail() if callable(detail) else detail, **data)


def digest(v):
  c = Ctx()
  c._hash(v)
  return c.digest()[:12]


class Prop:
  """A property: generator of plans, executor with oracle, shrinker."""

  id = None
  rule = ''
  real = []
  stub = []
  assumptions = []
  uses_tf = False
  # Exceptions from the code under test that are not violations.
  tolerated = ()

  def classes(self, tier):
    """Static configurations; one worker runs all runs of a class (jit cache)."""
    return [{}]

  def runs(self, tier):
    return 40 if tier == 'quick' else 400

  def gen(self, rng, cls, tier):
    raise NotImplementedError

  def execute(self, plan, ctx):
    raise NotImplementedError

  def nontrivial(self, plan, ctx):
    return ctx.sim_steps > 0 and ctx.checks > 0

  # -- shrinking: candidates simpler than plan, best first.
  list_keys = ('ops',)

  def shrink_candidates(self, plan):
    for key in self.list_keys:
      ops = plan.get(key)
      if not ops:
        continue
      n = len(ops)
      size = n // 2
      while size >= 1:
        for i in range(0, n, size):
          cand = dict(plan)
          cand[key] = ops[:i] + ops[i + size:]
          yield cand
        size //= 2
    for key in self.list_keys:
      for i, op in enumerate(plan.get(key) or ()):
        if isinstance(op, dict):
          for k in ('faults', 'fault'):
            v = op.get(k)
            if isinstance(v, list) and v:
              for j in range(len(v)):
                c = dict(op)
                c[k] = v[:j] + v[j + 1:]
                cand = dict(plan)
                cand[key] = plan[key][:i] + [c] + plan[key][i + 1:]
                yield cand
    for cand in self.simplify(plan):
      yield cand

  def simplify(self, plan):
    scn = plan.get('scn')
    if isinstance(scn, dict):
      for c in simplify_spec(scn):
        yield dict(plan, scn=c)
    elif isinstance(scn, list):
      for i, s in enumerate(scn):
        for c in simplify_spec(s):
          yield dict(plan, scn=scn[:i] + [c] + scn[i + 1:])


SIMPLE = dict(presence='all', garbage='womd', offset=0.0, layout='open',
              map_garbage='womd', yaw_wrap=True, blackout=None, id_base=0)


def simplify_spec(spec):
  for k, v in SIMPLE.items():
    if k in spec and spec[k] != v:
      yield dict(spec, **{k: v})


def from_repo(tb_exc, repo):
  """Whether the exception passed through the code under test."""
  for fr in traceback.extract_tb(tb_exc.__traceback__):
    if fr.filename.startswith(repo + '/waymax'):
      return True
  c = tb_exc.__cause__ or tb_exc.__context__
  return from_repo(c, repo) if c is not None else False


def run_plan(prop, plan, cache, repo, keep_events=False):
  """Executes a plan. Returns (violation-or-None, ctx)."""
  plan = json.loads(json.dumps(plan))  # what a replay file would hold
  ctx = Ctx(cache)
  ctx.keep_events = keep_events
  try:
    prop.execute(plan, ctx)
    return None, ctx
  except Violation as v:
    return v, ctx
  except HarnessError:
    raise
  except (KeyboardInterrupt, SystemExit, MemoryError):
    raise
  except BaseException as e:  # pylint: disable=broad-except
    if from_repo(e, repo):
      last = [f for f in traceback.extract_tb(e.__traceback__)][-1]
      v = Violation(
          'unexpected-error:' + type(e).__name__,
          f'{type(e).__name__}: {str(e)[:400]} (raised through waymax on a legal'
          f' workload, at {last.filename}:{last.lineno})')
      return v, ctx
    raise


def minimise(prop, plan, kind, cache, repo, budget_s, clock):
  """Greedy delta debugging: keep simpler plans that fail the same way."""
  t0 = clock()
  best = plan
  tried = 0
  seen = set()
  improved = True
  while improved and clock() - t0 < budget_s:
    improved = False
    for cand in prop.shrink_candidates(best):
      if clock() - t0 > budget_s:
        break
      key = json.dumps(cand, sort_keys=True)
      if key in seen:
        continue
      seen.add(key)
      tried += 1
      try:
        v, _ = run_plan(prop, cand, cache, repo)
      except Exception:  # a shrunk plan may be meaningless to the harness
        continue
      if v is not None and v.kind == kind:
        best = cand
        improved = True
        break
  return best, tried
