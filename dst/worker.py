"""Worker process: executes the runs of some classes of one property.

Reads a job (JSON) on stdin; writes one JSON line per event to the result file.
"""
import importlib
import json
import os
import sys
import time
import traceback


def load_prop(pid):
  mod = importlib.import_module('dst.props.' + pid.lower())
  return mod.PROP


def assert_repo():
  from dst import procenv
  import waymax
  d = os.path.realpath(os.path.dirname(waymax.__file__))
  want = os.path.realpath(os.path.join(procenv.REPO, 'waymax'))
  if d != want:
    raise SystemExit(f'waymax imported from {d}, not {want}')
  return os.path.realpath(procenv.REPO)


def job_search(job, out):
  from dst import core
  prop = load_prop(job['prop'])
  repo = assert_repo()
  known = job.get('known', [])
  classes = prop.classes(job['tier'])
  t0 = time.monotonic()
  for ci in job['classes']:
    cls = classes[ci]
    cache = {}
    for run in job['runs'][str(ci)]:
      if time.monotonic() - t0 > job['budget_s']:
        out({'ev': 'budget', 'class': ci, 'run': run})
        break
      rng = core.Rand(job['seed'], job['prop'], run)
      plan = prop.gen(rng, cls, job['tier'])
      plan['run'] = run
      plan['cls'] = cls
      plan['xla'] = job['xla']
      ts = time.monotonic()
      v, ctx = core.run_plan(prop, plan, cache, repo)
      rec = {
          'ev': 'run', 'run': run, 'class': ci, 'digest': ctx.digest(),
          'faults': dict(ctx.faults), 'probes': dict(ctx.probes),
          'states': sorted(ctx.states), 'steps': ctx.sim_steps,
          'sim_time': ctx.sim_time, 'checks': ctx.checks,
          'wall': round(time.monotonic() - ts, 3),
          'plan_digest': core.digest(json.dumps({k: x for k, x in plan.items() if k != 'run'}, sort_keys=True)),
          'nontrivial': bool(prop.nontrivial(plan, ctx)) if v is None else True,
      }
      if job.get('sample') and run in job['sample']:
        rec['plan'] = plan
      if v is not None:
        rec['violation'] = {'kind': v.kind, 'detail': v.detail[:2000], 'data': v.data}
        out(rec)
        sig = getattr(prop, 'finding_signature', lambda p, v: None)(plan, v)
        if sig is not None and sig in known:
          out({'ev': 'known', 'sig': sig, 'run': run})
          continue
        best, tried = core.minimise(prop, plan, v.kind, cache, repo,
                                    job.get('shrink_s', 60), time.monotonic)
        v2, _ = core.run_plan(prop, best, cache, repo)
        if v2 is None or v2.kind != v.kind:
          best, v2 = plan, v
        out({'ev': 'violation', 'run': run, 'plan': best, 'original': plan,
             'kind': v2.kind, 'detail': v2.detail[:4000], 'data': v2.data,
             'tried': tried})
        return
      out(rec)


def job_replay(job, out):
  from dst import core
  prop = load_prop(job['prop'])
  repo = assert_repo()
  v, ctx = core.run_plan(prop, job['plan'], {}, repo, keep_events=job.get('events', False))
  out({'ev': 'replay', 'digest': ctx.digest(),
       'events': ctx.events if job.get('events') else None,
       'violation': None if v is None else
       {'kind': v.kind, 'detail': v.detail[:4000], 'data': v.data}})


def main():
  job = json.load(sys.stdin)
  path = job['out']
  with open(path, 'w') as f:
    def out(rec):
      f.write(json.dumps(rec, default=str) + '\n')
      f.flush()
    try:
      {'search': job_search, 'replay': job_replay}[job['kind']](job, out)
      out({'ev': 'done'})
      code = 0
    except BaseException:  # pylint: disable=broad-except
      out({'ev': 'error', 'trace': traceback.format_exc()})
      traceback.print_exc()
      code = 1
  sys.stderr.flush()
  os._exit(code)  # reader threads of an abandoned data set must not keep us


if __name__ == '__main__':
  main()
