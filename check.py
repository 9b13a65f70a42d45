#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C05                     quick or thorough by VERIF_TIER, VERIF_SEED
  check.py C05 --replay FILE       replays a violation (exit 1 if it recurs)
  check.py C05 --selftest          runs seeds twice under different process
                                   settings and compares event-log digests
Exit 0: held on everything explored. Exit 1: VIOLATION line. Else: error.
"""
import argparse
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dst import procenv  # pylint: disable=wrong-import-position


def start(job, scratch, name, extra=None):
  job = dict(job, out=os.path.join(scratch, name + '.jsonl'))
  env = procenv.child_env(dict({'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
                                'DST_SCRATCH': scratch, 'TMPDIR': scratch,
                                'XLA_FLAGS': procenv.XLA[job.get('xla') or job['plan'].get('xla', 'plain')]},
                               **(extra or {})))
  err = open(os.path.join(scratch, name + '.err'), 'wb')
  p = subprocess.Popen([procenv.python(), '-m', 'dst.worker'], cwd=HERE, env=env,
                       stdin=subprocess.PIPE, stdout=err, stderr=err)
  p.stdin.write(json.dumps(job).encode())
  p.stdin.close()
  return p, job


def read(job):
  try:
    with open(job['out']) as f:
      return [json.loads(l) for l in f if l.endswith('\n')]
  except FileNotFoundError:
    return []


def wait_all(procs, deadline):
  for p, _ in procs:
    left = max(1, deadline - time.monotonic())
    try:
      p.wait(left)
    except subprocess.TimeoutExpired:
      for q, _ in procs:
        q.kill()
      return False
  return True


def watch(procs, deadline):
  """Waits for the workers; a violation found by one soon ends the others."""
  found = None
  while any(p.poll() is None for p, _ in procs):
    now = time.monotonic()
    if found is None and any(p.poll() is not None and any(r['ev'] == 'violation' for r in read(j)) for p, j in procs):
      found = now
    if now > deadline or found is not None and now > found + 3:
      for p, _ in procs:
        p.kill()
        p.wait()
      return found is not None
    time.sleep(.2)
  return True


def replay(pid, plan, scratch, name='replay', extra=None, events=False, timeout=600):
  p, job = start({'kind': 'replay', 'prop': pid, 'plan': plan, 'events': events}, scratch, name, extra)
  if not wait_all([(p, job)], time.monotonic() + timeout):
    return None
  for r in read(job):
    if r['ev'] == 'replay':
      return r
  return None


def tail(path, n=3000):
  try:
    with open(path, 'rb') as f:
      return f.read()[-n:].decode(errors='replace')
  except OSError:
    return ''


def plan_jobs(prop_meta, pid, tier, seed, budget, workers, shrink_s, known):
  ncls, nruns = prop_meta['classes'], prop_meta['runs']
  by = collections.OrderedDict((c, []) for c in range(ncls))
  for r in range(nruns):
    by[r % ncls].append(r)
  # Deal classes round robin; split classes while workers are idle.
  units = [(c, [r for r in rs if (prop_meta['xla'][c] or xla_mode(ncls, c, r)) == x], x) for c, rs in by.items() for x in procenv.XLA]
  units = [u for u in units if u[1]]
  while len(units) < workers:
    units.sort(key=lambda u: -len(u[1]))
    c, rs, x = units[0]
    if len(rs) < 2 * prop_meta.get('min_split', 4):
      break
    h = len(rs) // 2
    units = units[1:] + [(c, rs[:h], x), (c, rs[h:], x)]
  units.sort(key=lambda u: (-len(u[1]), u[0], u[2]))
  cost = lambda rs: len(rs) + prop_meta.get('class_cost', 5)
  total = sum(cost(u[1]) for u in units)
  bins = []
  for x in procenv.XLA:
    mine = [u for u in units if u[2] == x]
    if not mine:
      continue
    share = sum(cost(u[1]) for u in mine) / total
    nb = max(1, min(len(mine), round(workers * share)))
    bb = [dict(classes=[], runs={}, n=0, xla=x) for _ in range(nb)]
    for c, rs, _ in mine:
      b = min(bb, key=lambda y: y['n'])
      b['classes'].append(c)
      b['runs'].setdefault(str(c), []).extend(rs)
      b['n'] += cost(rs)
    for b in bb:
      b['classes'] = list(dict.fromkeys(b['classes']))
    bins += bb
  sample = sorted(r for rs in by.values() for r in rs[:1])[:max(3, prop_meta.get('rerun', 0))]
  return [dict(kind='search', prop=pid, tier=tier, seed=seed, budget_s=budget,
               shrink_s=shrink_s, classes=b['classes'], runs=b['runs'],
               sample=sample, known=known, xla=b['xla']) for b in bins]


def xla_mode(ncls, c, run):
  """Which compiler setting a run is executed under (procenv.XLA)."""
  k = c if ncls >= 4 else c + run // ncls
  return 'plain' if k % 4 == 3 else 'nosimp'


def prop_meta(pid, tier):
  code = ('import json,sys;from dst.worker import load_prop;p=load_prop(sys.argv[1]);'
          'print("META"+json.dumps(dict(xla=[c.get("xla") for c in p.classes(sys.argv[2])],'
          'classes=len(p.classes(sys.argv[2])),runs=p.runs(sys.argv[2]),'
          'rule=p.rule,real=p.real,stub=p.stub,assumptions=p.assumptions,'
          'min_split=getattr(p,"min_split",4),class_cost=getattr(p,"class_cost",5),'
          'rerun=getattr(p,"rerun",0))))')
  r = subprocess.run([procenv.python(), '-c', code, pid, tier], cwd=HERE,
                     env=procenv.child_env(), capture_output=True, text=True)
  for l in r.stdout.splitlines():
    if l.startswith('META'):
      return json.loads(l[4:])
  print(r.stdout, r.stderr, file=sys.stderr)
  raise SystemExit(2)


ACROSS = 'differs-across-processes'


def across(pid, plans, digests, scratch):
  """Executes plans in another process under another hash seed; violations."""
  out = []
  procs = [start({'kind': 'replay', 'prop': pid, 'plan': pl}, scratch, f'across{i}', {'PYTHONHASHSEED': str(77 + i)})
           for i, pl in enumerate(plans)]
  wait_all(procs, time.monotonic() + 600)
  for (p, j), d in zip(procs, digests):
    r = [x for x in read(j) if x['ev'] == 'replay']
    if not r:
      out.append('error')
    elif r[0]['digest'] != d:
      out.append({'kind': ACROSS, 'detail': f'the same plan gives event log {d} in one process and '
                  f'{r[0]["digest"]} in another', 'data': {}})
    else:
      out.append(None)
  return out


def findings(pid):
  with open(os.path.join(HERE, 'KNOWN_FINDINGS.json')) as f:
    return [e for e in json.load(f)['findings'] if e['property'] == pid and e['status'] == 'known']


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--replay')
  ap.add_argument('--selftest', action='store_true')
  ap.add_argument('--runs', type=int)
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--workers', type=int, default=0)
  a = ap.parse_args()
  pid = a.prop
  scratch = tempfile.mkdtemp(prefix=f'dst-{pid}-')
  try:
    rc = run(a, pid, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  sys.exit(rc)


def run(a, pid, scratch):
  t0 = time.monotonic()
  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    r = replay(pid, rep['plan'], scratch, events=True)
    if r is None:
      print(tail(os.path.join(scratch, 'replay.err')), file=sys.stderr)
      return 2
    if rep['kind'] == ACROSS:
      r['violation'] = across(pid, [rep['plan']], [r['digest']], scratch)[0]
    print(json.dumps(r['violation'], indent=1), 'event-log digest', r['digest'])
    if r['violation'] and r['violation']['kind'] == rep['kind']:
      print(f'VIOLATION property={pid} replay={a.replay}')
      return 1
    return 0
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  print(f'{pid}: master seed {a.seed}, tier {tier}', flush=True)
  meta = prop_meta(pid, tier)
  if a.runs:
    meta['runs'] = a.runs
  workers = a.workers or min(8, os.cpu_count() or 4)
  budget = 480 if tier == 'quick' else int(os.environ.get('DST_THOROUGH_S', '3000'))
  kf = findings(pid)
  if a.selftest:
    return selftest(a, pid, tier, meta, scratch)
  jobs = plan_jobs(meta, pid, tier, a.seed, budget, workers,
                   float(os.environ.get('DST_SHRINK_S', 60 if tier == 'quick' else 180)), [e['signature'] for e in kf])
  procs = [start(j, scratch, f'w{i}') for i, j in enumerate(jobs)]
  ok = watch(procs, t0 + budget + 240)
  runs, viols, errors, known_seen, cut = [], [], [], set(), 0
  for i, (p, j) in enumerate(procs):
    recs = read(j)
    kinds = [r['ev'] for r in recs]
    runs += [r for r in recs if r['ev'] == 'run']
    viols += [r for r in recs if r['ev'] == 'violation']
    known_seen |= {r['sig'] for r in recs if r['ev'] == 'known'}
    cut += kinds.count('budget')
    if 'done' not in kinds:
      trace = [r['trace'] for r in recs if r['ev'] == 'error']
      errors.append((i, p.returncode, trace[0] if trace else tail(os.path.join(scratch, f'w{i}.err'))))
  if meta.get('rerun') and not viols and not errors and ok:
    some = [r for r in runs if 'plan' in r][:meta['rerun']]
    for r, v in zip(some, across(pid, [r['plan'] for r in some], [r['digest'] for r in some], scratch)):
      if v == 'error':
        errors.append((-1, None, 'rerun failed'))
      elif v is not None:
        viols.append(dict(v, run=r['run'], plan=r['plan'], original=r['plan'], tried=0))
  wall = time.monotonic() - t0
  rc = 0
  lines = []
  if viols:
    viols.sort(key=lambda v: v['run'])
    v = viols[0]
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-seed{a.seed}-run{v["run"]}.json')
    r = replay(pid, v['plan'], scratch)
    same = bool(r and r['violation'] and r['violation']['kind'] == v['kind'])
    if v['kind'] == ACROSS:
      same = True  # two processes disagreeing is the reproduction
    doc = {'property': pid, 'seed': a.seed, 'run': v['run'], 'tier': tier, 'kind': v['kind'],
           'detail': v['detail'], 'data': v['data'], 'plan': v['plan'], 'original_plan': v['original'],
           'shrink_candidates_tried': v['tried'], 'event_digest': r['digest'] if r else None,
           'reproduced_in_fresh_process': same}
    with open(path, 'w') as f:
      json.dump(doc, f, indent=1, default=str)
    print(f'violation {v["kind"]}: {v["detail"][:1500]}')
    print(f'minimised from {len(json.dumps(v["original"]))} to {len(json.dumps(v["plan"]))} bytes of plan'
          f' ({v["tried"]} candidates); reproduced in a fresh process: {same}')
    lines.append(f'VIOLATION property={pid} replay={path}')
    rc = 1
  elif errors or not ok:
    rc = 2
    print(f'{len(errors)} workers failed', file=sys.stderr)
    for i, c, t in errors[:1]:
      print(f'worker {i} failed (exit {c}):\n{t}', file=sys.stderr)
  elif not runs:
    print('no runs completed', file=sys.stderr)
    rc = 2
  for e in kf:
    if e['signature'] in known_seen:
      print(f'KNOWN-FINDING: property={pid} {e["what"]}')
  evidence(a, pid, tier, meta, runs, viols, wall, cut, jobs)
  print(f'{pid}: {len(runs)} runs, {sum(r["steps"] for r in runs)} simulated steps,'
        f' {sum(r["checks"] for r in runs)} checks, {wall:.1f} s')
  for l in lines:
    print(l)
  sys.stdout.flush()
  return rc


def evidence(a, pid, tier, meta, runs, viols, wall, cut, jobs):
  faults, probes, states = collections.Counter(), collections.Counter(), set()
  for r in runs:
    faults.update(r['faults'])
    probes.update(r['probes'])
    states.update(r['states'])
  distinct = {r['plan_digest'] for r in runs if r['nontrivial']}
  n = len(runs)
  ev = {
      'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
      'coverage': {
          'evaluations': n,
          'distinct_nontrivial': len(distinct),
          'rule': meta['rule'],
          'samples': [r['plan'] for r in runs if 'plan' in r][:3] or [{'note': 'none'}],
          'simulated_runs_per_hour': round(n / wall * 3600) if wall else 0,
          'seeds': f'{n} run seeds derived from master seed {a.seed}',
          'simulated_steps': sum(r['steps'] for r in runs),
          'simulated_seconds': round(sum(r['sim_time'] for r in runs), 3),
          'oracle_checks': sum(r['checks'] for r in runs),
          'faults_fired': dict(sorted(faults.items())),
          'probes_hit': dict(sorted(probes.items())),
          'distinct_states': len(states),
          'distinct_states_measure': 'digests of the abstract states a run reported through Ctx.state (see DESIGN.md)',
          'event_log_digests_distinct': len({r['digest'] for r in runs}),
          'static_classes': meta['classes'],
          'runs_cut_by_time_budget': cut,
          'worker_processes': len(jobs),
          'components_real': meta['real'],
          'components_stubbed': meta['stub'],
      },
      'assumptions': meta['assumptions'],
      'wall_s': round(wall, 2),
      'violations': len(viols),
  }
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)


def selftest(a, pid, tier, meta, scratch):
  """Each run twice: other PYTHONHASHSEED, other worker count; same digests."""
  out = []
  for tag, hs, w in (('a', '0', 8), ('b', '4242', 3)):
    jobs = plan_jobs(meta, pid, tier, a.seed, 3000, w, 1, [])
    procs = [start(j, scratch, f'{tag}{i}', {'PYTHONHASHSEED': hs}) for i, j in enumerate(jobs)]
    wait_all(procs, time.monotonic() + 3600)
    d = {}
    for p, j in procs:
      for r in read(j):
        if r['ev'] == 'run':
          d[r['run']] = (r['digest'], 'violation' in r)
        if r['ev'] == 'error':
          print(r['trace'])
    out.append(d)
  diff = [r for r in sorted(set(out[0]) | set(out[1])) if out[0].get(r) != out[1].get(r)]
  print(f'{pid} selftest: {len(out[0])} runs twice, {len(diff)} differ {diff[:10]}')
  return 2 if diff else 0


if __name__ == '__main__':
  main()
