#!/usr/bin/env python3
"""Development tool: builds and confirms planted bugs under seeded/.

  plant.py SPEC.py [IDS...] [--no-tests] [--no-check] [--seeds K]

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
For each: scratch copy of /repo, patch, demo on both trees, stable tests, and
the property's check against the copy (DST_REPO).
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(HOME='/root', LANG='C.UTF-8', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PIP_NO_INDEX='1',
           JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='2', MPLBACKEND='Agg')
DEMO_SH = '''#!/bin/bash
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, timeout=900, env=None, **kw):
  return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, **kw)


def stable_tests(copy):
  x = os.path.join(copy, '..', 'junit.xml')
  run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', '4', '-p', 'no:cacheprovider', '--timeout=300',
       '--continue-on-collection-errors', '-o', 'python_files=*_test.py', '-o', 'junit_family=xunit2',
       '--junitxml=' + x, 'waymax'], copy, env=dict(ENV, PYTHONPATH=copy))
  out = os.path.join(copy, '..', 'res.json')
  r = run(['python3', '/opt/vp/results.py', out, 'junit:' + x], copy)
  got = json.load(open(out))
  base = json.load(open('/opt/vp/BASELINE.json'))['stable']
  passed = set(got.get('passed') or [k for k, v in got.get('tests', {}).items() if v == 'passed'])
  return sorted(set(base) - passed)


def build(bug, opts):
  d = os.path.join(VERIF, 'seeded', bug['id'])
  os.makedirs(d, exist_ok=True)
  tmp = tempfile.mkdtemp(prefix='plant_')
  log = []
  try:
    copy = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', copy, symlinks=True)
    if 'edits' in bug:
      for f, old, new in bug['edits']:
        p = os.path.join(copy, f)
        s = open(p).read()
        if s.count(old) != 1:
          return bug['id'], f'EDIT matches {s.count(old)} times in {f}: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
      diff = run(['git', 'diff'], copy).stdout
      open(os.path.join(d, 'patch.diff'), 'w').write(diff)
      open(os.path.join(d, 'demo.py'), 'w').write('from demo_lib import *\n\n' + bug['demo'].strip() + "\nprint('ok')\n")
      open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH.replace('export ', 'export XLA_FLAGS=--xla_force_host_platform_device_count=2 ') if bug.get('env2') else DEMO_SH)
      os.chmod(os.path.join(d, 'demo.sh'), 0o755)
      shutil.copy(os.path.join(VERIF, 'tools', 'demo_lib.py'), os.path.join(d, 'demo_lib.py'))
      shutil.copy(os.path.join(VERIF, 'dst', 'scenario.py'), os.path.join(d, 'world.py'))
      for extra in bug.get('files', ()):
        shutil.copy(os.path.join(VERIF, extra), os.path.join(d, os.path.basename(extra)))
      json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    else:
      r = run(['git', 'apply', os.path.join(d, 'patch.diff')], copy)
      if r.returncode:
        return bug['id'], 'PATCH does not apply: ' + r.stderr[-200:]
    clean = os.path.join(tmp, 'clean')
    shutil.copytree('/repo', clean, symlinks=True)
    r = run(['bash', os.path.join(d, 'demo.sh')], clean, 300)
    if r.returncode:
      log.append('DEMO-FAILS-CLEAN ' + (r.stdout + r.stderr)[-600:])
    r = run(['bash', os.path.join(d, 'demo.sh')], copy, 300)
    if not r.returncode:
      log.append('DEMO-PASSES-PATCHED')
    elif 'BROKEN' not in r.stdout:
      log.append('demo-patched-odd: ' + (r.stdout + r.stderr)[-400:])
    if opts['tests']:
      bad = stable_tests(copy)
      if bad:
        log.append(f'TESTS-BROKEN {bad[:4]}')
    if opts['check']:
      res = []
      for s in range(1, 1 + opts['seeds']):
        e = dict(os.environ, DST_REPO=copy, VERIF_TIER='quick')
        r = run(['python3', 'check.py', bug['prop'], '--seed', str(s)], VERIF, 900, env=e)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        res.append('caught' if r.returncode == 1 and any(f"property={bug['prop']}" in l for l in v)
                   else f'MISSED(rc={r.returncode})')
        if r.returncode not in (0, 1):
          log.append(r.stdout[-300:] + r.stderr[-300:])
      log.append(' '.join(res))
    return bug['id'], ' | '.join(log) or 'ok'
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def main():
  args = sys.argv[1:]
  opts = dict(tests='--no-tests' not in args, check='--no-check' not in args, seeds=1)
  if '--seeds' in args:
    i = args.index('--seeds')
    opts['seeds'] = int(args[i + 1])
    del args[i:i + 2]
  pos = [a for a in args if not a.startswith('--')]
  if pos and pos[0].endswith('.py'):
    ns = {}
    exec(open(pos[0]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(pos) == 1 or b['id'] in pos[1:]]
  else:
    ids = pos or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    bugs = [dict(id=i, prop=json.load(open(os.path.join(VERIF, 'seeded', i, 'meta.json')))['property']) for i in ids]
  par = 1 if opts['check'] and not opts['tests'] else 2
  with cf.ThreadPoolExecutor(par) as ex:
    for i, msg in ex.map(lambda b: build(b, opts), bugs):
      print(f'{i}: {msg}', flush=True)


if __name__ == '__main__':
  main()
