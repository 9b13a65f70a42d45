"""Development tool: undoes each repair in a scratch copy; its check must object.

  revert.py [COMMIT...]
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fs = json.load(open(os.path.join(HERE, 'KNOWN_FINDINGS.json')))['findings']
for f in fs:
  if len(sys.argv) > 1 and f['commit'] not in sys.argv[1:]:
    continue
  d = tempfile.mkdtemp(prefix='rev_')
  try:
    c = os.path.join(d, 'repo')
    shutil.copytree('/repo', c, symlinks=True)
    r = subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', f['commit']], cwd=c, capture_output=True, text=True)
    if r.returncode:
      print(f['commit'], f['property'], 'does not revert:', r.stderr[-200:], flush=True)
      continue
    r = subprocess.run(['python3', 'check.py', f['property']], cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, DST_REPO=c, VERIF_SEED='1', VERIF_TIER='quick'))
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('violation')]
    print(f['commit'], f['property'], 'rc', r.returncode, (v or [''])[0][:150], r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
  finally:
    shutil.rmtree(d, ignore_errors=True)
