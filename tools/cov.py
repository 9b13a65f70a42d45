"""Development tool: which lines of waymax a few runs of each check execute.

  cov.py OUT.json C01 C02 ...   (one process per property; merges into OUT.json)
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
CODE = r'''
import sys, json, os
lines = set()
M = sys.monitoring
M.use_tool_id(2, 'cov')
root = os.path.realpath(os.environ.get('DST_REPO', '/repo')) + '/waymax/'
def ln(code, line):
  f = code.co_filename
  if f.startswith(root): lines.add((f[len(root):], line))
  return M.DISABLE
M.register_callback(2, M.events.LINE, ln)
M.set_events(2, M.events.LINE)
from dst.worker import load_prop
from dst import core
p = load_prop(sys.argv[1])
cl = p.classes('quick')
per = max(1, int(sys.argv[2]))
for ci, c in enumerate(cl):
  cache = {}
  for k in range(per):
    run = ci + k * len(cl)
    rng = core.Rand(1, p.id, run)
    plan = p.gen(rng, c, 'quick'); plan['run'] = run; plan['cls'] = c; plan['xla'] = 'plain'
    v, ctx = core.run_plan(p, plan, cache, root[:-8])
    if v is not None: print('V', p.id, run, v, file=sys.stderr)
json.dump(sorted(lines), open(sys.argv[3], 'w'))
os._exit(0)
'''
from dst import procenv
import concurrent.futures as cf, tempfile
def one(pid):
  with tempfile.TemporaryDirectory() as d:
    o = os.path.join(d, 'o.json')
    r = subprocess.run([procenv.python(), '-c', CODE, pid, '3', o], cwd=HERE, env=procenv.child_env({'DST_SCRATCH': d, 'TMPDIR': d}), capture_output=True, text=True)
    if not os.path.exists(o): return pid, None, r.stderr[-800:]
    return pid, json.load(open(o)), ''
out = {}
if os.path.exists(sys.argv[1]): out = json.load(open(sys.argv[1]))
with cf.ThreadPoolExecutor(4) as ex:
  for pid, l, e in ex.map(one, sys.argv[2:]):
    print(pid, len(l) if l else e, flush=True)
    if l: out[pid] = l
json.dump(out, open(sys.argv[1], 'w'))
