"""Development tool: small random changes to waymax, judged by the checks.

  mutate.py OUT.jsonl COVERAGE.json SEED COUNT [PARALLEL]

COVERAGE.json (tools/cov.py) says which check runs which line. Each mutant is a
scratch copy; the checks of the properties nearest to it run until one objects.
Survivors are for a human to look at (equivalent, or a gap in a check).
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PREF = {
    'agents/actor_core': ['C15', 'C09', 'C12'], 'agents/agent_builder': ['C14', 'C12'], 'agents/constant_speed': ['C15'],
    'agents/expert': ['C06', 'C15'], 'agents/sim_agent': ['C12', 'C14'], 'agents/waypoint': ['C14'],
    'config': ['C33', 'C14', 'C10', 'C26'], 'dataloader/dataloader_utils': ['C23', 'C24', 'C25'], 'dataloader/womd_dataloader': ['C26', 'C24'],
    'dataloader/womd_factories': ['C26', 'C27'], 'dataloader/womd_utils': ['C26', 'C27'], 'datatypes/action': ['C05', 'C15', 'C10'],
    'datatypes/array': ['C07', 'C32'], 'datatypes/object_state': ['C26', 'C05', 'C16', 'C22'], 'datatypes/observation': ['C22'],
    'datatypes/operations': ['C01', 'C02', 'C22', 'C07', 'C13'], 'datatypes/roadgraph': ['C22', 'C26'], 'datatypes/route': ['C18', 'C26'],
    'datatypes/simulator_state': ['C02', 'C01', 'C07', 'C33', 'C28'], 'datatypes/traffic_lights': ['C22', 'C26'],
    'dynamics/abstract': ['C05', 'C02', 'C04', 'C03'], 'dynamics/bicycle': ['C05', 'C06', 'C19'], 'dynamics/delta': ['C05', 'C06'],
    'dynamics/discretizer': ['C05', 'C06', 'C10', 'C33'], 'dynamics/state': ['C05', 'C06', 'C10'], 'env/abstract': ['C02', 'C10', 'C11'],
    'env/base': ['C01', 'C02', 'C03', 'C10', 'C20'], 'env/planning': ['C12', 'C13', 'C10', 'C33', 'C20'], 'env/rollout': ['C09'],
    'wrappers/brax': ['C11'], 'wrappers/dm_env': ['C10'], 'metrics/comfort': ['C19'], 'metrics/imitation': ['C16'],
    'metrics/metric_factory': ['C21', 'C33'], 'metrics/abstract': ['C20', 'C21'], 'metrics/overlap': ['C16'], 'metrics/roadgraph': ['C17'],
    'metrics/route': ['C18'], 'rewards': ['C20'], 'utils/geometry': ['C16', 'C22', 'C17', 'C05'], 'visualization': ['C29'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Mod: '*'}
SWAP = {'minimum': 'maximum', 'maximum': 'minimum', 'any': 'all', 'all': 'any', 'cos': 'sin', 'sin': 'cos', 'logical_and': 'logical_or',
        'logical_or': 'logical_and', 'argmin': 'argmax', 'argmax': 'argmin', 'ones_like': 'zeros_like', 'zeros_like': 'ones_like',
        'min': 'max', 'max': 'min', 'ones': 'zeros', 'zeros': 'ones', 'vel_x': 'vel_y', 'vel_y': 'vel_x', 'length': 'width', 'width': 'length',
        'sim_trajectory': 'log_trajectory', 'current_sim_trajectory': 'current_log_trajectory', 'current_log_trajectory': 'current_sim_trajectory',
        'log_trajectory': 'sim_trajectory', 'is_sdc': 'is_modeled', 'floor': 'ceil'}


def mutants(path):
  src = open(path).read()
  tree = ast.parse(src)
  lines = src.split('\n')
  doc = set()
  for n in ast.walk(tree):
    for a in ('annotation', 'returns'):
      x = getattr(n, a, None)
      if isinstance(x, ast.AST):
        doc.update(id(y) for y in ast.walk(x))
    if isinstance(n, (ast.Raise, ast.Assert)):
      doc.update(id(y) for y in ast.walk(n))
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
  raw = src.encode()
  pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
  seg = lambda n: raw[slice(*pos(n))].decode()
  out = []

  def add(n, new, what):
    a, b = pos(n)
    out.append((n.lineno, what, raw[:a].decode() + new + raw[b:].decode()))
  for n in ast.walk(tree):
    if id(n) in doc:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      add(n, f'{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}', 'cmp')
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN:
      if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, (ast.Tuple, ast.List)):
        continue
      add(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'bin')
      if random.random() < .3:
        add(n, f'({seg(n.left)})', 'drop-right')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)) and not isinstance(n.operand, ast.Constant):
      add(n, f'({seg(n.operand)})', 'unary')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
      add(n, f'{seg(n.operand)}', 'neg-const')
    elif isinstance(n, ast.BoolOp):
      op = ' or ' if isinstance(n.op, ast.And) else ' and '
      add(n, '(' + op.join(seg(v) for v in n.values) + ')', 'boolop')
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
      add(n, str(not n.value), 'bool')
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
      add(n, repr(n.value + 1), 'const+1')
    elif isinstance(n, ast.Attribute) and n.attr in SWAP:
      add(n, f'{seg(n.value)}.{SWAP[n.attr]}', 'attr')
    elif isinstance(n, ast.Call):
      f = seg(n.func)
      if f.endswith('where') and len(n.args) == 3:
        add(n, f'{f}({seg(n.args[0])}, {seg(n.args[2])}, {seg(n.args[1])})', 'where-swap')
        add(n, f'({seg(n.args[1])})', 'where-first')
      if len(n.args) == 2 and not n.keywords and seg(n.args[0]) != seg(n.args[1]) and random.random() < .3:
        add(n, f'{f}({seg(n.args[1])}, {seg(n.args[0])})', 'args-swap')
      if n.keywords and random.random() < .4 and all(k.arg for k in n.keywords):
        k = random.choice(n.keywords)
        rest = [seg(a) for a in n.args] + [f'{q.arg}={seg(q.value)}' for q in n.keywords if q is not k]
        add(n, f'{f}({", ".join(rest)})', f'drop-{k.arg}')
    elif isinstance(n, ast.If) and not n.orelse:
      add(n.test, 'False', 'if-false')
  return out


def judge(m):
  i, rel, line, what, text, props = m
  d = tempfile.mkdtemp(prefix='mut_')
  try:
    shutil.copytree(os.path.join(REPO, 'waymax'), os.path.join(d, 'waymax'), ignore=shutil.ignore_patterns('*_test.py', '__pycache__'))
    p = os.path.join(d, 'waymax', rel)
    old = open(p).read()
    open(p, 'w').write(text)
    diff = subprocess.run(['diff', '-u0', os.path.join(REPO, 'waymax', rel), p], capture_output=True, text=True).stdout
    diff = '\n'.join(l for l in diff.split('\n')[3:])
    del old
    res = []
    for q in props:
      e = dict(os.environ, DST_REPO=d, VERIF_TIER='quick', DST_SHRINK_S='0')
      r = subprocess.run(['timeout', '800', 'python3', 'check.py', q, '--workers', '2', '--seed', str(i + 1)], cwd=HERE, capture_output=True, text=True, env=e)
      v = [l for l in r.stdout.split('\n') if l.startswith('violation')]
      res.append([q, r.returncode, (v or [''])[0][:160] if r.returncode == 1 else r.stderr[-200:] if r.returncode else ''])
      if r.returncode:
        break
    return dict(i=i, file=rel, line=line, what=what, diff=diff, res=res)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def main():
  out, cov, seed, count = sys.argv[1], json.load(open(sys.argv[2])), int(sys.argv[3]), int(sys.argv[4])
  par = int(sys.argv[5]) if len(sys.argv) > 5 else 4
  random.seed(seed)
  by_line = {}
  for q, ls in cov.items():
    for f, l in ls:
      by_line.setdefault((f, l), set()).add(q)
  pool = []
  for dp, _, fs in os.walk(os.path.join(REPO, 'waymax')):
    for f in fs:
      rel = os.path.relpath(os.path.join(dp, f), os.path.join(REPO, 'waymax'))
      if not f.endswith('.py') or f.endswith('_test.py') or 'test_utils' in f or f == '__init__.py':
        continue
      ms = mutants(os.path.join(dp, f))
      random.shuffle(ms)
      pool.append((rel, ms))
  pool.sort()
  # weigh files by the square root of their size
  picks, seen = [], set()
  while len(picks) < count and any(ms for _, ms in pool):
    rel, ms = random.choices(pool, [max(1e-9, len(ms)) ** .5 for _, ms in pool])[0]
    if not ms:
      continue
    line, what, text = ms.pop()
    if (rel, text) in seen:
      continue
    seen.add((rel, text))
    try:
      compile(text, rel, 'exec')
    except SyntaxError:
      continue
    props = next((v for k, v in PREF.items() if rel.startswith(k) or k in rel), [])
    c = by_line.get((rel, line), set())
    props = ([q for q in props if q in c] or list(props))[:3]
    picks.append((len(picks), rel, line, what, text, props))
  with cf.ThreadPoolExecutor(par) as ex, open(out, 'w') as f:
    for fut in cf.as_completed([ex.submit(judge, m) for m in picks]):
      f.write(json.dumps(fut.result()) + '\n')
      f.flush()


if __name__ == '__main__':
  main()
