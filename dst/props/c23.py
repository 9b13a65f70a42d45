"""C23: sharded loading delivers every record exactly once per pass."""
import collections

import numpy as np

from dst import core
from dst import storage


def gen_layout(rng):
  f = rng.choice((1, 1, 2, 3, 4, 5, 7, 9, 12, rng.randint(17, 50)))  # 16 are read at a time
  hi = rng.choice((1, 3, 7)) if f < 17 else 2
  sizes = [rng.randint(0, hi) for _ in range(f)]
  if rng.random() < .3:
    sizes[rng.randrange(f)] = rng.randint(8, 25)  # one long file
  return {'sizes': sizes, 'base': rng.choice(('train', 'x', 'a_b.tfrecord')),
          'tag': rng.choice(('data', 'data', 'us@r', 'v1@2')), 'seed': rng.randrange(2**31),
          'single': f == 1 and rng.random() < .5}


def gen_loader(rng):
  return {'num_shards': rng.choice((1, 1, 2, 3, 4, 6, 9)), 'shuffle': rng.choice((None, None, 0, rng.randrange(1, 10**6))),
          'buffer': rng.choice((1, 2, 5, 30, 200)), 'deterministic': rng.random() < .6}


class World:
  """Record files of one run and ways to load them."""

  def __init__(self, d, lay):
    self.d, self.lay = d, lay
    f = len(lay['sizes'])
    if lay['single']:
      import os
      self.files = [os.path.join(d.dir, lay['base'])]
      self.path = self.files[0]
    else:
      self.files = d.names(lay['base'], f)
      self.path = f'{d.dir}/{lay["base"]}@{f}'
    self.payloads, self.owner = [], []
    r = np.random.RandomState(lay['seed'])
    for i, (path, k) in enumerate(zip(self.files, lay['sizes'])):
      recs = [storage.payload(len(self.payloads) + j, lay['seed'], int(r.randint(0, 300))) for j in range(k)]
      d.write(path, recs)
      self.payloads += recs
      self.owner += [i] * k
    self.sums = storage.checksums(self.payloads)
    self.n = len(self.payloads)

  def config(self, ld, **over):
    from waymax import config
    kw = dict(path=self.path, shuffle_seed=ld['shuffle'], shuffle_buffer_size=ld['buffer'],
              num_shards=ld['num_shards'], deterministic=ld['deterministic'], repeat=1)
    kw.update(over)
    return config.DatasetConfig(**kw)

  def generator(self, cfg, gate=None, post=None):
    from waymax.dataloader import dataloader_utils as du
    return du.get_data_generator(cfg, storage.raw_parser(gate), post)


class P(core.Prop):
  id = 'C23'
  rule = ('a run is one pass (or several) of a simulated distributed job over a set of record files; non-trivial if '
          'records were delivered')
  real = ['waymax.dataloader.dataloader_utils', 'waymax.config', 'tf.data readers and thread pools']
  stub = ['record files (synthetic)', 'hosts of the job (jax.process_index/count answered by the simulator)',
          'parsing function (reads the record id; holds elements for seeded times)']
  assumptions = [
      'tf.data worker threads are perturbed by seeded delays, not fully scheduled; the verdict does not depend on them',
      'with a repeated, unshuffled, deterministic stream every record must be seen within (number of readers) x (longest reader) x 2 elements']
  uses_tf = True
  list_keys = ('none',)

  def classes(self, tier):
    return [{'slice': i} for i in range(8)]

  def runs(self, tier):
    return 200 if tier == 'quick' else 3000

  def gen(self, rng, c, tier):
    batch = rng.choice(([], [], [], [2], [3], [5], [2, 2], [1, 3]))
    repeat, ld = rng.choice((1, 1, 1, 2, 3, None, None)), gen_loader(rng)
    if repeat is None and rng.random() < .6:
      ld.update(shuffle=None, deterministic=True)  # the streams whose fairness is judged
    lay, hosts = gen_layout(rng), rng.choice((1, 1, 2, 3, 5))
    if len(lay['sizes']) > 16 and rng.random() < .6:
      hosts = ld['num_shards'] = 1
      repeat = rng.choice((1, None, None))
    return {'lay': lay, 'ld': ld, 'hosts': hosts,
            'batch': batch, 'drop': rng.random() < .5, 'repeat': repeat,
            'devices': rng.choice((0, 0, 0, 1, 2, 3)), 'cpus': rng.choice((0, 0, 1, 2, 5)),
            'gate': rng.choice((0, 0, 5, 25)), 'gs': rng.randrange(2**31), 'post': rng.random() < .3}

  def simplify(self, plan):
    lay = plan['lay']
    for i in range(len(lay['sizes'])):
      if len(lay['sizes']) > 1:
        yield dict(plan, lay=dict(lay, sizes=lay['sizes'][:i] + lay['sizes'][i + 1:]))
    for i, k in enumerate(lay['sizes']):
      if k > 1:
        yield dict(plan, lay=dict(lay, sizes=lay['sizes'][:i] + [k // 2] + lay['sizes'][i + 1:]))
    for k, v in (('gate', 0), ('cpus', 0), ('devices', 0), ('batch', []), ('hosts', 1), ('post', False), ('repeat', 1)):
      if plan[k] != v:
        yield dict(plan, **{k: v})
    for k, v in (('shuffle', None), ('num_shards', 1), ('num_shards', 2), ('buffer', 1), ('deterministic', True)):
      if plan['ld'][k] != v:
        yield dict(plan, ld=dict(plan['ld'], **{k: v}))

  def execute(self, plan, ctx):
    with storage.disk(plan['lay']['tag']) as d:
      self.go(plan, ctx, World(d, plan['lay']))

  def go(self, plan, ctx, w):
    ld, batch, repeat, H = plan['ld'], tuple(plan['batch']), plan['repeat'], plan['hosts']
    distributed = plan['devices'] > 0
    if distributed and plan['post']:
      devices = 1  # pmap runs on the real devices
    else:
      devices = max(1, plan['devices'])
    dims = ((devices,) if distributed else ()) + batch
    per = int(np.prod(dims)) if dims else 1
    # a ragged remainder cannot be stacked along two dimensions (tf.data refuses)
    plan = dict(plan, drop=plan['drop'] or len(dims) > 1)
    cfg = w.config(ld, repeat=repeat, batch_dims=batch, drop_remainder=plan['drop'], distributed=distributed)
    gate = storage.Gate(plan['gs'], plan['gate']) if plan['gate'] else None
    post = (lambda x: x) if plan['post'] else None
    # ---- what the readers of each host hold (documented split: by file)
    total = collections.Counter()
    by_host = []
    drops = 0
    for h in range(H):
      got, shapes = [], []
      with storage.host(h, H, devices), storage.cpus(plan['cpus']) as on:
        if on:
          ctx.fault('other_machine')
        it = w.generator(cfg, gate, post)
        limit = None
        if repeat is None:
          limit = 2 * ld['num_shards'] * (w.n + ld['buffer'] + per) // per + 4
        for k, x in enumerate(it):
          ids, sums = np.asarray(x['id']), np.asarray(x['sum'])
          shapes.append(ids.shape)
          ctx.check(ids.shape == sums.shape, 'shape', lambda: f'{ids.shape} {sums.shape}')
          for i, s in zip(ids.reshape(-1), sums.reshape(-1)):
            ctx.check(0 <= i < w.n and w.sums[i] == s, 'content', lambda: f'record {i} delivered with checksum {s}')
            got.append(int(i))
          if limit is not None and k + 1 >= limit:
            it.close()
            break
      ctx.step(max(1, len(got)), dt=0)
      if gate:
        ctx.fault('slow_reader', len(got))
      by_host.append(got)
      if ld['deterministic']:
        ctx.event('host', h, got)
      total.update(got)
      # ---- batch shapes
      for j, s in enumerate(shapes):
        full = s == dims
        partial = (len(s) == len(dims) and all(a <= b for a, b in zip(s, dims)) and s[0] > 0 if dims else s == ())
        ctx.check(full or (not plan['drop'] and partial), 'batch-shape', lambda: f'host {h} batch {j}: {s}, asked {dims}')
    ctx.state(tuple(plan['lay']['sizes']), H, ld['num_shards'], dims, repeat, ld['shuffle'] is None, ld['deterministic'])
    # ---- no record on two hosts
    for a in range(H):
      for b in range(a):
        both = set(by_host[a]) & set(by_host[b])
        ctx.check(not both, 'two-hosts', lambda: f'hosts {b} and {a} both deliver records {sorted(both)[:5]}')
    if sum(plan['lay']['sizes']) == 0:
      ctx.check(not total, 'fabricated', '')
      return
    ctx.probe('delivered', sum(total.values()))
    if repeat is None:
      ctx.probe('endless')
      missing = [i for i in range(w.n) if not total[i]]
      if ld['shuffle'] is None and ld['deterministic']:
        ctx.check(not missing, 'starved', lambda: f'{len(missing)} of {w.n} records never delivered by an endless '
                  f'stream in {[len(g) for g in by_host]} elements per host: {missing[:6]} of files '
                  f'{sorted({w.owner[i] for i in missing})}')
      return
    over = {i: k for i, k in total.items() if k > repeat}
    ctx.check(not over, 'duplicated', lambda: f'delivered more than {repeat} times: {sorted(over.items())[:5]}')
    lost = w.n * repeat - sum(total.values())
    if not dims or not plan['drop']:
      ctx.check(lost == 0, 'lost', lambda: f'{lost} deliveries missing: records '
                f'{[i for i in range(w.n) if total[i] < repeat][:6]}, {repeat} passes')
    else:
      # one incomplete batch per parallel reader that has data
      worst = H * min(ld['num_shards'], len(plan['lay']['sizes'])) * (per - 1)
      ctx.check(lost <= worst, 'lost', lambda: f'{lost} deliveries missing, more than the incomplete batches of all '
                f'readers ({worst})')
      ctx.probe('incomplete_dropped', lost)

  def nontrivial(self, plan, ctx):
    return ctx.probes['delivered'] > 0


PROP = P()
