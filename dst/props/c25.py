"""C25: damaged or failing storage never yields a wrong scenario."""
import collections
import os

import numpy as np

from dst import core
from dst import scenario
from dst import storage
from dst import womd
from dst.props import c23

# The record format's header (length and its checksum). A tail shorter than it is
# read as the end of the file by the storage library.
HEADER = 12
KINDS = ('truncate', 'truncate', 'cut_at_record', 'flip', 'flip', 'flip', 'zero', 'append', 'missing', 'directory', 'empty',
         'malformed', 'malformed')


def gen_faults(rng):
  return [{'k': rng.choice(KINDS), 'file': rng.random(), 'pos': rng.random(), 'part': rng.choice(('length', 'lcrc', 'data', 'data', 'dcrc')),
           's': rng.randrange(2**31)} for _ in range(rng.choice((1, 1, 1, 2, 3)))]


class P(core.Prop):
  id = 'C25'
  rule = ('a run damages the files of a job, loads them on every host, then repairs them and loads again; '
          'non-trivial if a detectable fault was in place')
  real = ['waymax.dataloader', 'waymax.config', 'tf.data readers and checksums', 'tf.io.parse_example']
  stub = c23.P.stub + ['motion records (synthetic)']
  assumptions = ['a file cut between two records (or within the next one\'s 12-byte header, which the TFRecord reader '
                 'takes for the end), or emptied, is indistinguishable from a shorter one: then only the content of '
                 'what is delivered is judged',
                 'CRC-32C collisions (probability 2^-32 per fault) do not occur']
  uses_tf = True
  list_keys = ('faults',)

  def classes(self, tier):
    return [{'mode': m} for m in ('raw', 'raw', 'raw', 'raw', 'raw', 'womd', 'womd', 'womd')]

  def runs(self, tier):
    return 224 if tier == 'quick' else 3500

  def gen(self, rng, c, tier):
    lay = c23.gen_layout(rng)
    ld = c23.gen_loader(rng)
    if c['mode'] == 'womd':
      f = rng.choice((1, 2, 3))
      lay = dict(lay, sizes=[rng.randint(0 if f > 1 else 1, 2) for _ in range(f)], single=False)
      if not sum(lay['sizes']):
        lay['sizes'][0] = 1
      ld['num_shards'] = rng.choice((1, 2))
    elif sum(lay['sizes']) == 0:
      lay['sizes'][0] = rng.randint(1, 5)
    return {'lay': lay, 'ld': ld, 'hosts': rng.choice((1, 1, 2)) if c['mode'] == 'raw' else 1,
            'batch': rng.choice(([], [], [2], [3], [2, 2])) if c['mode'] == 'raw' else rng.choice(([], [2])),
            'drop': rng.random() < .5, 'repeat': rng.choice((1, 1, 2)), 'gate': rng.choice((0, 0, 10)),
            'faults': gen_faults(rng)}

  def simplify(self, plan):
    lay = plan['lay']
    for i in range(len(lay['sizes'])):
      if len(lay['sizes']) > 1:
        yield dict(plan, lay=dict(lay, sizes=lay['sizes'][:i] + lay['sizes'][i + 1:]))
    for k, v in (('batch', []), ('hosts', 1), ('repeat', 1), ('gate', 0)):
      if plan[k] != v:
        yield dict(plan, **{k: v})
    for k, v in (('shuffle', None), ('num_shards', 1), ('num_shards', 2), ('buffer', 1), ('deterministic', True)):
      if plan['ld'][k] != v:
        yield dict(plan, ld=dict(plan['ld'], **{k: v}))

  def execute(self, plan, ctx):
    if not plan['faults'] or not sum(plan['lay']['sizes']):
      return
    with storage.disk() as d:
      self.go(plan, ctx, d)

  # ---------------------------------------------------------------- world

  def go(self, plan, ctx, d):
    womd_mode = plan['cls']['mode'] == 'womd'
    w = Records(d, plan, womd_mode)
    owners = {p: i for i, p in enumerate(w.files)}
    detectable = False
    touched = set()
    for f in plan['faults']:
      path = w.files[int(f['file'] * len(w.files)) % len(w.files)]
      if path in touched:
        continue
      touched.add(path)
      det = self.damage(ctx, f, path, w, womd_mode)
      detectable |= bool(det)
    errs, got = self.load_all(plan, ctx, w)
    ctx.event('damaged', sorted(x['k'] for x in plan['faults']), bool(errs), sorted(got) if not errs else 0)
    ctx.state(tuple(plan['lay']['sizes']), tuple(f['k'] for f in plan['faults']), bool(errs), plan['cls']['mode'])
    over = {i: k for i, k in got.items() if k > plan['repeat']}
    ctx.check(not over, 'duplicated', lambda: f'{over} with {plan["repeat"]} passes')
    if detectable:
      ctx.probe('detectable')
      ctx.check(bool(errs), 'silent', lambda: f'damage {[f["k"] for f in plan["faults"]]} was read without any error: '
                f'{sum(got.values())} deliveries of {w.n * plan["repeat"]} on {plan["hosts"]} hosts')
    # the disk recovers
    w.restore()
    ctx.fault('repaired')
    errs, got = self.load_all(plan, ctx, w)
    ctx.check(not errs, 'error-after-repair', lambda: f'{errs[0][:300]}')
    if not plan['batch'] or not self.drops(plan):
      missing = [i for i in range(w.n) if got[i] != plan['repeat']]
      ctx.check(not missing, 'incomplete-after-repair', lambda: f'records {missing[:6]}')

  def drops(self, plan):
    return plan['drop'] or len(plan['batch']) > 1

  def load_all(self, plan, ctx, w):
    errs, got = [], collections.Counter()
    for h in range(plan['hosts']):
      with storage.host(h, plan['hosts']):
        it = w.open(plan, self.drops(plan))
        try:
          while True:
            try:
              x = next(it)
            except StopIteration:
              break
            for i in w.identify(ctx, x):
              got[i] += 1
              ctx.probe('delivered')
            ctx.step(dt=0)
        except core.Violation:
          raise
        except Exception as e:  # pylint: disable=broad-except
          errs.append(f'{type(e).__name__}: {e}')
          ctx.probe('error_' + type(e).__name__)
    return errs, got

  def damage(self, ctx, f, path, w, womd_mode):
    """Applies one fault. Returns whether reading must notice."""
    with open(path, 'rb') as fh:
      b = fh.read()
    recs, size = w.layout[path]
    k = f['k']
    r = np.random.RandomState(f['s'])
    new = None
    det = True
    if k == 'missing':
      os.remove(path)
      ctx.fault(k)
      return True
    if k == 'directory':
      os.remove(path)
      os.mkdir(path)
      ctx.fault(k)
      return True
    if k == 'append':
      new = b + r.bytes(int(r.randint(1, 60)))
      det = len(new) - len(b) >= HEADER
    elif k == 'empty':
      new, det = b'', False
    elif not recs:
      return False
    elif k == 'truncate':
      p = int(f['pos'] * size)
      if f['s'] % 3 == 0:  # close to a record's ends
        o, n = recs[int(f['pos'] * len(recs)) % len(recs)]
        p = min(size, o + int(r.choice([1, 7, 8, 11, 12, 13, n + 11, n + 12, n + 15])))
      new = b[:p]
      det = p < size and p - max([o for o, _ in recs if o <= p]) >= HEADER
    elif k == 'cut_at_record':
      p = recs[int(f['pos'] * len(recs)) % len(recs)][0]
      new, det = b[:p], False
    elif k == 'flip':
      o, n = recs[int(f['pos'] * len(recs)) % len(recs)]
      lo, hi = {'length': (o, o + 8), 'lcrc': (o + 8, o + 12), 'data': (o + 12, o + 12 + n),
                'dcrc': (o + 12 + n, o + 16 + n)}[f['part']]
      p = r.randint(lo, hi)
      new = bytearray(b)
      for _ in range(int(r.choice([1, 1, 2]))):
        new[p] ^= 1 << int(r.randint(8))
      new = bytes(new)
    elif k == 'zero':
      p = int(f['pos'] * size)
      q = min(size, p + int(r.choice([4, 64, 512])))
      new = b[:p] + bytes(q - p) + b[q:]
    elif k == 'malformed':
      # sound framing, unusable content
      i = int(f['pos'] * len(recs)) % len(recs)
      ids = [j for j in range(w.n) if w.files[w.owner[j]] == path]
      payloads = [w.payloads[j] for j in ids]
      payloads[i] = w.spoil(payloads[i], ids[i], r)
      w.d.write(path, payloads)
      ctx.fault(k)
      return True
    if new == b:
      return False
    with open(path, 'wb') as fh:
      fh.write(new)
    ctx.fault(k if k != 'flip' else 'flip_' + f['part'])
    return det

  def nontrivial(self, plan, ctx):
    return ctx.probes['detectable'] > 0


class Records:
  """Files of raw or motion records, their repair and identification."""

  def __init__(self, d, plan, womd_mode):
    lay = plan['lay']
    self.d, self.womd, self.plan = d, womd_mode, plan
    f = len(lay['sizes'])
    self.files = [os.path.join(d.dir, lay['base'])] if lay['single'] else d.names(lay['base'], f)
    self.path = self.files[0] if lay['single'] else f'{d.dir}/{lay["base"]}@{f}'
    self.payloads, self.owner, self.recs = [], [], []
    r = np.random.RandomState(lay['seed'])
    for i, k in enumerate(lay['sizes']):
      for _ in range(k):
        rid = len(self.payloads)
        if womd_mode:
          rec = womd.record((lay['seed'] + 7919 * rid) % 2**31, 4)
          self.recs.append(rec)
          self.payloads.append(womd.serialize(womd.features(rec)))
        else:
          self.payloads.append(storage.payload(rid, lay['seed'], int(r.randint(0, 200))))
        self.owner.append(i)
    self.n = len(self.payloads)
    self.want = [womd.expected(x) for x in self.recs]
    self.sums = None if womd_mode else storage.checksums(self.payloads)
    self.restore()
    self.layout = {p: storage.layout(p) for p in self.files}

  def restore(self):
    for i, p in enumerate(self.files):
      if os.path.isdir(p):
        os.rmdir(p)
      self.d.write(p, [x for x, o in zip(self.payloads, self.owner) if o == i])

  def open(self, plan, drop):
    from waymax import config
    from waymax.dataloader import dataloader_utils as du
    from waymax.dataloader import womd_dataloader as wd
    ld = plan['ld']
    cfg = config.DatasetConfig(
        path=self.path, repeat=plan['repeat'], batch_dims=tuple(plan['batch']), shuffle_seed=ld['shuffle'],
        shuffle_buffer_size=ld['buffer'], num_shards=ld['num_shards'], deterministic=ld['deterministic'],
        drop_remainder=drop, max_num_rg_points=4)
    if self.womd:
      return wd.simulator_state_generator(cfg)
    gate = storage.Gate(plan['lay']['seed'], plan['gate']) if plan['gate'] else None
    return du.get_data_generator(cfg, storage.raw_parser(gate))

  def identify(self, ctx, x):
    if not self.womd:
      out = []
      for i, s in zip(np.asarray(x['id']).reshape(-1), np.asarray(x['sum']).reshape(-1)):
        ctx.check(0 <= i < self.n and self.sums[i] == s, 'wrong-record', lambda: f'record {i} with checksum {s} was never written')
        out.append(int(i))
      return out
    fl = scenario.flat(x)
    lead = fl['meta.ids'].shape[:-1]
    out = []
    for i in np.ndindex(*lead):
      one = {k: v[i] for k, v in fl.items()}
      hit = [j for j, w in enumerate(self.want) if not womd.differences(one, w)]
      ctx.check(bool(hit), 'wrong-record', lambda: 'a scenario that equals no written record was delivered')
      out.append(hit[0])
    return out

  def spoil(self, payload, rid, r):
    if not self.womd:
      return b'bad id!!' + payload[8:] if r.rand() < .5 else b''
    import tensorflow as tf
    how = r.choice(['noise', 'short', 'long', 'missing', 'type', 'empty'])
    if how == 'noise':
      return r.bytes(len(payload))
    if how == 'empty':
      return b''
    ex = tf.train.Example.FromString(payload)
    names = sorted(ex.features.feature)
    name = names[r.randint(len(names))]
    # only features the loader reads count
    f = ex.features.feature[name]
    kind = f.WhichOneof('kind')
    vals = getattr(f, kind).value
    if how == 'short':
      del vals[-1]
    elif how == 'long':
      vals.append(vals[0])
    elif how == 'missing':
      del ex.features.feature[name]
    else:
      old = list(vals)
      f.ClearField(kind)
      if kind == 'float_list':
        f.int64_list.value.extend([int(v) for v in old])
      else:
        f.float_list.value.extend([float(v) for v in old])
    return ex.SerializeToString()


PROP = P()
