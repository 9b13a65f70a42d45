"""C24: deterministic loading restarts and repeats identically."""
import collections
import random

import numpy as np

from dst import core
from dst import storage
from dst.props import c23


class P(core.Prop):
  id = 'C24'
  rule = ('a run records the sequence one host of a job receives, then repeats it through crashes and restarts of '
          'the consumer, slow parsing, other machines, interleaved consumers and disturbed global random state; '
          'non-trivial if a sequence of at least two elements was compared')
  real = c23.P.real
  stub = c23.P.stub
  assumptions = ['a consumer that restarts reads from the beginning (the loader keeps no durable position)',
                 'tf.data worker threads are perturbed by seeded delays and machine sizes, not fully scheduled',
                 'nobody sets TensorFlow\'s own global seed']
  uses_tf = True
  rerun = 8
  list_keys = ('ops',)

  def classes(self, tier):
    return [{'slice': i} for i in range(8)]

  def runs(self, tier):
    return 120 if tier == 'quick' else 2000

  def gen(self, rng, c, tier):
    ld = dict(c23.gen_loader(rng), deterministic=True)
    if rng.random() < .5:
      ld['shuffle'] = rng.randrange(1, 10**6)
    ops = []
    for _ in range(rng.randint(2, 5)):
      ops.append({'o': rng.choice(('again', 'again', 'crash', 'crash', 'machine', 'pair', 'other', 'rand')),
                  'k': rng.randint(0, 12), 's': rng.randrange(2**31), 'gate': rng.choice((0, 4, 15, 30)),
                  'cpus': rng.choice((1, 2, 3, 5)), 'c2': rng.choice((1, 2, 4))})
    return {'lay': c23.gen_layout(rng), 'ld': ld, 'hosts': rng.choice((1, 1, 2, 3)), 'h': rng.randrange(3),
            'batch': rng.choice(([], [], [2], [3], [2, 2])), 'repeat': rng.choice((1, 1, 2, None)),
            'post': rng.random() < .25, 'ops': ops}

  def simplify(self, plan):
    lay = plan['lay']
    for i in range(len(lay['sizes'])):
      if len(lay['sizes']) > 1:
        yield dict(plan, lay=dict(lay, sizes=lay['sizes'][:i] + lay['sizes'][i + 1:]))
    for i, k in enumerate(lay['sizes']):
      if k > 1:
        yield dict(plan, lay=dict(lay, sizes=lay['sizes'][:i] + [k // 2] + lay['sizes'][i + 1:]))
    for k, v in (('batch', []), ('hosts', 1), ('post', False), ('repeat', 1)):
      if plan[k] != v:
        yield dict(plan, **{k: v})
    for k, v in (('shuffle', None), ('num_shards', 1), ('num_shards', 2), ('buffer', 1)):
      if plan['ld'][k] != v:
        yield dict(plan, ld=dict(plan['ld'], **{k: v}))

  def execute(self, plan, ctx):
    with storage.disk(plan['lay']['tag']) as d:
      self.go(plan, ctx, c23.World(d, plan['lay']))

  def go(self, plan, ctx, w):
    ld, batch = plan['ld'], tuple(plan['batch'])
    H = plan['hosts']
    h = plan['h'] % H
    per = int(np.prod(batch)) if batch else 1
    limit = 10**9 if plan['repeat'] is not None else 3 * w.n // per + 8
    post = (lambda x: x) if plan['post'] else None

    def opened(gate=0, gs=0, seed='same', host=h):
      over = {} if seed == 'same' else {'shuffle_seed': seed}
      cfg = w.config(ld, repeat=plan['repeat'], batch_dims=batch, drop_remainder=len(batch) > 1 or plan['lay']['seed'] % 2 == 0,
                     **over)
      g = storage.Gate(gs, gate) if gate else None
      return w.generator(cfg, g, post)

    def element(x):
      ids, sums = np.asarray(x['id']), np.asarray(x['sum'])
      for i, s in zip(ids.reshape(-1), sums.reshape(-1)):
        ctx.check(0 <= i < w.n and w.sums[i] == s, 'content', lambda: f'record {i} with checksum {s}')
      return ids.tolist()

    def take(it, k=10**9):
      out = []
      if k <= 0:
        return out
      for x in it:
        out.append(element(x))
        if len(out) >= min(k, limit):
          break
      it.close()
      return out

    def same(a, b, how, prefix=None):
      b = b if prefix is None else b[:prefix]
      at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
      ctx.check(a == b, 'sequence-' + how, lambda: f'host {h} of {H}: element {at} is {a[at:at + 3]} after {how}, was '
                f'{b[at:at + 3]} ({len(a)} and {len(b)} elements)')

    with storage.host(h, H):
      ref = take(opened())
      ctx.event('sequence', ref)
      ctx.step(max(1, len(ref)), dt=0)
      ctx.probe('elements', len(ref))
      ctx.state(tuple(plan['lay']['sizes']), H, h, ld['num_shards'], ld['shuffle'] is None, plan['repeat'], batch)
      for op in plan['ops']:
        k = op['o']
        if op['gate']:
          ctx.fault('slow_reader')
        if k == 'again':
          same(take(opened(op['gate'], op['s'])), ref, 'a repeated run')
        elif k == 'crash':
          # the consumer dies after k elements, with the pipeline running ahead
          it = opened(op['gate'], op['s'])
          first = []
          for _ in range(min(op['k'], len(ref))):
            try:
              first.append(element(next(it)))
            except StopIteration:
              break
          del it
          ctx.fault('consumer_crash')
          same(first, ref, 'a crash', len(first))
          same(take(opened(op['gate'] // 2, op['s'] + 1)), ref, 'a restart')
        elif k == 'machine':
          with storage.cpus(op['cpus']) as on:
            if on:
              ctx.fault('other_machine')
            same(take(opened(op['gate'], op['s'])), ref, 'a restart on another machine')
        elif k == 'pair':
          r = random.Random(op['s'])
          its = [opened(op['gate'], op['s']), opened(0, 0)]
          got, done = [[], []], [False, False]
          while not all(done):
            j = r.randrange(2) if not any(done) else done.index(False)
            try:
              if len(got[j]) >= limit:
                raise StopIteration
              got[j].append(element(next(its[j])))
            except StopIteration:
              done[j] = True
              its[j].close()
          ctx.fault('interleaved_consumers')
          same(got[0], ref, 'interleaved reading')
          same(got[1], ref, 'interleaved reading')
        elif k == 'rand':
          random.seed(op['s'])
          np.random.seed(op['s'] % 2**32)
          it = opened()
          [random.random() for _ in range(op['k'])]
          ctx.fault('global_rng_disturbed')
          same(take(it), ref, 'disturbed random state')
        elif k == 'other':
          seed = None if op['k'] % 3 == 0 else op['s'] % 1000 + 1
          if len(ref) * per >= 14 and per <= 2 and ld['buffer'] >= 5:
            r = random.Random(op['s'])
            orders = [take(opened(seed=r.randrange(1, 10**6)))[:40] for _ in range(5)]
            ctx.probe('orders_compared')
            ctx.check(any(x != orders[0] for x in orders), 'not-shuffled', lambda: f'five seeds deliver the same order: {orders[0][:20]}')
          if plan['repeat'] is not None:
            self.order_only(ctx, plan, w, opened, take, seed, H, per, ref)
      if plan['ld']['shuffle'] is not None and len(ref) > 1:
        ctx.probe('shuffled')

  def order_only(self, ctx, plan, w, opened, take, seed, H, per, ref):
    """Over all hosts, another seed delivers the same records."""
    def total(seed):
      c = collections.Counter()
      for i in range(H):
        with storage.host(i, H):
          for e in take(opened(seed=seed, host=i)):
            c.update(np.asarray(e).reshape(-1).tolist())
      return c
    a, b = total('same'), total(seed)
    ctx.probe('seeds_compared')
    if per == 1 or len(plan['batch']) == 1 and plan['lay']['seed'] % 2:
      ctx.check(a == b, 'records-depend-on-seed', lambda: f'seeds {plan["ld"]["shuffle"]} and {seed} deliver different '
                f'records: {sorted((a - b).items())[:5]} {sorted((b - a).items())[:5]}')

  def nontrivial(self, plan, ctx):
    return ctx.probes['elements'] > 1


PROP = P()
