"""C26: a loaded scenario equals the logged record."""
import numpy as np

from dst import core
from dst import scenario
from dst import storage
from dst import womd


# The kinds of the published record format, by number.
KINDS = {
    'MapElementIds': {
        0: 'LANE_UNDEFINED', 1: 'LANE_FREEWAY', 2: 'LANE_SURFACE_STREET', 3: 'LANE_BIKE_LANE', 5: 'ROAD_LINE_UNKNOWN',
        6: 'ROAD_LINE_BROKEN_SINGLE_WHITE', 7: 'ROAD_LINE_SOLID_SINGLE_WHITE', 8: 'ROAD_LINE_SOLID_DOUBLE_WHITE',
        9: 'ROAD_LINE_BROKEN_SINGLE_YELLOW', 10: 'ROAD_LINE_BROKEN_DOUBLE_YELLOW', 11: 'ROAD_LINE_SOLID_SINGLE_YELLOW',
        12: 'ROAD_LINE_SOLID_DOUBLE_YELLOW', 13: 'ROAD_LINE_PASSING_DOUBLE_YELLOW', 14: 'ROAD_EDGE_UNKNOWN',
        15: 'ROAD_EDGE_BOUNDARY', 16: 'ROAD_EDGE_MEDIAN', 17: 'STOP_SIGN', 18: 'CROSSWALK', 19: 'SPEED_BUMP', -1: 'UNKNOWN'},
    'TrafficLightStates': {
        0: 'UNKNOWN', 1: 'ARROW_STOP', 2: 'ARROW_CAUTION', 3: 'ARROW_GO', 4: 'STOP', 5: 'CAUTION', 6: 'GO',
        7: 'FLASHING_STOP', 8: 'FLASHING_CAUTION'},
    'ObjectTypeIds': {0: 'UNSET', 1: 'VEHICLE', 2: 'PEDESTRIAN', 3: 'CYCLIST', 4: 'OTHER'},
}


class P(core.Prop):
  id = 'C26'
  rule = ('a run loads a set of synthetic motion records through the real pipeline (files, parsing, batching, '
          'factories) and compares every value with the record; non-trivial if a scenario was compared')
  real = ['waymax.dataloader (all modules)', 'waymax.datatypes', 'tf.data', 'tf.io.parse_example', 'JAX']
  stub = ['motion records (synthetic, full 128 x 91 format)', 'record files on scratch disk']
  assumptions = ['headings agree up to rounding of the wrap, sizes up to rounding of the mean',
                 'values of a record survive float32/int32; ids are below 2**24 as in the stored float format']
  uses_tf = True
  list_keys = ('recs',)
  min_split = 2

  def classes(self, tier):
    out = []
    for batch in ([], [2], [2, 2]):
      for paths in (None, [3, 8]):
        out.append({'batch': batch, 'paths': paths})
    return out + [{'batch': [3], 'paths': [2, 5]}, {'batch': [], 'paths': None},
                  {'batch': [2], 'paths': None, 'xla': 'multi'}, {'batch': [], 'paths': [2, 5], 'xla': 'multi'}]

  def runs(self, tier):
    return 96 if tier == 'quick' else 1500

  def gen(self, rng, c, tier):
    per = int(np.prod(c['batch'])) if c['batch'] else 1
    per *= 3 if c.get('xla') == 'multi' else 1
    k = per * rng.choice((1, 1, 2)) if per > 1 else rng.randint(1, 3)
    return {'recs': [rng.randrange(2**31) for _ in range(k)], 'rg': rng.choice((1, 40, 300)), 'pad': rng.choice(('0', '-1')),
            'limit': rng.choice((None, None, 1, 8, 32, 128, 200)), 'shards': rng.choice((1, 2, 4)),
            'shuffle': rng.choice((None, None, 7)), 'files': rng.choice((1, 1, 2)), 'det': rng.random() < .7,
            'slow': rng.choice((0, 0, 20)), 'direct': rng.choice((None, 'past', 'current', 'future', 'all', 'stack'))}

  def simplify(self, plan):
    for k, v in (('files', 1), ('shards', 1), ('shuffle', None), ('det', True), ('rg', 1), ('limit', None), ('pad', '0'),
                 ('direct', None), ('slow', 0)):
      if plan[k] != v:
        yield dict(plan, **{k: v})

  def execute(self, plan, ctx):
    if not plan['recs']:
      return
    with storage.disk() as d:
      self.go(plan, ctx, d)

  def go(self, plan, ctx, d):
    from waymax import config
    from waymax.dataloader import womd_dataloader
    c = plan['cls']
    batch = tuple(c['batch'])
    spread = c.get('xla') == 'multi'  # scenarios spread over the devices of the host
    if spread:
      import jax
      ctx.probe('devices', jax.local_device_count())
      batch = (jax.local_device_count(),) + batch
    paths = c['paths']
    recs = [womd.record(s, plan['rg'], paths, plan['pad']) for s in plan['recs']]
    ser = [womd.serialize(womd.features(r)) for r in recs]
    F = plan['files']
    files = d.names('w', F)
    for i, f in enumerate(files):
      d.write(f, ser[i::F])
    cfg = config.DatasetConfig(
        path=f'{d.dir}/w@{F}', repeat=1, batch_dims=tuple(c['batch']), distributed=spread, shuffle_seed=plan['shuffle'], num_shards=plan['shards'],
        deterministic=plan['det'], include_sdc_paths=paths is not None, max_num_rg_points=plan['rg'],
        max_num_objects=plan['limit'], num_paths=paths[0] if paths else None,
        num_points_per_path=paths[1] if paths else None, drop_remainder=spread or len(batch) > 1)
    want = [womd.expected(r, plan['limit']) for r in recs]
    seen = []
    for r in recs:
      ctx.fault('absent_steps', int((r['state/valid'] != 1).sum()))
    for st in self.load(ctx, plan, womd_dataloader.simulator_state_generator(cfg)):
      fl = scenario.flat(st)
      lead = fl['meta.ids'].shape[:-1]
      ctx.check(len(lead) == len(batch), 'batch-dims', lambda: f'{lead}, asked {batch}')
      ctx.check(lead == batch or (len(batch) == 1 and not spread and 0 < lead[0] <= batch[0]), 'batch-dims', lambda: f'{lead}, asked {batch}')
      ctx.check(fl['timestep'].shape == lead and not fl['timestep'].any(), 'timestep', lambda: f'{fl["timestep"]}')
      for i in np.ndindex(*lead):
        one = {k: v[i] for k, v in fl.items()}
        self.fresh(ctx, one)
        diffs = [womd.differences(one, w) for w in want]
        hit = [j for j, x in enumerate(diffs) if not x]
        if not hit:
          near = min(range(len(want)), key=lambda j: len(diffs[j]))
          ctx.check(False, 'scenario', lambda: f'{diffs[near][:3]} (record {near} is closest; it differs in {len(diffs[near])} fields)')
        ctx.checks += 1
        self.kinds(ctx, one)
        seen.append(hit)
        ctx.probe('scenarios')
        ctx.step(dt=0)
      if paths is None:
        ctx.check(st.sdc_paths is None, 'routes', 'routes although not asked for')
    ctx.event('seen', len(seen), [h for h in seen] if plan['det'] else 0)
    ctx.state(plan['limit'], plan['rg'], plan['pad'], batch, F, plan['shards'])
    per = int(np.prod(batch)) if batch else 1
    if (len(batch) <= 1 and not spread) or (min(plan['shards'], F) == 1 and len(recs) % per == 0):
      ctx.check(len(seen) == len(recs), 'count', lambda: f'{len(seen)} scenarios of {len(recs)} records')
    for j in range(len(recs)):
      k = sum(1 for h in seen if j in h)
      same = sum(1 for s in plan['recs'] if s == plan['recs'][j])
      ctx.check(k <= same, 'mixed', lambda: f'record {j} delivered {k} times')
    if plan['direct']:
      self.direct(ctx, plan, cfg, recs, ser)

  def kinds(self, ctx, one):
    """The named kinds mean what the record format says."""
    from waymax import datatypes
    from waymax.datatypes import object_state, roadgraph
    for en, key in ((roadgraph.MapElementIds, 'rg.types'), (datatypes.TrafficLightStates, 'tl.state'),
                    (object_state.ObjectTypeIds, 'meta.object_types')):
      table = KINDS[en.__name__]
      for v in np.unique(one[key]):
        if int(v) in table:
          ctx.check(getattr(en, table[int(v)], None) == v, 'kind-name', lambda: f'{en.__name__} {v} is not {table[int(v)]}')
    edge = np.asarray(datatypes.is_road_edge(one['rg.types']))
    ctx.check(np.array_equal(edge, np.isin(one['rg.types'], (15, 16))), 'kind-edge',
              lambda: f'edges: {np.unique(one["rg.types"][edge])}')

  def load(self, ctx, plan, it):
    with storage.cpus(1 if plan['slow'] else 0) as on:
      if on:
        ctx.fault('small_machine')
      yield from it

  def fresh(self, ctx, one):
    """The simulation of a fresh scenario holds the first logged step only."""
    for k in scenario.TRAJ:
      a, b = one['sim.' + k], one['log.' + k]
      ctx.check(a.shape == b.shape and a.dtype == b.dtype, 'fresh-shape', k)
      ctx.check(np.array_equal(a[..., 0], b[..., 0]), 'fresh-first-step', k)
    ctx.check(not one['sim.valid'][..., 1:].any(), 'fresh-empty', 'simulated steps present before the simulation')

  def direct(self, ctx, plan, cfg, recs, ser):
    """The parsing functions used on their own."""
    import dataclasses
    import tensorflow as tf
    from waymax.dataloader import womd_dataloader as wd
    from waymax.dataloader import womd_factories as wf
    key = plan['direct']
    ctx.probe('direct_' + key)
    if key == 'stack':
      ds = [{k: np.asarray(v) for k, v in wd.preprocess_serialized_womd_data(tf.constant(s), cfg).items()} for s in ser]
      both = {k: np.stack([x[k] for x in ds]) for k in ds[0]}
      st = wf.simulator_state_from_womd_dict(both, include_sdc_paths=cfg.include_sdc_paths)
      fl = scenario.flat(st)
      for i, r in enumerate(recs):
        df = womd.differences({k: v[i] for k, v in fl.items()}, womd.expected(r, plan['limit']))
        ctx.check(not df, 'stacked', lambda: f'record {i}: {df[:3]}')
      return
    agg = key == 'all'
    cfg = dataclasses.replace(cfg, aggregate_timesteps=agg)
    ex = {k: np.asarray(v) for k, v in wd.preprocess_serialized_womd_data(tf.constant(ser[0]), cfg).items()}
    st = wf.simulator_state_from_womd_dict(ex, include_sdc_paths=cfg.include_sdc_paths, time_key=key)
    sl = slice(0, womd.T) if agg else womd.SLICE[key]
    df = womd.differences(scenario.flat(st), womd.expected(recs[0], plan['limit'], sl, wrap=agg), wrapped=agg)
    ctx.check(not df, 'time-part', lambda: f'{key}: {df[:3]}')

  def nontrivial(self, plan, ctx):
    return ctx.probes['scenarios'] > 0


PROP = P()
