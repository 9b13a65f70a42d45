"""Writes KNOWN_FINDINGS.json: the defects repaired in /repo (they suppress nothing)."""
import json, os
FIXED = [
 ('C22', '5909b21', 'observation_from_state built is_ego as diag(arange(n)) == 1, so object 1 was the only ego of any observer'),
 ('C22', '5b2d776', 'Observation.for_obj sliced the batch axis instead of the observer axis'),
 ('C10', '2781456', 'make_sdc_dm_environment passed no sim_agent_params, so any configuration with sim agents raised ValueError'),
 ('C10', '9377e02', 'a dm_env reset refused because the scenario has no steps left still marked the adapter as initialized, so step() moved past the end of the log'),
 ('C12', '6283d36', 'the placeholder boxes of absent objects counted as initial overlaps, so sim agents could never control objects that appear later'),
 ('C12', 'ea88429', 'PlanningAgentDynamics.forward named its parameters differently from DynamicsModel.forward, tiled valid flags into a shape validation rejects and dropped the injection flag'),
 ('C13', '357f792', 'select_by_onehot multiplied by the mask, so a NaN or infinity of any object became the planned vehicle\'s metric'),
 ('C10', '655c172', 'BaseEnvironment.action_spec() raised IndexError on the scalar bounds of StateDynamics'),
 ('C29', 'db58c79', 'any center_agent_idx other than -1 raised IndexError in the plotting functions'),
 ('C20', '43a1c3a', 'sdc_* metrics in a reward were broadcast with their batch dimension as the object dimension: an error, or another scenario\'s metric'),
 ('C22', 'fa2b2d5', 'filtering roadgraph points took ids through float32, rounding those above 2**24'),
 ('C06', 'd13e53a', 'the discretized inverse-by-search chose the best bin for the planned vehicle only'),
 ('C06', '981713c', 'Discretizer.discretize failed inside jit and scan'),
 ('C17', 'a6c77b9', 'the off-road metric used the direction of an invalid prior road-edge point'),
 ('C22', '5579dc4', 'observation history before the first logged step showed shifted entries as if present'),
 ('C23', '397f66b', 'endless parallel reading covered only as many shards as the machine has CPUs, never the others'),
 ('C23', 'c5ab731', 'a sharded path with an "@" in its directory was split at the wrong place'),
 ('C24', 'c1591e2', 'deterministic loading order depended on the number of CPUs of the machine'),
 ('C27', '36b3213', 'padded steps of an exported record (valid == -1) were read back as present'),
 ('C07', '803d3d2', 'comparing two states of the planning environment raised ValueError instead of comparing them'),
 ('C33', 'd0768f8', 'a Discretizer whose bins have another shape than its bounds (or bounds that differ while the bins match the lower one) was accepted and gave wrong indices'),
 ('C06', 'e158cf1', 'a displacement model set up with a heading bound of its own inferred heading changes beyond that bound'),
 ('C06', '354089e', 'DeltaLocal limited the inferred displacement to its bounds in the global frame before turning it into the object frame: a diagonal gap within the local bounds was not closed, and with unequal bounds not even straight driving'),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({'findings': [dict(property=p, status='fixed', commit=c, what=w, line=f'fixed: property={p} {c} {w}')
                        for p, c, w in FIXED]},
          open(os.path.join(here, 'KNOWN_FINDINGS.json'), 'w'), indent=1)
