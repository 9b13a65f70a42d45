"""Writes /verif/properties.jsonl (single source for titles/statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
ENV='waymax/env/base_environment.py'; PENV='waymax/env/planning_agent_environment.py'
p('C01','Reset replays exactly the logged warm-up, whatever state it is given',
 'Resetting an environment on a scenario yields a state whose simulated trajectory equals the log at every warm-up timestep, holds only invalid entries at every later timestep, and whose clock stands on the last warm-up step. This holds for every warm-up length, eleven steps if none is configured, and also when the given state is used, half-finished or finished: nothing of an earlier simulation survives a reset, and resetting twice gives the same state. The log, map, traffic lights, routes and metadata of the scenario come out unchanged.',
 ['histories','inputs','configurations'],'all scenarios (dropouts, garbage in invalid slots, batched or not), all warm-up lengths, all earlier uses of the state (fresh, mid-episode, finished, snapshot-restored)',
 'Tests reset a pristine scenario with the default warm-up; the environment tests cannot even run here (their data file is missing).',
 [ENV,PENV,'waymax/datatypes/simulator_state.py','waymax/datatypes/object_state.py'],
 [('reset fills the simulated trajectory with invalid data, then copies init_steps log steps',ENV),('update_state_by_log','waymax/datatypes/simulator_state.py')],
 [('sim_trajectory','simulated states per object and timestep','waymax/datatypes/simulator_state.py'),('timestep','simulation clock','waymax/datatypes/simulator_state.py')],['state returned by reset'])
p('C02','A step commits exactly one new timestep and nothing else',
 'Stepping an environment advances the clock by exactly one and writes exactly the next timestep of the simulated trajectory: every earlier and every later simulated entry, the log, the map, the traffic lights, the routes and the object metadata are unchanged. An episode is reported as done (truncated) exactly when no logged timestep remains, and is never reported as terminated; so after a reset it lasts exactly as many steps as the log has timesteps beyond the warm-up. The object size and height of the new entry are those of the entry before, and its timestamp is the log\'s for that timestep.',
 ['histories','fault_sequences','configurations'],'all action histories including invalid, lost, stale, extreme or non-finite actions, all configurations and motion models, batched or not',
 'A single-step test on one scenario cannot show that no history of steps rewrites an earlier slot, nor what a faulty action does.',
 [ENV,PENV,'waymax/dynamics/abstract_dynamics.py','waymax/datatypes/simulator_state.py','waymax/datatypes/operations.py'],
 [('dynamics.forward writes one slot through update_by_slice_in_dim','waymax/dynamics/abstract_dynamics.py'),('timestep + 1',ENV)],
 [('sim_trajectory','simulated states','waymax/datatypes/simulator_state.py')],['state returned by step','termination/truncation'])
p('C03','Objects outside the control mask replay the log, unaffected by any action',
 'At every step an object that is not controlled (by the configured control mask) takes position, heading and velocity of the new timestep from the log, whatever actions were sent. The command sent for one controlled object, however corrupted, changes the simulated motion of no other object. The control mask is the planned vehicle only, the objects to predict, the objects valid at the end of warm-up, or all valid objects, as configured.',
 ['histories','fault_sequences','configurations'],'all control configurations, all action histories with faults (non-finite, extreme, invalid, stale) confined to arbitrary subsets of objects',
 'Tests compare one nominal step; interference between objects needs a fault in one agent\'s commands over a whole history.',
 [ENV,'waymax/dynamics/abstract_dynamics.py','waymax/datatypes/object_state.py'],
 [('apply_trajectory_update_to_state selects update or log per object','waymax/dynamics/abstract_dynamics.py'),('_get_control_mask',ENV)],
 [('is_controlled','control mask','waymax/env/base_environment.py')],['state returned by step'])
p('C04','Object presence follows the log and the injection setting, never the actions',
 'A controlled object that is present stays present as long as the episode runs; any other present object stays present exactly while the log has it. An absent object never reappears when injection of new objects is off, and appears exactly when the log has it when injection is on. No action, valid or not, creates or removes an object.',
 ['histories','fault_sequences','configurations'],'all logs with objects dropping out, returning and appearing late, both injection settings, all control configurations and action faults',
 'Presence rules interact over several steps (drop out, return, inject); the tests look at one transition at a time.',
 ['waymax/dynamics/abstract_dynamics.py',ENV,PENV],
 [('validity selection in apply_trajectory_update_to_state','waymax/dynamics/abstract_dynamics.py')],
 [('valid','presence of object at timestep','waymax/datatypes/object_state.py')],['state returned by step'])
p('C05','Controlled objects follow the documented motion model along every history',
 'For each motion model (bicycle, displacement in object frame, displacement in global frame, direct state) a controlled object\'s next position, heading and velocity are the documented function of its current state and its command: integrated over the model\'s time step (0.1 s unless set otherwise), with the bicycle model saturating commands at its bounds, default or set otherwise, and keeping headings in (-pi, pi], and the others applying commands as given. A discretized model behaves exactly as the continuous one fed the value of the chosen bin. Applied with the constant-speed fallback, objects whose command is invalid go on at their velocity and the others are as without it. Chained over a whole episode the simulated path equals the path of the reference model.',
 ['histories','fault_sequences','inputs'],'all command histories in, at and far outside the bounds, stale and duplicated commands, all headings and speeds including zero and reverse, all bin counts',
 'The displacement model has no running test here and the others one or two fixed inputs; saturation and chained integration need histories.',
 ['waymax/dynamics/bicycle_model.py','waymax/dynamics/delta.py','waymax/dynamics/state_dynamics.py','waymax/dynamics/discretizer.py','waymax/dynamics/abstract_dynamics.py'],
 [('compute_update / forward of each model','waymax/dynamics'),('DiscreteActionSpaceWrapper','waymax/dynamics/discretizer.py')],
 [('x,y,yaw,vel_x,vel_y','kinematic state','waymax/datatypes/object_state.py')],['state returned by step'])
p('C06','Replaying inferred expert actions reproduces the log and recovers from faults',
 'Driving controlled objects with the actions inferred from the log reproduces the logged motion at every step where both endpoints are logged: up to rounding for direct state and for displacement models while the logged displacement is within their bounds, and within model error for feasible bicycle motion. If the action channel is disturbed and then heals, direct-state replay is back on the log one step later and displacement replay closes the gap, in the frame the model works in, by exactly as much as its bounds on either axis and on the heading change allow, every step until it is back on the log. Inferred actions lie within the model\'s action bounds for the models that bound them, and are marked invalid when the endpoint they lead to is missing and, for relative models, when the endpoint they start from is.',
 ['histories','fault_sequences','inputs'],'all logs with dropouts, all disturbance windows (lost, stale, random or extreme commands) followed by fault-free steps',
 'Recovery after disturbance is a liveness property over a history; the tests check single inverses on one scenario at most.',
 ['waymax/agents/expert.py','waymax/dynamics/abstract_dynamics.py','waymax/dynamics/bicycle_model.py','waymax/dynamics/delta.py','waymax/dynamics/state_dynamics.py'],
 [('infer_expert_action / inverse','waymax/agents/expert.py')],[],['actions inferred','simulated trajectory'])
p('C07','Episodes are deterministic and survive crash, restore and interleaving',
 'The same scenario, actions and random key give the bit-identical sequence of states, rewards and metrics, however often, in whichever process and in whatever interleaving with other episodes sharing the same environment object it is run. A state saved as plain arrays at any step and restored later, in another process if need be, continues exactly as the uninterrupted run; states compare equal exactly when all their contents are equal. Environments, actors and metrics keep no hidden memory and never modify the state they are given.',
 ['schedules','crash_points','histories'],'all crash points, all interleavings of several episodes over shared environment, actor and metric objects, all orders of reads (observe, reward, metrics) between steps',
 'No test crashes and restores a simulation or interleaves two; hidden state shows only then.',
 [ENV,PENV,'waymax/env/rollout.py','waymax/agents/actor_core.py','waymax/datatypes/simulator_state.py'],
 [('stateless environments over immutable states','waymax/env/abstract_environment.py')],
 [('SimulatorState','whole state of an episode','waymax/datatypes/simulator_state.py')],['states, rewards, metrics, observations'])
p('C08','Scenarios in a batch do not influence each other',
 'Simulating a batch of scenarios gives for every scenario what simulating it alone gives, for states, rewards, metrics and observations, with one or two batch dimensions. Faults confined to one scenario of the batch (corrupted commands, garbage or missing objects in its data) leave the results of all other scenarios unchanged.',
 ['histories','fault_sequences','configurations'],'all batch shapes, all assignments of scenarios and faults to batch positions, all histories',
 'Batch tests compare shapes, or one fixed batch; cross-talk depends on what the other lanes contain.',
 [ENV,PENV,'waymax/datatypes/operations.py','waymax/metrics','waymax/dynamics/abstract_dynamics.py','waymax/datatypes/observation.py'],
 [('functions act on leading batch dimensions','waymax/datatypes/operations.py')],[],['states, rewards, metrics, observations per lane'])
p('C09','A rollout records exactly what stepping by hand produces',
 'A rollout of n steps returns n+1 aligned records: the reset state first, then after each step the state reached by applying the actor\'s action to the state before; observation, metrics and reward at position i belong to state i and action i. Actor state, actor parameters and random keys are threaded so that the actor sees at step i exactly the state, its own state after step i-1, and a fresh key. The result is the same as the hand-written loop for any actor, number of steps, key and batch shape.',
 ['histories','configurations'],'all step counts from one up to the end of the log, stateful and stochastic actors, all environments, seeds and batch shapes',
 'The rollout tests do not run here and use stateless deterministic actors only; misalignment shows with stateful ones.',
 ['waymax/env/rollout.py','waymax/agents/actor_core.py'],[('lax.scan over actor and environment steps','waymax/env/rollout.py')],
 [('RolloutOutput','aligned records','waymax/env/rollout.py')],['RolloutOutput'])
p('C10','The dm_env adapter keeps its protocol under any call history',
 'However resets, steps and reads are ordered, and when the scenario source fails, ends or yields an already finished scenario, the adapter either serves the call according to the episode protocol or raises the documented error, and stays usable. Stepping or reading the state without a successfully started episode, and stepping after its end, always raise and never advance or alter a simulation; each successful reset starts a new episode on the next scenario from the source. Rewards, observations and step types are those of the wrapped environment for the state before and after the step, and the episode ends exactly when the wrapped environment says so. The published specs have the shapes and bounds of what is taken and returned.',
 ['histories','fault_sequences'],'all sequences of reset/step/read calls with failing, exhausted or degenerate scenario sources, scalar and vector actions, discrete and continuous action spaces',
 'The tests follow the happy path; the protocol is about every call sequence and failing sources.',
 ['waymax/env/wrappers/dm_env_wrapper.py','waymax/env/errors.py'],
 [('_initialized and _done flags','waymax/env/wrappers/dm_env_wrapper.py')],
 [('_initialized,_done,_cur_state','protocol state','waymax/env/wrappers/dm_env_wrapper.py')],['dm_env.TimeStep, exceptions'])
p('C11','The Brax adapter reports the wrapped environment step for step',
 'Each timestep returned by the Brax adapter carries the next state of the wrapped environment, the observation of that next state, the reward and metrics of the transition just taken (evaluated on the state before it), done exactly when the new state is terminated or truncated, and discount zero exactly when terminated. A reset gives zero reward, unit discount and the metrics of the initial state. Timesteps are values: stepping from an old timestep again gives the same result whatever happened in between. Its specs are those of the wrapped environment.',
 ['histories','schedules'],'all histories and branchings (stepping again from earlier timesteps), batched or not, all environments',
 'The tests look at shapes of one step; alignment and value semantics need branching histories.',
 ['waymax/env/wrappers/brax_wrapper.py'],[('reset/step of BraxWrapper','waymax/env/wrappers/brax_wrapper.py')],[('TimeStep','value passed between calls','waymax/env/wrappers/brax_wrapper.py')],['TimeStep'])
p('C12','Planning steps move the planned vehicle and simulated agents by fixed precedence',
 'In the planning environment a step moves the planned vehicle by its own action, moves each object claimed by configured simulated agents by the action of the last agent in the list that claims it, and replays the log for all others; agents are configured for objects other than the planned vehicle. Objects overlapping another present object at the start of the log are never moved by simulated agents. Every simulated agent is called once per step on the state before the step with its own parameters, its own latest state and its own random key, and its updated state is carried to the next step.',
 ['histories','configurations','fault_sequences'],'all numbers, orders and claim patterns of simulated agents (overlapping, empty, time-varying, stateful, stochastic), all scenarios and planned-vehicle commands including faulty ones',
 'No planning-environment test runs here; precedence and state threading need several agents over several steps.',
 [PENV,'waymax/agents/actor_core.py','waymax/agents/sim_agent.py'],[('merge loop over sim agents in step',PENV),('_initialized_overlap',PENV)],
 [('sim_agent_actor_states','state per simulated agent',PENV)],['state returned by step','calls received by agents'])
p('C13','The planning environment reports the planned vehicle\'s own metrics and reward',
 'Per-object metrics (displacement from log, overlap, off-road, kinematic infeasibility) reported by the planning environment are those of the planned vehicle in the underlying per-object metric, whatever the state of other objects, including non-finite ones. Kinematic infeasibility is reported as zero and not valid on the initial state and from the first step on as measured. The reward is that of the planned vehicle.',
 ['histories','fault_sequences','configurations'],'all positions of the planned vehicle among the objects, all histories, other objects present, missing or carrying garbage, all metric selections',
 'The tests for this environment do not run here, and always have clean data.',
 [PENV,'waymax/datatypes/operations.py'],[('metrics and reward select by one-hot',PENV),('select_by_onehot','waymax/datatypes/operations.py')],[],['metrics(state)','reward(state, action)'])
p('C14','Route-following simulated agents follow their path, brake, and resume',
 'A route-following agent moves its object along the object\'s own logged path, never backwards, heading along the path, accelerating at most at its configured rate and only while below its desired speed. The first object whose box its own box would meet within the look-ahead along the path makes it slow by the intelligent-driver law so as to keep its distance, and when the obstacle goes away it speeds up again towards its desired speed. Beyond the end of the path or far off it the velocity stays as it was. It claims exactly the objects it was configured to control.',
 ['histories','fault_sequences','configurations'],'all placements and motions of lead objects, objects appearing, vanishing or stalling ahead, all configured limits, many steps',
 'There is one running test for this policy; braking and resuming are histories of interaction.',
 ['waymax/agents/waypoint_following_agent.py','waymax/agents/sim_agent.py','waymax/agents/agent_builder.py'],[('IDMRoutePolicy.update_trajectory','waymax/agents/waypoint_following_agent.py')],[],['simulated trajectory of the controlled objects'])
p('C15','Basic actors command what their policy says and merging keeps ownership',
 'A constant-speed actor keeps each of its objects at the requested (or its current) speed along its heading for the whole episode (reaching it as fast as the motion model\'s bounds allow), an expert actor commands the inferred log action, and a frozen actor under direct-state dynamics keeps its present objects exactly as they are; each declares control over exactly its objects. Merging the outputs of several actors with disjoint objects gives every object the command of its own actor, independent of the order in which the actors are listed.',
 ['histories','configurations'],'all assignments of objects to actors, speeds and motion models, over whole episodes including dropouts',
 'The constant-speed tests do not run here; others check one step.',
 ['waymax/agents/constant_speed.py','waymax/agents/expert.py','waymax/agents/actor_core.py'],[('create_constant_speed_actor','waymax/agents/constant_speed.py'),('merge_actions','waymax/agents/actor_core.py')],[],['actor outputs, simulated trajectory'])
p('C16','Overlap and log-divergence track the true geometry at every step of a history',
 'At every step an object is reported overlapping exactly when it and some other object, both present at the current step, have intersecting boxes in the simulation; and its log divergence is its current distance from its logged position, valid exactly when present both in simulation and log at that step. What absent objects or other timesteps contain never matters.',
 ['histories','fault_sequences'],'all simulated histories including divergent ones, dropouts, arbitrary garbage in absent slots and future slots',
 'Tests use a handful of hand-made boxes; masking errors show only with garbage in absent slots along a history.',
 ['waymax/metrics/overlap.py','waymax/metrics/imitation.py','waymax/utils/geometry.py'],[('OverlapMetric, LogDivergenceMetric','waymax/metrics')],[],['metrics(state)'])
p('C17','Off-road and wrong-way follow the nearest valid map geometry at every step',
 'At every step an object is off-road exactly when one of its box corners lies on the off-road side of the nearest valid road edge point (edges have drivable surface on their left; at a bend the more permissive of the direction at that point and at its valid predecessor on the same line counts), judged on valid map points only, wherever the map has a road edge. The planned vehicle is wrong-way by its distance to the nearest valid route point when that is beyond the threshold, and by zero otherwise. Invalid map points and paths, whatever they contain, never matter.',
 ['histories','fault_sequences','inputs'],'all simulated histories over maps with invalid and garbage points, several edges and levels, on- and off-route paths',
 'Tests use one or two straight edges with all points valid.',
 ['waymax/metrics/roadgraph.py','waymax/datatypes/roadgraph.py'],[('OffroadMetric, WrongWayMetric','waymax/metrics/roadgraph.py')],[],['metrics(state)'])
p('C18','Route progress and off-route follow the planned vehicle\'s routes at every step',
 'At every step off-route is zero while the planned vehicle is near enough a valid on-route path, and otherwise its distance to the nearest on-route path; progress is its position along the on-route path it is on, as a fraction of the distance between the logged start and end on that path. Both are marked not valid when the vehicle is absent or no usable route exists. Invalid path points never matter.',
 ['histories','fault_sequences','inputs'],'all simulated histories along and off the route, routes with invalid tails, several on- and off-route paths',
 'Tests use a few fixed paths and positions.',
 ['waymax/metrics/route.py','waymax/datatypes/route.py'],[('ProgressionMetric, OffRouteMetric','waymax/metrics/route.py')],[],['metrics(state)'])
p('C19','Kinematic infeasibility flags exactly the infeasible transitions of a history',
 'At every step an object is flagged exactly when its transition from the previous to the current simulated state needs an acceleration or steering curvature beyond the configured limits under the bicycle model, and the value is valid exactly when it is present at both ends. Objects driven by the bicycle model within the limits are never flagged. Entries of other timesteps never matter.',
 ['histories','fault_sequences'],'all histories of bicycle-driven and freely moved objects, dropouts, first steps of an episode, all limits',
 'There is no running test of this metric here.',
 ['waymax/metrics/comfort.py','waymax/dynamics/bicycle_model.py'],[('KinematicsInfeasibilityMetric','waymax/metrics/comfort.py')],[],['metrics(state)'])
p('C20','Reward is the weighted sum of its metrics for agents and zero for others',
 'At every step of every history the reward of each controlled object is the sum of its configured metrics at that state times their weights (finite metrics), and zero for objects that are not agents; an invalid metric contributes nothing. With reward switched off it is zero for all; with nothing configured it costs one per overlap and one per off-road of the planned vehicle. Reward depends on nothing but the current state.',
 ['histories','configurations','fault_sequences'],'all metric/weight configurations, all histories, control settings, batch shapes',
 'Tests use one fixed state and one configuration.',
 ['waymax/rewards/linear_combination_reward.py',ENV],[('LinearCombinationReward','waymax/rewards/linear_combination_reward.py')],[],['reward(state, action)'])
p('C21','Metric registration and selection behave as a map under any call history',
 'After any history of metric registrations and runs, running a selection of metrics computes each selected name with the metric registered under it and returns exactly the selected names; a selection left unset means log divergence, overlap and off-road. Registering a taken name and running or asking for an unknown one fail with an error and change nothing.',
 ['histories'],'all interleavings of registrations (new, duplicate, failing) and runs with arbitrary selections',
 'Tests register one metric once.',
 ['waymax/metrics/metric_factory.py'],[('register_metric, run_metrics','waymax/metrics/metric_factory.py')],[('registry','names to metrics','waymax/metrics/metric_factory.py')],['run_metrics results and errors'])
p('C22','Observations show exactly the recent past in the right frame',
 'At every step an observation contains, for each observer, the simulated states of all objects and the lights of exactly the last requested timesteps ending now, in the frame asked for (global, own, or planned vehicle\'s pose at the current step), the nearest valid map points, and marks exactly the observer itself as ego. The view of an absent observer in its own frame, and any view in the frame of an absent planned vehicle, is marked invalid; window steps before the first logged step are marked invalid. The planned vehicle\'s view carries its routes unchanged. Nothing after the current step of the simulation can be seen.',
 ['histories','configurations','fault_sequences'],'all histories, window lengths, frames, map sizes, top-k, present and absent observers, garbage in future and absent slots',
 'The observation tests do not run here; they use one scenario.',
 ['waymax/datatypes/observation.py','waymax/datatypes/roadgraph.py','waymax/utils/geometry.py'],[('observation_from_state, sdc_observation_from_state','waymax/datatypes/observation.py')],[],['observations at each step'])
p('C23','Sharded loading delivers every record exactly once per pass',
 'Whatever the number of hosts and files, one pass over the dataset delivers each record of all files to exactly one host exactly once, up to the records of an incomplete last batch of each parallel reader when batching and dropping remainders; repeating passes delivers each the requested number of times. Shuffling changes the order only, interleaving never duplicates or skips, and deterministic endless streams visit every record again and again.',
 ['schedules','configurations'],'all host counts, file counts and sizes (empty files included), shard, repeat, shuffle, batch settings, all scheduling orders of the reader',
 'Tests read one file on one host.',
 ['waymax/dataloader/dataloader_utils.py','waymax/dataloader/womd_dataloader.py'],[('tf_examples_dataset','waymax/dataloader/dataloader_utils.py')],[],['records delivered'])
p('C24','Deterministic loading restarts and repeats identically',
 'With deterministic loading, the same configuration and seed give the identical sequence of scenarios in every run, process and restart, whatever the number of processors of the machine; a consumer that crashed after k scenarios and restarts sees the same first k and then the rest. Different hosts and different seeds change the order, and nothing but the order, and the content of a scenario never depends on order, batch position or parallelism.',
 ['schedules','crash_points','configurations'],'all seeds, crash points, parallelism and buffer settings, hosts',
 'Tests read a single element once.',
 ['waymax/dataloader/dataloader_utils.py','waymax/dataloader/womd_dataloader.py'],[('shuffle seed and deterministic flag','waymax/dataloader/dataloader_utils.py')],[],['sequence delivered'])
p('C25','Damaged or failing storage never yields a wrong scenario',
 'When data files are truncated, corrupted, missing or fail while being read, loading delivers only scenarios that are exactly those written, and reports an error for the rest; it never delivers a changed, mixed or fabricated scenario and never silently ends as if the data were complete (a file cut exactly between two records, or within the next one\'s header, is a well-formed shorter file). A source that recovers can be read again in full.',
 ['fault_sequences','crash_points'],'all truncation points, bit flips, missing or replaced files, malformed records, at any position of the stream, all loader configurations',
 'No test feeds damaged data.',
 ['waymax/dataloader/dataloader_utils.py','waymax/dataloader/womd_utils.py'],[('TFRecord checksums and fixed feature schema','waymax/dataloader')],[],['records delivered and errors raised'])
p('C26','A loaded scenario equals the logged record',
 'Every value of a stored motion record appears in the loaded scenario at the right object, time and field: history, current and future in order, headings wrapped, presence, type and role flags, map points, lights and routes, with the first objects kept when the number of objects is limited and the sizes of an object constant over time as the mean over its present steps. Named kinds of map elements, lights and objects carry the numbers of the record format. Batch dimensions only stack scenarios. The freshly loaded scenario stands at the first step, with a simulation holding that step of the log only.',
 ['inputs','configurations','schedules'],'all records (presence patterns, types, values), object limits, batch shapes, routes on or off',
 'The test record is missing here; fixtures hold one scenario.',
 ['waymax/dataloader/womd_utils.py','waymax/dataloader/womd_factories.py','waymax/dataloader/womd_dataloader.py'],[('preprocess_womd_example, simulator_state_from_womd_dict','waymax/dataloader')],[],['loaded state'])
p('C27','Exporting a simulation and loading it back loses nothing of the executed part',
 'At any step with the full history behind it (step 10 or later in the standard format), exporting the state as a motion record and loading that record back gives a log equal to the simulated trajectory over the current step and its history, with the past, current and future in the right places, no object or light present in the future, and map, lights and metadata unchanged. Exporting does not change the state, and resuming from the reloaded record moves controlled objects as the uninterrupted simulation does under the same actions.',
 ['histories','crash_points'],'all export times and histories, presence patterns',
 'Export is exercised by no running test.',
 ['waymax/dataloader/womd_utils.py','waymax/dataloader/womd_factories.py'],[('simulator_state_to_womd_dict','waymax/dataloader/womd_utils.py')],[],['exported record'])
p('C28','The future of the log cannot influence the simulated past or present',
 'Changing the log only after timestep t+1 changes nothing in the simulated states up to t+1, nor in overlap, off-road, wrong-way, kinematic and log-divergence metrics, rewards made of them, or observations up to then, under any control configuration without route-following agents. Traffic lights seen at a step are the log\'s of that step.',
 ['histories','inputs'],'all cut times, all changes of the later log (values, presence), all histories',
 'A leak from the future needs two runs that differ only later; no test does that.',
 [ENV,'waymax/dynamics/abstract_dynamics.py','waymax/datatypes/observation.py','waymax/metrics'],[('slicing at state.timestep','waymax/datatypes/simulator_state.py')],[],['two-run comparison'])
p('C29','Rendering never disturbs the simulation and releases what it takes',
 'Rendering a state or observation at any step returns an image of the configured size and changes neither the state nor later results. The figure it opened is closed again when the image is returned, and figures of the user stay as they were. Rendering the same state twice, with anything in between, alone or out of a batch, gives the same image; the image shows the chosen trajectory\'s present objects, each as a box of its place, size and heading and in another colour while it overlaps a present one, objects of the highlighted kind unlike others, and present traffic lights (by their state at that step) and road points at their places; absent objects, lights and map points leave no trace in it.',
 ['schedules','fault_sequences','histories'],'all interleavings of rendering with stepping, all states including dropouts, all rendering options',
 'The tests check an image shape on one state (and cannot run here).',
 ['waymax/visualization/viz.py','waymax/visualization/utils.py'],[('img_from_fig closes the figure','waymax/visualization/utils.py')],[('open figures','matplotlib registry','waymax/visualization/utils.py')],['image, open figures'])
p('C30','Geometry primitives agree with exact plane geometry',
 'Box corners, overlap tests, rotations, frame changes and angle wrapping agree with plane geometry for all finite inputs up to rounding.',
 ['inputs'],'all finite inputs','Tests use fixed examples.',
 ['waymax/utils/geometry.py'],[('geometry functions','waymax/utils/geometry.py')],[],['return values'])
p('C31','Array utilities and discretizer are exact on their own',
 'Slicing, indexing, updating and masking utilities act like their plain-array definition for any index, axis and batch shape, and discretizing then undiscretizing a value in range errs by at most half a bin.',
 ['inputs'],'all shapes, indices, bins','Tests use fixed examples.',
 ['waymax/datatypes/operations.py','waymax/dynamics/discretizer.py'],[('operations','waymax/datatypes/operations.py')],[],['return values'])
p('C32','An episode means the same however it is executed',
 'Resetting, stepping, measuring and observing give the same results (up to rounding) whether run eagerly or compiled, inside a scan, loop or conditional, mapped over a leading axis, rematerialised, on device or host arrays and on any device, and however an episode switches among these. Every state handed out has the structure, shapes and types of the state it came from, so that it can be carried through such transformations, and its parts pass their own validation. One environment object serves scenarios of different lengths, map sizes and batch shapes in any order.',
 ['schedules','histories','configurations'],'all switches of execution mode during an episode, all histories, motion models, environments, agents, batch shapes, scenario shapes served in between',
 'The tests run each function in one mode on one shape; reset and step run in no passing test.',
 [ENV,'waymax/env/planning_agent_environment.py','waymax/dynamics','waymax/datatypes/operations.py','waymax/metrics'],[('pure functions over chex dataclasses','waymax/env/base_environment.py'),('state structure kept by step','waymax/datatypes/simulator_state.py')],[],['states, metrics, rewards, observations in each mode'])
p('C33','Misuse is refused where it happens and leaves no mark',
 'A call that cannot be served raises an exception at that call, eagerly or compiled, instead of returning something: resetting with another number of objects than configured; stepping with an action for another number of objects or other batch dimensions, with validity flags that are not boolean or not one per action, or from a state whose logged and simulated trajectories (or actor states) do not match; environments or adapters made for the wrong controlled objects or with unequal numbers of agents and parameters; unknown or duplicate metric names, unknown reward names, agent types, coordinate frames, object types, data formats and time keys; route metrics without routes; an observation history longer than the warm-up; more map points than there are; poses, boxes, bounds, bins or masks of the wrong shape; validating data whose fields disagree in shape or type; drawing what is not a single scenario. Such a call changes neither its arguments nor the environment, adapter or registry: everything afterwards is exactly as if it had never been made.',
 ['inputs','histories'],'all such calls at any point of any episode, all environments, motion models, agents and batch shapes',
 'Tests sample a few refusals, each in isolation; none looks at what happens to an episode in progress.',
 [ENV,'waymax/env/planning_agent_environment.py','waymax/env/wrappers/dm_env_wrapper.py','waymax/config.py','waymax/dynamics/abstract_dynamics.py','waymax/datatypes'],[('caller of the public interface','waymax/env/abstract_environment.py')],[],['exceptions raised, later states, metrics, rewards and time steps'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,sort_keys=False)+'\n')
print(len(P))
