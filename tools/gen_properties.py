#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only so that the JSON stays well formed)."""
import json, os
PRM='nonasymptotic/prm.py'; ENV='nonasymptotic/envs.py'; BND='nonasymptotic/bound.py'; ANN='nonasymptotic/ann.py'; UTL='nonasymptotic/util.py'
KNN='exps/run_knn_radius_trial.py'; LIN='exps/run_straight_line_optimality_trial.py'; NAR='exps/run_narrow_passage_clearance_trial.py'
SUB='exps/submit_and_run_experiment_job.py'; TUN='exps/tune_experiment_triples.py'; T='exps/tamp_environment/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
NOPRM='No stable test executes the roadmap code (networkit is absent from the test environment); '
p('R01','Every roadmap edge was accepted by the motion checker',
 'Every edge a roadmap ever contains, whether made while building, growing, merging, or linking the start and goal of a query, joins two points for which the supplied motion checker accepted the straight motion between exactly those two points.',
 ['inputs','histories','configurations'],'all sample sets, checkers, radii, neighbour counts, queries and growth histories, for each roadmap type',
 NOPRM+'and a sample of queries only sees an unchecked edge if a shortest path happens to use it.',
 [PRM],[('shared neighbour-list builder','SimplePRM._nn_edge_list_and_dist_list_to_nk_prm_graph'),('all-pairs builder','SimpleFullConnRadiusPRM.grow_to_n_samples'),('query links','*._query_samples, SimplePRM.query_best_solution')],
 obs=['edges of the networkit graph','argument pairs passed to the motion checker'])
p('R02','Edge weights are the distances between their own endpoints',
 'Every roadmap edge, including the links made for a query, is weighted with the distance between its own two endpoints: Euclidean distance where the planner computes it, and the distance the neighbour back end reported for that very neighbour otherwise. The graphs keep these weights, hence graph distances are path lengths.',
 ['inputs','histories'],'all sample sets, neighbour lists and queries',
 NOPRM+'and a misaligned weight array gives plausible numbers on most inputs.',
 [PRM],[('parallel start/goal/distance arrays','SimplePRM._nn_edge_list_and_dist_list_to_nk_prm_graph, SimpleFullConnRadiusPRM.grow_to_n_samples'),('query distances','*._query_samples')])
p('R03','Roadmaps connect exactly the valid pairs within the radius in force',
 'A roadmap built for a connection radius links every pair of its samples at most that far apart (boundary included) whose motion is accepted, and no pair farther apart; a query is linked to every sample that meets the same test. A nearest-neighbour roadmap takes the k nearest others of every sample (all others when there are fewer), k the neighbour count in force, and without a radius links each whose motion is accepted, its queries using the certified radius. No pair of samples is linked by two parallel edges.',
 ['inputs','histories','configurations'],'all sample sets, radii, neighbour lists and growth histories',
 NOPRM+'and missing edges only show as a slightly longer or missing path.',
 [PRM],[('radius filters','SimplePRM._nn_edge_list_and_dist_list_to_nk_prm_graph(threshold_rad), SimpleFullConnRadiusPRM.grow_to_n_samples, SimpleRadiusPRM.grow_to_n_samples'),('query radius','*._query_samples')])
p('R04','A best-path query leaves the roadmap as it found it',
 'A best-path query adds its start and its goal as two new, distinct vertices, links each to its own neighbours only, and removes both again before it returns, so that the roadmap and later queries are unaffected.',
 ['histories','inputs'],'all sequences of queries on a roadmap',
 NOPRM+'leftover vertices show only in later queries or in vertex counts.',
 [PRM],[('add / link / remove','SimplePRM.query_best_solution')])
p('R05','A query reports the result of the search between its own terminals',
 'The distance and path a best-path query returns come from one completed shortest-path search from its start vertex to its goal vertex in the linked roadmap, and the path is the coordinates of the samples the search visited, in order.',
 ['inputs','histories'],'all roadmaps, starts and goals',
 NOPRM+'symmetric test problems hide swapped or stale results.',
 [PRM],[('bidirectional search and result','SimplePRM.query_best_solution')])
p('R06','Growing a roadmap only appends freshly drawn samples',
 'Growing a roadmap to n samples keeps every sample it had, in place, appends exactly as many as are missing, each one a separate draw from the supplied sampler stored as drawn, and refuses to shrink but never to grow.',
 ['inputs','histories'],'all roadmap types and growth schedules',
 NOPRM+'and a statistical test cannot see a duplicated, dropped or zero row.',
 [PRM],[('sampling and concatenation','SimpleFullConnRadiusPRM.grow_to_n_samples, SimpleNearestNeighborRadiusPRM.grow_to_n_samples, SimpleRadiusPRM.grow_to_n_samples')],
 state=[('samples','array of sampled configurations; row i is vertex i',PRM)])
p('R07','Reset returns a planner to its freshly constructed state',
 'After a reset, every piece of planner state that later operations read has the value it had right after construction with the same arguments, and the planner\'s scratch file is gone from disk.',
 ['histories'],'all operation histories before the reset, all roadmap types',
 NOPRM+'stale state only matters for particular histories after the reset.',
 [PRM],[('reset','SimpleFullConnRadiusPRM.reset, SimpleNearestNeighborRadiusPRM.reset, SimpleRadiusPRM.reset')])
p('R08','Retuning radius or neighbour count yields the roadmap of that setting',
 'After setting a connection radius or neighbour count on a built nearest-neighbour roadmap, it contains exactly the edges of the complete saved roadmap that both settings in force allow: radius inclusive, an edge kept if either endpoint lists the other among its k nearest; raising a setting restores edges from the saved roadmap first and a count above the built maximum is refused. Setting a radius on the all-pairs roadmap rebuilds it for that radius.',
 ['histories','inputs'],'all sequences of settings, raising and lowering',
 NOPRM+'the result depends on the order of settings and on the graph library\'s iteration behaviour.',
 [PRM],[('k setting','SimpleNearestNeighborRadiusPRM.set_nearest_neighbors'),('radius setting','SimpleNearestNeighborRadiusPRM.set_connection_radius, SimpleFullConnRadiusPRM.set_connection_radius')])
p('R09','Scratch files are private to their owner and cleaned up',
 'Every planner and neighbour back end writes intermediate data only to a file under the scratch directory whose name is unique to that object, reads back only what it wrote there, and removes it: planners on reset, the back end once the data is parsed.',
 ['schedules','histories'],'any number of concurrently living planners and processes, any operation history',
 'Collisions need two processes or objects alive at once; no stable test creates a planner or a file.',
 [PRM,ANN],[('cache path','SimpleFullConnRadiusPRM.__init__, SimpleNearestNeighborRadiusPRM.__init__, SimplePRM.__init__'),('text dump','KGraphANN.__init__, KGraphANN.new_graph_from_data')])
p('R10','Enter/exit pair enumeration is complete and aligned',
 'Asking for all connections of a start and a goal returns every combination of a vertex reachable from the start with a vertex reachable from the goal exactly once, and row i of the coordinates, the ids and the distances describes the same combination, start side first.',
 ['inputs'],'all roadmaps, starts and goals',
 NOPRM+'and misaligned rows are only visible when distances are compared one by one.',
 [PRM],[('tile/repeat product','SimplePRM.query_all_graph_connections')])
p('R11','Precomputed roadmap distances are looked up by the right vertices',
 'The shortest-path table is computed on the roadmap in force and again whenever that changes, and covers exactly the samples within the radius in force of the reference path as both sources and targets; the index maps each such vertex to its own row and column and every other vertex out of range, and a distance lookup reads the entry for its start and goal vertices.',
 ['inputs','histories'],'all sample sets and vertex subsets',
 NOPRM+'an off-by-one index map still returns finite distances.',
 [PRM],[('table construction','SimplePRM._compute_spsp'),('lookup','SimpleNearestNeighborRadiusPRM._distance_in_graph, SimpleRadiusPRM._distance_in_graph')])
p('R12','Neighbour lists are deep enough for the radius they certify',
 'The certified radius of a nearest-neighbour roadmap is the smallest k-th neighbour distance over all its samples, and is the radius in force and the radius reported after a truncating build. A radius roadmap built from neighbour lists uses lists that reach the radius at every sample, unless the neighbour count has hit its maximum or the number of samples.',
 ['inputs','histories'],'all sample sets, neighbour counts and growth histories',
 NOPRM+'too shallow lists silently drop edges only in dense regions.',
 [PRM],[('certified radius','SimpleNearestNeighborRadiusPRM.grow_to_n_samples'),('doubling loop','SimpleRadiusPRM.grow_to_n_samples')])
p('R13','Counts and saved files are those of the roadmap in force',
 'The vertex and edge counts a planner reports are those of the roadmap in force, zero before there is one. Saving writes that roadmap, in the binary format it can be read back in, to the given path plus .nkb and its samples to the same path plus .npy, and raises when there is no roadmap yet.',
 ['histories'],'any planner, configuration and history of growing and retuning',
 NOPRM+'and nothing in the repository reads a saved roadmap back.',
 [PRM],[('counts','SimplePRM.num_vertices, SimplePRM.num_edges'),('files','SimplePRM.save')])
p('A01','Neighbour back ends return aligned ids and Euclidean distances',
 'Every neighbour back end returns, for each data row in order, a row of neighbour ids and a row of the Euclidean distances to those same neighbours, at most the requested number of each, the ids as integers, from an index seeded with the seed asked for or a fixed one and fed with data and distances of at least single precision; a back end that pads the data does so with zeros without losing a coordinate, and squared or halved distances are converted.',
 ['inputs','configurations'],'all data sets, dimensions and neighbour counts, each back end',
 'Neither back end library is importable in the test environment, and interleaved text parsing fails silently.',
 [ANN],[('text parsing and conversion','KGraphANN.new_graph_from_data'),('in-process result','PyNNDescentANN.new_graph_from_data')])
p('A02','Neighbour back ends are selected, built and updated in order',
 'Requesting a back end by name gives that back end, falls back to the always available one only when the named one is not installed, and rejects unknown names. Updating a neighbour index that was never built is refused; updating a built one answers for the old data followed by the new data with the same neighbour count.',
 ['histories','configurations'],'all call orders and installed-library configurations',
 'Needs both library configurations and call orders that the tests never make.',
 [ANN],[('selection','get_ann'),('update','KGraphANN.update_graph_with_data, PyNNDescentANN.update_graph_with_data')])
p('B01','Volume and covering-radius formulas match their definitions',
 'The d-ball volume is pi^(d/2)/Gamma(d/2+1); the covering radius is clearance times tol/sqrt(1+tol^2), or the clearance itself without a tolerance; the normalised ball measure is the ball volume times radius^d over the environment volume; and the Blumer bound is the larger of 4/mu*log2(2/gamma) and 8(d+1)/mu*log2(13/mu) for that measure mu.',
 ['inputs'],'all dimensions, clearances, tolerances, volumes and probabilities',
 'No stable test evaluates the bounds (scipy is absent), and a sample of numbers cannot establish a formula.',
 [BND],[('formulas','compute_vol_unit_sphere, compute_epsilon_net_radius, compute_rho, compute_blumer_bound')])
p('B02','Connection radii agree and grow with clearance as published',
 'The sufficient connection radius is 2*clearance*(tol+1)/sqrt(1+tol^2), the sample-size computation reports the same radius for the same clearance and tolerance, and reports 2*clearance when only path existence is asked for.',
 ['inputs'],'all clearances and tolerances',
 'Two functions compute it by different expressions; no stable test evaluates either.',
 [BND],[('radius','compute_connection_radius, compute_numerical_bound')])
p('B03','Sample-count failure bound is exact and its inverse matches it',
 'The log2 failure bound for m samples is log2 of the exact integer sum of C(2m,i) for i=0..vc, minus rho*m/2, plus 1, with no floating-point conversion of that integer before its logarithm; the bound for a whole environment uses VC dimension d+1; and the net radius for a given failure probability is the radius at which that bound equals the probability.',
 ['inputs'],'all sample counts (including those whose binomials exceed floating point), dimensions and probabilities',
 'Overflow and an inverse that is off by a constant factor show only outside the range a test would pick.',
 [BND],[('bound and inverse','compute_ss_comb_sum, compute_sauer_shelah_bound_log2, compute_net_radius_from_prob, compute_numerical_bound')])
p('B04','Nearest-neighbour radius tail bounds are the stated inequalities',
 'Each tail bound on the effective radius of a k-nearest-neighbour roadmap is the stated concentration inequality for the ball measure of that radius, in natural logs with the union factor log m: the two Hoeffding forms are equal, deviations are clamped at zero, and ball probabilities that enter a Chernoff form are clamped at one.',
 ['inputs'],'all sample counts, neighbour counts, radii, dimensions and volumes',
 'No stable test evaluates them; each is one algebra slip away from an invalid guarantee.',
 [BND],[('tails','compute_tail_knn_radius_log_prob_hoeffding, ..._hoeffding_mean_variant, ..._chernoff_generic, ..._chernoff_kl')])
p('B05','Bound searches return a value that meets the requested probability',
 'The sample-count search returns a count whose bound meets the requested failure probability and is no longer rising, immediately above a count that does not, and every count it asks about or returns is an integer; the radius search returns the lower end of a bracket no wider than its tolerance whose ends are only ever moved to tested radii, the lower end to a radius that met the requested failure probability and at which the bound is above its value at a smaller radius within the tolerance; the deprecated linear search returns the first of the radii it steps through, from the lower end by the tolerance and within the range, whose successor exceeds the failure probability.',
 ['inputs'],'all bound functions, targets and brackets',
 'No stable test calls a search; a boundary slip changes the answer by one or returns the unsafe side.',
 [BND],[('searches','doubling_sample_search_over_log2_prob_bound, halving_radius_search_over_log_prob_bound')])
p('B06','Bound searches make progress and refuse impossible requests',
 'Every iteration of every bound search either leaves it or strictly shrinks its bracket or advances its candidate, growth of the candidate is bounded by an explicit failure that counts below 2^53 never meet, the radius search goes on only while its bracket is at least as wide as its tolerance, and the sample-size computation refuses success probabilities outside the open interval (0,1) before searching.',
 ['inputs'],'all bound functions and arguments',
 'Non-termination cannot be sampled; no stable test calls a search.',
 [BND],[('loops','doubling_sample_search_over_log2_prob_bound, halving_radius_search_over_log_prob_bound, linear_radius_search_over_prob_bound, compute_numerical_bound')])
p('E01','Environment randomness comes only from the environment seed',
 'Every random draw made by a library environment or the polygon sampler it uses comes from that environment\'s own generator, which is created from the seed given at construction; no process-wide or freshly seeded generator is used when one was supplied, so equal seeds give equal sample sequences.',
 ['histories','schedules','configurations'],'all environments, seeds and interleavings of several environments',
 'Tests that check a few samples pass with any generator; interference needs two environments or foreign draws in between.',
 [ENV,'nonasymptotic/sampler.py'],[('generator','Environment.__init__ and every use of self.rng; random_point_in_mpolygon(rng)')])
p('E02','Straight-line environment samples, checks and measures one and the same box',
 'In the straight-line environment a motion is valid exactly if both endpoints lie in the closed box [-delta, length+delta] x [-delta, delta]^(d-1), samples are uniform over that box, and the volume is the product of its side lengths; checking a batch gives, row by row, what checking each motion alone gives.',
 ['inputs','configurations'],'all dimensions, clearances, lengths, points and batch sizes',
 'No stable test constructs this environment.',
 [ENV],[('box','StraightLine.__init__, sample_from_env, is_motion_valid, volume')])
p('E03','Path distance is measured to the curve the environment traces',
 'For the straight-line and narrow-passage environments, the curve point at normalised arclength t (clipped to [0,1]) is the start of the path segment plus t times its length along the first axis in d coordinates, and the distance of a point to the path is its Euclidean distance to exactly that segment.',
 ['inputs','configurations'],'all dimensions, lengths, parameters and points',
 'No stable test calls either function.',
 [ENV],[('curve and distance','StraightLine.arclength_to_curve_point/distance_to_path, NarrowPassage.arclength_to_curve_point/distance_to_path')])
p('E04','Segment intersection is exact and independent of orientation',
 'Two planar segments are reported as intersecting exactly if they share a point, including touching, parallel, collinear and degenerate segments, and the answer is the same if either segment is reversed or the two are exchanged.',
 ['inputs'],'all pairs of segments, batched or single',
 'The stable tests reach it through three motions in one environment.',
 [UTL],[('intersection test','detect_intersect, cross_2d')])
p('E05','Narrow-passage geometry is one consistent set',
 'In the narrow-passage environment, sampling boxes, region probabilities (proportional to volume), total volume and motion checking all describe the same set: two unit end boxes joined by a corridor of half-width the clearance over [-0.5,0.5]; a motion is valid exactly if both endpoints lie in that set and it meets no corridor or end wall edge in any of the planes of the first and another axis.',
 ['inputs','configurations'],'all dimensions, clearances, points and batches',
 'Five stable motion tests at one clearance in two dimensions.',
 [ENV],[('boxes, probabilities, walls','NarrowPassage.__init__'),('sampling and motion check','NarrowPassage.sample_from_env, is_motion_valid, volume')])
p('E06','Gray-code sampling weights match the volumes and order of its regions',
 'In the Gray-code environment the cell weights and the within-cell region weights are the region volumes normalised to one, listed in the order in which the sampler interprets the drawn index, and end cells use the end-cell table while all others use the middle-cell table. The point sampled lies in the region drawn, each of its coordinates uniform from its own draw: the centre of the cell without its walls, or the slab as thick as a wall behind the face the corridor passes through, on the side the region stands for.',
 ['inputs','configurations'],'all dimensions, lengths and thicknesses',
 'Sampled points stay inside the walls for any weights, so the stable tests cannot see wrong ones.',
 [ENV],[('weights','GrayCodeWalls.__init__'),('interpretation','GrayCodeWalls.sample_from_env')])
p('E07','A random point of a polygon is uniform over its triangulation',
 'A random point of a polygon or multipolygon is drawn by choosing any one of the triangles of its triangulation with probability proportional to its area, and then a point uniform in that triangle (two uniform fractions of its sides, reflected into it). The triangulation keeps to the boundary segments and is given a hole marker from inside every interior ring.',
 ['inputs'],'all polygons, multipolygons and generator states',
 'The tests of the sampler do not run in the test environment, and a skewed distribution needs statistics to see.',
 ['nonasymptotic/sampler.py'],[('area weights','random_point_in_mpolygon'),('barycentric draw','random_point_in_mpolygon')])
p('E08','The Gray-code curve runs through the centres of consecutive cells',
 'In the Gray-code environment the curve point at normalised arclength t, clipped to [0, 1], is the point that far along the polyline through the centres of consecutive cells, whose length is the number of steps between cells; the start and end points are the centres of the first and the last cell.',
 ['inputs','configurations'],'every dimension, length and arclength',
 'The tests follow the curve in a few fixed environments, none of them planar with an odd length.',
 [ENV],[('curve point','GrayCodeWalls.arclength_to_curve_point'),('length','GrayCodeWalls.__init__'),('ends','GrayCodeWalls.start_point, GrayCodeWalls.end_point')])
p('X01','Every experiment record has one value per column, in column order',
 'Every row an experiment trial records has exactly one value for each declared column and in the declared order: each column holds the quantity it names, on every path that emits a row.',
 ['inputs','histories'],'all trial outcomes, including early exits and failures, for each experiment',
 'No stable test runs an experiment; the rare-outcome rows are never produced.',
 [KNN,LIN,NAR],[('records','knn_radius_trial, straight_line_trial, narrow_passage_clearance')])
p('X02','Tasks partition the trials and resuming continues where it stopped',
 'For every number of tasks, the tasks together run every configured combination exactly once; a resumed task skips exactly the combinations whose results are in its output file, keeps those results, and continues with the random seeds an uninterrupted run would have used.',
 ['configurations','crash_points'],'all task counts, configurations and interruption points between trials',
 'Runners execute only on the cluster; no stable test starts or interrupts one.',
 [KNN,LIN,NAR],[('partition, resume, output','task scheduling code of the three runners')])
p('X03','Trials are reproducible from the recorded seed',
 'Each trial draws one seed from its task\'s generator, which is seeded by the task id alone, uses that seed as the random seed of the environment it builds, and records that same seed with its results.',
 ['inputs','histories'],'all tasks and trials of the three experiments',
 'A seed bound to the wrong parameter still yields results.',
 [KNN,LIN,NAR],[('seed flow','knn_radius_trial, straight_line_trial, narrow_passage_clearance and their callers')])
p('X04','Every shipped experiment configuration has the keys its runner reads',
 'For every configuration file shipped for an experiment type, the runner of that type finds every key it reads, with a value of the kind it uses it as.',
 ['configurations'],'all shipped configuration files and all runner paths',
 'A missing key fails only when a cluster job of that type starts.',
 ['exps/config',KNN,LIN,NAR],[('key reads','module-level code of the three runners')])
p('X05','Job submission passes the right experiment, in full, or stops',
 'A submitted job runs the runner of the requested experiment type with task id, task count, configuration path and output directory in the order that runner reads them; when set-up fails (name taken, missing directory, missing configuration, nothing to resume) the program exits with an error before submitting, and the tuning tool passes only options the submission tool accepts, including all it requires.',
 ['configurations','fault_sequences'],'all option combinations and set-up failures',
 'Needs the cluster scheduler; no stable test runs it.',
 [SUB,TUN],[('submission','module-level code')])
p('X06','Every import and every call between repository modules binds',
 'Every name a module of the repository imports from another module of the repository exists there, and every call to a repository function, method or class passes arguments its signature accepts, with every required parameter bound and in no case twice.',
 ['programs','configurations'],'all modules, including experiment scripts and planners that the test environment cannot import',
 'Most modules cannot be imported in the test environment, so a dangling import or wrong arity stays invisible.',
 ['nonasymptotic','exps'],[('imports and calls','all modules')])
p('X07','The narrow-passage search brackets the feasibility threshold',
 'In the narrow-passage trial the search starts between the smallest and the largest setting; the upper bound moves only to a setting at which a query just found a path, the lower bound only to one at which a query just found none; an upper bound that was never lowered is reported only when a query at the configured maximum finds a path; reported path distances and lengths are those of the query that moved the upper bound or of that last query, and only of queries that found a path.',
 ['inputs','histories'],'all outcomes of the queries along the search',
 'No stable test runs the trial.',
 [NAR],[('bracket updates','narrow_passage_clearance')])
p('E09','The Gray-code corridor visits every cell once through open walls',
 'For every dimension and length, the corridor of the Gray-code environment starts at the origin and visits each of its length * 2^(dim-1) cells exactly once; cells visited one after the other share a face; its graph has the cells as nodes and exactly the steps of the corridor, in its direction, as edges. The reported distance to the walls is the distance to the nearest face of the point\'s own cell that the corridor does not pass through, less the wall thickness.',
 ['inputs'],'all dimensions, lengths, thicknesses and points',
 'Tests build a few small corridors; a sweep that turns the wrong way or a face opened on the wrong side only shows in other dimensions.',
 [ENV],[('corridor','GrayCodeWalls.__init__'),('walls','GrayCodeWalls.distance_to_wall, _unblock_wall')])
p('E10','The triangulation of a polygon is given exactly its boundary and its holes',
 'A random point of a polygon or multipolygon is taken from a triangulation that is handed every corner of every outer and inner ring, and nothing else, as a vertex; as boundary segments exactly the edges of the rings, each corner joined to the next and the last to the first of its own ring; and as hole markers a point inside every part of every hole that is left when the polygons nested in the hole are taken out, with any further marker outside the bounds of all polygons. So holes are never sampled and nested polygons always are.',
 ['inputs'],'all positions of rings; polygons with up to three holes and multipolygons of up to three parts with parts nested in holes, each ring of three to six corners',
 'The tests of the sampler do not run in the test environment; a segment closing on the wrong ring or a marker in the wrong part only shows for particular polygons.',
 ['nonasymptotic/sampler.py'],[('vertices, segments and markers','random_point_in_mpolygon')])
p('E11','Gray-code motions are checked cell by cell along the corridor',
 'A motion in the Gray-code environment is followed cell by cell along the corridor, on when the cell of the goal lies ahead and back otherwise. In each cell before that of the goal it is refused exactly if it does not move towards the opening to the next cell (it meets the plane of the opening at or before where it is, or never), or if its entry or the point where it meets that plane is closer to a wall of that very cell than the wall thickness; otherwise it goes on from that point in the next cell. In the cell of the goal it is valid exactly if its entry and the goal keep clear of the walls of that cell.',
 ['inputs'],'all starts, goals and wall distances, through any number of cells; 2 and 3 dimensions (4 in the thorough tier), every pair of openings up to symmetry',
 'Tests sample a handful of motions; the wrong cell, opening or walls only show for motions through particular faces in a particular direction.',
 [ENV],[('cell walk','GrayCodeWalls.is_motion_valid')])
p('T01','Planning-domain actions preserve the state invariants',
 'In both planning domains every action that makes the robot be at a configuration requires and deletes the previous one, moves along a motion certified from the previous to the new configuration (carrying what is held, if anything), and needs permission to move; an object is at a pose or held but never both or neither, and the hand is free exactly when no object is held; picking and placing use a configuration certified for that object, pose and grasp; each action uses only declared predicates with the right number of arguments and its own parameters, and every predicate an action needs can be established by the initial facts, a stream or an action.',
 ['programs','histories'],'all plans over all actions, both domains',
 'No test reads the domain files; the planner would simply produce impossible plans.',
 [T+'turtlebot_move/domain.pddl',T+'kuka_carry/domain.pddl'],[('actions','domain files')])
p('T02','Declared streams and their implementations agree',
 'A planning problem reads its own domain and stream files. Every stream declared for it is registered once under its name with an implementation that accepts exactly the declared inputs (and every declared fluent), uses each input as the kind of value its domain facts give it, and returns as many outputs as declared; no undeclared stream is registered; a stream\'s facts use its own parameters. Initial facts and goals use declared predicates with their number of arguments, with arguments of one kind of value at each place, and a kinematics fact names the body, pose and grasp its configuration was computed for.',
 ['programs'],'all streams of both planning problems',
 'The planning stack is not installed in the test environment.',
 [T+'turtlebot_move',T+'kuka_carry'],[('stream maps','pddlstream_from_problem, get_anytime_motion_fn, get_ik, get_*_motion_gen, get_insert_motion_gen')])
p('T03','Motion streams return a complete, verified path or nothing',
 'A roadmap-based motion stream checks that both end configurations are collision free before planning, in an environment built from the shape of what moves and the obstacles of the problem; its query runs from the first to the second configuration; the sample budget starts at its minimum, grows by the factor, never exceeds its maximum, every budget up to the maximum is tried, and each query follows a growth of the roadmap. A motion is returned only if a path was found, starts at the start, passes every waypoint of the path in order and ends at the goal; interpolation keeps the waypoints and adds only points on the segments between them. A motion planned in joint space runs from the first to the second configuration, avoids fixed and placed objects, moves with what is held, and exists only if the planner found one.',
 ['inputs','histories'],'all problems, sample budgets and planning outcomes',
 'The robot simulator is not installed in the test environment.',
 [T+'turtlebot_move/streams.py',T+'kuka_carry/run.py'],[('planning loops','get_anytime_motion_fn, get_insert_motion_gen')])
p('T04','Command lines of the TAMP experiments agree with their launchers',
 'Every option a launch script passes is declared by the program it starts, takes a value exactly if the declaration says so, and every passed value and declared default is representable in the option\'s declared type; every option a program reads is declared; each launcher submits a script that exists, passes its arguments in the order in which the script reads them, and selects exactly one program run, with a sample range that does not start above its end and the adaptive switch exactly when the launcher asks for it; each task of a submitted array runs one seed of its own. The gap, sample range, growth factor, margins and adaptive switch given are those the scene and the planning problem are built with; a given non-negative seed seeds both random generators before any scene is built.',
 ['configurations'],'all launch scripts and option sets',
 'Needs the cluster and the simulator.',
 [T],[('option declarations and uses','run.py of both experiments, deploy_*.py, deploy_*.sh')])
p('T05','Separating-axis tests report a collision exactly if no axis separates',
 'The polygon test projects both polygons on the normals of all edges of both (equally many) and the box test projects both boxes on their six face normals and nine edge cross products; shapes are reported colliding exactly if their projections overlap on every such axis, touching included, a vanishing cross product separates nothing, a box\'s vertices are its centre plus or minus each half extent along its own local axis, and a box written as a vector is read back as the same box.',
 ['inputs'],'all batches of polygons and of boxes in any position and orientation',
 'No test imports these modules; axis-aligned examples hide missing axes and mis-scaled vertices.',
 [T+'turtlebot_move/separating_axis.py',T+'kuka_carry/separating_axis.py'],[('tests','vec_separating_axis_theorem, separating_axis_theorem, compute_vertices_vectorized, OBB')])
p('T06','Plan execution covers every kind of planned motion',
 'Post-processing of a plan emits, for every action whose parameters include a motion, that action\'s own motion in plan order (with attach of the picked object after the motion that picks and detach of that object after the motion that places), refuses none of the domain\'s actions, and unpacks action arguments in the order the domain declares them; refining the command keeps every path with its body, joints and attachments, and playing it sets every configuration of every path in order and moves the attached objects along.',
 ['programs','histories'],'all plans over the actions of both domains, all lengths of motions',
 'Needs the planner and the simulator.',
 [T+'turtlebot_move/run.py',T+'kuka_carry/run.py',T+'kuka_carry/kuka_primitives.py'],[('post-processing','post_process, postprocess_plan, Command, BodyPath')])
p('T07','A TAMP motion is valid exactly if clear of every obstacle all along',
 'The validity test of both worlds gives one verdict per motion of the batch, free exactly if the overlap test reports no obstacle overlapping the moving body at any checked position of that motion; the positions are evenly spaced from the start to the goal, both included, at most 0.08 apart in each coordinate (planar robot) or 0.03 apart in pose space (carried box); the body tested is the body placed at that position, the obstacles tested are all obstacles known for the problem, and the shape is that of what moves: the carried object when one is held.',
 ['inputs'],'all batches of motions, obstacles and shapes',
 'A skipped obstacle, end or batch row only shows when a rare sampled motion touches it, and no test imports these modules.',
 [T+'turtlebot_move/streams.py',T+'kuka_carry/run.py'],[('validity','BagOfBoundingBoxes.is_motion_valid, get_anytime_motion_fn, get_insert_motion_gen')])
p('T08','The TAMP scenes are what they are recorded to be',
 'Hallway scene: the gap recorded with the problem is the requested margin plus the diameter of the widest object created, and the passage between the two walls through its middle line is exactly that wide, with walls on both sides of it; every box of the scene above the floor stands on the floor, joins two others, and is an obstacle of the problem; as many objects are made as were asked for, each given a start pose in one room and a goal pose in the other, in the order of the targets, clear of the walls; the robot stands at the recorded start configuration, in a room. Bin scene: a bin is a floor and four walls, each over its whole side, standing on the plane it is put on, with room for the widest object; the obstacle boxes of a bin are exactly the boxes of its links at the pose the bin is put at; the obstacle boxes used to insert an object are those of the bin it is inserted in; objects are placed on the floor link of a bin.',
 ['inputs'],'all margins, object counts and sizes the scenes are built with',
 'Whether a scene has the clearance the bound of the planner is computed from only shows as an unexplained failure rate; no test imports the scene builders.',
 [T+'turtlebot_move/problems.py',T+'turtlebot_move/run.py',T+'kuka_carry/run.py'],[('hallway scene','hallway_manip'),('bin scene','create_hollow_shapes, create_link_body, load_world, pddlstream_from_problem')])
p('T09','Placements and configurations offered to the planners are found and clear',
 'kuka_carry: a placement is offered exactly for a pose that was sampled for that body on that surface, on the link recorded for the surface, at which the body touches none of the fixed bodies and none of the obstacles given; an arm configuration is returned only if inverse kinematics solved, for the tool link of the grasp, the approach of that grasp of the object in the given pose and the robot in that solution touches no fixed body, it is that solution, and nothing is returned only if every attempt failed. In the scene built at the start every movable body is put, in turn, where such a placement clear of all fixed bodies and of every body placed before was found and such a configuration exists, and every bin is a fixed body. turtlebot_move: a body sampled onto a box ends with its centre drawn from the box shrunk by half its extent on each side and its underside epsilon above the top of the box, is left at the pose that is returned, and nothing is returned only if the shrunk box is empty; bodies placed one after the other are each left clear, by the distance asked for, of the obstacles and of the bodies placed before, and success is reported exactly if every one was placed; the configuration certified to reach an object is a copy of the initial one at the ground position of the object.',
 ['inputs','histories'],'all numbers of fixed bodies, obstacles and attempts, all outcomes of sampling and of the collision tests',
 'A placement tested before the body is where it is offered, or against only part of the obstacles, is wrong only for particular scenes and draws; no test imports these modules.',
 [T+'kuka_carry/kuka_primitives.py',T+'kuka_carry/run.py',T+'turtlebot_move/problems.py',T+'turtlebot_move/streams.py'],[('placements','get_fixed_stable_gen, get_stable_gen'),('configurations','get_ik_fn, get_ik'),('scene','load_world, sample_placement_on_aabb, sample_placements')])
p('T10','Sampling domain, outlines and adaptive budget of the TAMP environments',
 'The environment a TAMP motion is planned in draws configurations from the smallest box that holds its obstacles: on every axis the domain runs from the smallest to the largest coordinate over all corners of all obstacle boxes (kuka_carry: together with the position of the body at the start, and each of three angles from minus to plus the given margin), and every coordinate of a sample is a uniform draw of its own between the bounds of its own axis (2 coordinates in turtlebot_move, 6 in kuka_carry). The ground outline turtlebot_move tests collisions with has each of the four ground corners of a box exactly once (corners less than a millimetre apart are one, corners further apart are kept), and the hull lists them in the order of their convex hull. The adaptive budget is the numerical sample bound for the dimension planned in, for a success probability strictly between 0 and 1, and for a clearance that shrinks as the moving body widens and grows with the recorded gap; in kuka_carry for the volume of the sampling domain.',
 ['inputs'],'all numbers and positions of obstacle boxes, all margins; boxes of any size above a millimetre',
 'A domain that misses a corner of a room, or an outline that misses a corner of an obstacle, makes planners fail or collide only for particular scenes; no test imports these modules.',
 [T+'turtlebot_move/streams.py',T+'kuka_carry/run.py'],[('domain','BagOfBoundingBoxes.__init__, extents, sample_from_env'),('outlines','oobb_flat_vertices, hull'),('adaptive budget','get_anytime_motion_fn, get_insert_motion_gen')])
p('X08','Trials measure full roadmaps, at the stated settings, queries and tolerances',
 'In every trial the planner is built on the trial\'s own environment and connection limit. In the narrow-passage trial every growth connects at the configured maximum, whatever setting the search before it ended on, and without cutting to the certified radius; the settings searched run from 4 to 2^round(log2 maximum) in powers of two (neighbours), or over the distinct edge lengths of the roadmap just grown in ascending order (radius), starting at the outermost two; every query runs between the two opposite corners of the free space, inset by the clearance. In the straight-line trial the radii searched are those of the roadmap just grown up to its effective radius (the smallest left out), and the tolerance tested is the epsilon with (1+epsilon)/sqrt(1+epsilon^2) = radius/(2*clearance). Both searches test only settings strictly between their bounds and end only when none is left. In the neighbour-radius trial each graph is over as many samples of the environment as scheduled, with the largest scheduled neighbour count below that number, and only neighbour counts below it are reported.',
 ['inputs','histories'],'all dimensions, clearances, schedules, limits and search histories',
 'No stable test runs a trial; a wrong setting, query or tolerance only shows as a shifted curve.',
 [KNN,LIN,NAR],[('measured roadmaps, settings and queries','knn_radius_trial, straight_line_trial, narrow_passage_clearance')])
p('T11','Grasps, reversal and collisions of the carrying robot',
 'In the kuka_carry world every grasp offered holds the object from straight above: the hand points down through the centre of the object at its top face, in each of the four quarter turns about the vertical once, offered for that body on the tool link of the robot with a straight retreat upwards. A grasp attaches exactly its own body to the link of its robot at its pose. Reversing a command plays the same configurations backwards, with the paths in opposite order and each path keeping its body, joints and attachments, and turns attaching into detaching and back; refining one keeps every step in order with the same bodies, joints and attachments and refines every path by the number of steps asked for. A motion moves its own body and every body attached to it, and it hits an object exactly if at some configuration of one of its paths a body it moves touches the object in the given pose, every position being complete (attached bodies placed) before it is tested; an object it moves itself it never hits. Poses and configurations put their own body where they say, and default to where it is.',
 ['inputs'],'all bodies, sizes, path lengths, configurations, joints, attachments and poses',
 'A grasp turned the wrong way, a path reversed without its last configuration or a collision test made before the carried object is placed only shows in particular plans; no stable test imports these modules.',
 [T+'kuka_carry/kuka_primitives.py'],[('grasps','get_top_grasps, get_grasp_gen, BodyGrasp'),('commands','BodyPath, Attach, Detach, Command'),('collisions','get_movable_collision_test')])
p('N01','The triangles a polygon is sampled from cover exactly its area',
 'Given the boundary and the hole markers of E10, the triangulation a polygon or multipolygon is sampled from covers its area without overlap, for rings of any number of corners.',
 ['inputs'],'all polygons with holes and nested parts','Statistical and geometric; tests sample a few shapes.',
 ['nonasymptotic/sampler.py'],[('triangulation sampling','random_point_in_mpolygon')])
p('N02','Epsilon-delta completeness verdicts are correct',
 'The completeness check reports a roadmap complete only if every query along the path has a solution within the tolerance.',
 ['inputs'],'all roadmaps and tolerances','Continuum of queries.',[ENV],[('coverage check','StraightLine.is_prm_epsilon_delta_complete')])
p('N03','Approximate neighbour lists contain the true nearest neighbours',
 'The neighbour back ends find the true k nearest neighbours often enough for the roadmap guarantees to carry over.',
 ['inputs'],'all data sets','Property of third-party randomised algorithms.',[ANN],[('back ends','KGraphANN, PyNNDescentANN')])
p('N04','Roadmaps of the computed size succeed with the promised probability',
 'A roadmap with the computed number of samples and connection radius contains a near-optimal path with at least the requested probability.',
 ['inputs'],'all environments of the given clearance','A mathematical theorem plus sampling randomness.',[BND,PRM],[('bound','compute_numerical_bound')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for r in P: f.write(json.dumps(r)+'\n')
print(len(P))
