"""Writes MANIFEST.json: one check per claimed property."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
def c(ids, technique, note):
    for i in ids.split():
        CLAIMED[i] = (technique, note)

c('B01 B02 B03 B04', 'value-graph extraction (abstract interpretation) and normal-form comparison with reference formulas',
  'Closed forms are extracted for all inputs; floating point is treated as real arithmetic, except where the rule forbids conversions.')
c('B05 B06', 'value-graph loop summaries with inferred loop invariants (inductive candidate formulas) and termination measures',
  'The bound function is an arbitrary function; floating-point rounding of brackets is abstracted to real arithmetic.')
c('E01', 'interprocedural provenance of generator objects (value-graph abstract interpretation) plus call-site scan of the syntax tree',
  'Covers the library environments and the polygon sampler; other packages draw from the generators they are given.')
c('E02 E03 E04 E05 E06 E07 E08', 'value-graph extraction (abstract interpretation) and normal-form comparison with reference formulas',
  'Holds for every dimension, size and input array; floating point is treated as real arithmetic.')
c('R01 R02 R03 R04 R05 R06 R07 R08 R09 R10 R11 R12 R13', 'interprocedural value-graph abstract interpretation of planner protocol scenarios; containment, ordering and equality obligations on extracted roadmap edges, samples and results',
  'Holds for every sampler, neighbor structure and configuration; third-party graph and neighbor libraries are modelled by their documented contracts.')
c('A01 A02', 'value-graph abstract interpretation of the back ends; index data, file positions and conversions compared with the documented library contracts',
  'The contents of a saved kgraph text file and the neighbour graph of pynndescent are modelled by their documented layout; recall is out of scope (N03).')
c('X04 X06', 'whole-program value-flow analysis (inclusion constraints over functions, classes, containers and constants) and call-signature checking',
  'Flows are over-approximated; a call or key is reported only when every value that can reach it is known and none fits.')
c('X05', 'value-graph abstract interpretation of the submission and tuning scripts, in each setting of their flags; command lines, generated script text, file paths and failure paths compared with what the runners read',
  'Set-up failures are those the handlers of the script name; the scheduler command is taken as given.')
c('X07', 'value-graph abstract interpretation of the search loop (loop-carried positions, query events and the settings in force at them) with an inductive obligation per move and per reported value',
  'Rows the trial itself flags as inconsistent (positions out of order) are excluded; the initial lower bound is the smallest setting and is never queried.')
c('X08', 'value-graph abstract interpretation of the trials with the planner\'s setters writing back to it: settings at each growth, the settings and end points of every query and the tolerance in closed form compared with the reference; linear reasoning over the rounded midpoint for the search',
  'The configured maximum is assumed to be what the planner constructor stores; numpy.unique and searchsorted by contract.')
c('X01 X02 X03', 'value-graph abstract interpretation of the experiment runners (trial, environment and planner calls left abstract); positions, list partitions, file paths, generator draws and result columns compared in normal form',
  'Holds for every task count, configuration and interruption point between trials; pandas and json are modelled by their documented contracts.')
c('T01', 'invariant analysis of the planning domains: guarded effects, delete relaxation (achievability fixpoint) and static-fact matching over every action of the domain and stream files',
  'Static facts are those no action changes; the planning engine itself is third party.')
c('E09', 'value-graph abstract interpretation of the constructor with the Gray code by contract: the list of cells as a closed form over sweep and position; distance to the walls for every choice of opened faces, compared with the reference minimum',
  'The Gray code of sympy is taken by contract; the distance to the walls is decided for 2 and 3 dimensions (thorough: 4), the corridor for all.')
c('E10', 'value-graph abstract interpretation with arrays of known shape folded element by element: rings of given sizes at symbolic corners, geometry library by contract over which ring encloses which; vertices, segments and markers handed to the triangulation compared as sets with the rings',
  'Ten shapes of polygons and multipolygons (nesting included) with corners at any position; the triangulation library itself is not analysed (N01).')
c('E11', 'value-graph abstract interpretation of one step of the walk: cell and position before and after as terms of any cell and position, graph library by contract (the next and the previous cell, which of the two ends lies ahead), distance to the walls uninterpreted; refusal and acceptance compared with the reference by sign cases', 'The number of steps of the walk is not bounded; numbers are reals, and a line parallel to an opening counts as never meeting it.')
c('T02', 'value-graph abstract interpretation of problem construction and of every stream implementation on symbolic inputs, matched against the parsed domain and stream declarations; inferred kinds of values per predicate place',
  'The planning stack and the simulator are modelled by their documented interfaces.')
c('T03', 'value-graph abstract interpretation of the motion streams (dominating checks, loop-carried sample budgets, returned paths as piecewise lists) compared with reference formulas',
  'The roadmap, the joint-space planner, inverse kinematics and the simulator are taken by contract; the collision test itself is not part of this property.')
c('T05', 'value-graph abstract interpretation of both overlap tests on symbolic vertices and boxes; the verdict, a conjunction of comparisons of projection extremes, is matched literal by literal (up to positive scale and reflection of the axis) with the axes of the separating-axis theorem',
  'Polygons are decided for 3 to 5 vertices (thorough: to 7), boxes in general; exact arithmetic; convexity of the polygons is assumed.')
c('T04', 'reading of the shell scripts and value-graph abstract interpretation of the launchers and of the programs up to the scene and the problem; command lines compared with the declared options',
  'Shell constructs beyond assignments, loops over words, branches and simple commands are left open; the options of the parser of pddlstream are taken by contract.')
c('T06', 'value-graph abstract interpretation of post-processing on symbolic plans over the parsed domain actions, and of refinement and playback on symbolic commands; emitted sequences compared with those the domain declares',
  'Plans are analysed for every pair (thorough: triple) of actions of the arm world and pick/place rounds of the mobile world, with symbolic arguments and path lengths; the simulator is taken by contract.')
c('T07', 'value-graph abstract interpretation of the validity tests: the verdict as a quantified formula over obstacles and positions, compared with the reference positions; spacing decided by linear consistency',
  'The overlap test (T05), convex hulls, pose interpolation and the simulator are taken by contract.')
c('T08', 'value-graph abstract interpretation of the scene builders with bodies as tokens: boxes with their symbolic sizes and final poses, facts about the scene decided by linear consistency over them',
  'The simulator is taken by contract (a box is the size and at the pose it is given); walls are matched with axis-aligned boxes.')
c('T09', 'value-graph abstract interpretation with the simulator as a state machine of contracts: every collision test is tagged with the last call that moved something, and the guard of each yield, return and next placement must imply found and clear',
  'The simulator and inverse kinematics are taken by contract (what they return is right for the state they are called in); retry loops are decided by their exit condition, not for termination.')
c('T10', 'value-graph abstract interpretation of the environments: bounds and samples compared by normal form with extrema over all corners of a symbolic list of boxes; outlines as guarded lists over symbolic and given corners; linear coefficients of the clearance handed to the bound',
  'Corners and boxes of the simulator are taken by contract; the eight-corner outline is decided for given shapes and orders of corners, the general one for five corners at symbolic positions.')
c('T11', 'value-graph abstract interpretation of grasps, commands and the collision test: grasps composed as quarter turns and linear translations and compared by normal form; commands over lists of symbolic length; the hit condition compared with its quantified reference, each contact indexed by what placed the bodies last',
  'The simulator is taken by contract; commands of two paths (each of any length) and one attachment are followed.')
NA = {
 'N01': 'That the triangles cover exactly the area enclosed by the boundary they are given rests on the third-party triangulation; no static fact about this source decides it (what the triangulation is handed is E10, the draw from it E07).',
 'N02': 'Soundness over a continuum of queries is a geometric argument about runtime geometry objects (shapely unions); no static argument in reach bounds it.',
 'N03': 'Depends on the recall of third-party randomised algorithms, which no analysis of this source bounds.',
 'N04': 'The promise is a theorem about sampling together with runtime randomness; the formulas it rests on are claimed separately (B01-B06).',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not claimed: the analysis for it is not built.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
