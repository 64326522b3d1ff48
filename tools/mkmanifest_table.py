HIST = 'exhaustive bounded exploration of action sequences on the real hydraulic and quality solvers (snapshot DFS), '
GRID = 'exhaustive enumeration of a bounded state grid and of action sequences on the real solver, '
T = {
 'P11': ('exhaustive enumeration of shapes x dimensions x depths on the real geometry kernels and on built models, independent cross-section reference as oracle', 'every shape, every dimension set and every depth of the grid, ends and interior, plus a whole-model pass'),
 'P12': ('exhaustive enumeration of storage tables x listing orders x depths on built models, closed-form integral of the curve as oracle', 'every table, order and depth of the grid, class level and inside stepped models'),
 'P13': (GRID + 'documented orifice law and its linearisation as oracle', 'every head pair x setting x orientation x coefficient of the grid and every setting sequence to the depth bound'),
 'P14': (GRID + 'documented weir law and its linearisation as oracle', 'every head pair x setting x coefficient of the grid and every setting sequence to the depth bound'),
 'P15': (GRID + 'documented pump law and its linearisation as oracle', 'every head pair x setting x curve of the grid and every setting sequence to the depth bound'),

 'P17': ('exhaustive exploration of rain/step-size/ponding sequences on the real classes (snapshot DFS), water balance, bounds and a one-step independent reference as oracle', 'all sequences of 10 actions to the depth bound, five soils at once, both classes'),
 'P18': ('exhaustive exploration of rain/step-size/ponding sequences on the real classes, Green-Ampt equation, step splitting and differential comparison over all subsets and orders of soils', 'all sequences to the depth bound; all orders of 2, 3 and 5 soils'),
 'P19': ('exhaustive exploration of step-size sequences through the real Simulation, lock-step with a plain model fed by reference-sampled series; sampling function enumerated over all small grids', 'all sequences to the depth bound x series subsets x methods x start times x renumbering'),
 'P20': ('exhaustive exploration of sequences of plain, subdivided and retried steps, lock-step with a model that takes only the accepted sub-steps', 'all sequences of 10 step calls to the depth bound'),
 'P21': ('exhaustive enumeration of step-size and error histories against the documented filter, and of real-step histories', 'all histories of the grid for every filter and limit set'),
 'P22': ('exhaustive exploration of stepping/recording sequences, delivered tables compared with independent copies', 'all sequences of 6 actions to the depth bound'),
 'P23': ('exhaustive exploration of (step, measurement) sequences, independent Kalman filter and conduit residuals as oracle', 'all sequences to the depth bound x measured subsets x noise levels x both filter forms'),
 'P29': (GRID + 'per-conduit reference grid as oracle, plus lock-step with each conduit alone', 'every sequence of water levels and repositioned subsets to the depth bound, every table order of one to three conduits, 2-6 elements, with and without end cells'),
 'P30': ('exhaustive exploration of call sequences on the real solver, lock-step with a twin that takes the written-out equivalent of each call', 'all sequences of 11-15 calls to the depth bound over 18 networks'),
 'P31': ('exhaustive exploration of action sequences, model with tabulated elements in lock-step with the generated model, and with one model per conduit', 'all sequences to the depth bound x every assignment of element counts and table directions in the catalogue'),

 'P16': ('exhaustive exploration of call sequences on the real classes, fingerprints of every object handed over and a twin whose caller overwrites them', 'all call sequences to the depth bound per class; all interleavings of two models over shared tables'),
 'P24': (HIST + 'per-element mass balance (upwind, diffusion, decay) as oracle', 'all sequences to the depth bound over 22 networks, two constituents, hydraulics and quality stepped together'),
 'P25': (HIST + 'uniform concentration as invariant', 'all sequences to the depth bound over 22 networks, with and without diffusion'),
 'P26': (HIST + 'range of what was there or came in as invariant', 'all sequences of 8 actions to the depth bound over 22 networks, five constituents with decay, diffusion and limits'),
 'P27': (HIST + 'superposition of a basis of sources, and a lone constituent in lock-step', 'all sequences to the depth bound over 22 networks with a unit source on every superjunction and boundary'),
 'P28': ('exhaustive exploration of interleaved hydraulic and quality calls, bitwise comparison with a twin without quality', 'all interleavings to the depth bound over 14 networks'),
 'P32': ('the same exhaustive exploration with compiled and with interpreted kernels, every state compared', 'all sequences to the depth bound over 49 hydraulic, 22 quality, 16 simulation and 2 infiltration scenes'),
 'P33': (HIST + 'an independent Kalman filter on the step\'s transition matrix (measured by perturbing the real model) in lock-step', 'all sequences of 4 hydraulic actions x (no measurement, several values) to the depth bound over 10 networks, observed superjunctions, noise levels'),
 'P34': ('exhaustive enumeration of omitted columns, parameters and arguments and of call sequences, twin model with the defaults written out in lock-step', 'every subset of optional columns x conduit directions on 7 networks, every subset of step arguments, water quality and simulation options, to the depth bound'),
 'P35': ('exhaustive exploration of action sequences on the real classes, twin model with every elevation (or the clock) shifted in lock-step', 'all sequences to the depth bound over the hydraulic, quality and simulation catalogues x datum shifts x start times'),
 'P36': ('exhaustive enumeration of renumberings, listings, turned conduits, solver options and joined networks, each explored over all input sequences in lock-step with the original', 'all permutations (quick: half) and all turned subsets over the quality catalogue x all sequences to the depth bound'),
 'P37': (HIST + 'the drawing of every path, plan and view compared with tables and state, and the model with itself before drawing', 'every state of all sequences to the depth bound over 13 networks, every path'),
 'P38': (HIST + 'systems, recurrences and means reported compared with the states of every transition', 'all sequences to the depth bound over the network catalogue'),
 'P39': (HIST + 'models that differ in the solution method inside conduits in lock-step', 'all sequences to the depth bound over the network catalogue, solver options and element counts'),
 'P40': ('explicit-state exploration of the simulation (stateless): all sequences of step, retry, restore and print calls, parsing what is written', 'all sequences to the depth bound over four kinds of period'),
 'P41': (HIST + 'recovering the inside of every conduit from both ends and in both directions at every state', 'all sequences to the depth bound over the water quality catalogue and four kinds of constituent'),
 'P42': ('exhaustive enumeration of complete argument grids of the stand-alone numerical routines, each result against its definition', 'all soils, brackets and starts, query points and filter systems of the stated grids'),
}
NA = {}
