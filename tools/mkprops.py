"""writes properties.jsonl (kept as code so the list stays readable)"""
import json, os
P = []
SIM, FL, WE, RE, PV, PG = ('src/simulator/%s.py' % x for x in ('simulation', 'fluid', 'well', 'reservoir', 'pvt', 'pvt_generator'))
CA, PA, RL, UT, VT, PL, MA = 'src/solver/classical_amg.py', 'src/solver/pressure_amg.py', 'src/rl_env.py', 'src/utils.py', 'src/output/vtk_writer.py', 'src/plotting/plotter.py', 'src/main.py'


def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


I, C, H = 'inputs', 'configurations', 'histories'
p('C01', 'Oil, water and gas saturations sum to one in every cell',
  'At initialisation and after every time step, successful or rolled back, the three phase saturations add up to exactly one in every cell: oil saturation is one minus water minus gas of the same state.',
  [I, C, H], 'every configuration, solver type, well mix and step history', 'tests look at a few 5x5 grids after one step; closure must survive every step, retry and rollback',
  [SIM, FL], [('oil saturation recomputed after the saturation update and after rollback', SIM + ':Simulator.run_step'), ('initial state', FL + ':Fluid.__init__')])
p('C02', 'Saturations stay inside the mobile range after every sequential step',
  'After every successful step of the sequential (IMPES) scheme, in every cell water saturation is not below connate water, gas saturation is not below critical gas, and oil saturation is not below residual oil, whatever the computed increments were. This holds whenever the three end points themselves leave room for one another.',
  [I, C, H], 'every state, rate, step length and number of substeps', 'the extreme increments that make clamps interact do not occur in the smoke tests',
  [SIM], [('substep clamps', SIM + ':Simulator._impes_saturation_step')])
p('C03', 'Flow between cells conserves every phase; outer boundaries are closed',
  'In the sequential scheme, before any limiting, the amount of water and of gas that leaves a cell through a face is exactly the amount that enters the neighbour across that face, for faces in all three directions, and nothing crosses the outer boundary. Summed over the grid, the water and the gas volume change of a step is therefore exactly what the wells inject or produce.',
  [I, C, H], 'every pressure, saturation and rock field, with gravity and gas-oil capillarity on or off', 'tests check a total with a loose tolerance on one configuration',
  [SIM], [('flux divergence', SIM + ':Simulator._impes_saturation_step')])
p('C04', 'The pressure system is a symmetric seven-point conservative balance',
  'The matrix of the sequential pressure equation is symmetric, couples a cell only with its (up to six) direct neighbours, and its diagonal entry equals minus the sum of the off-diagonal entries of the row plus the accumulation coefficient plus the productivity of pressure-controlled wells in that cell. The coupling of two neighbours is minus the geometric transmissibility of their common face times a total mobility taken from one of the two cells, the one with the higher pressure.',
  [I, C], 'every grid size, rock field, mobility field and time step', 'needs all entries of all matrices, not one solved field',
  [SIM], [('matrix assembly', SIM + ':Simulator._impes_pressure_step')])
p('C05', 'Matrix and right-hand side use the same accumulation coefficient',
  'The accumulation coefficient on the diagonal of the pressure system is pore volume times total compressibility over the time step, and the right-hand side contains exactly that coefficient times the pressure at the start of the step. A closed reservoir with uniform pressure, no wells and no gravity therefore keeps its pressure.',
  [I, C], 'every pressure, saturation, PVT and compressibility input', 'a mismatch only shows as slow drift',
  [SIM, FL], [('accumulation on the diagonal and right-hand side', SIM + ':Simulator._impes_pressure_step')])
p('C06', "Phase fluxes follow Darcy's law, upstream weighted by the phase's own potential",
  "In the sequential saturation update the flux of water and of gas across a face is the geometric transmissibility of the face times the mobility of that same phase times that phase's potential difference (pressure difference at the new pressure, plus density times gravity times cell height in the vertical with the phase's own average density, plus the gas-oil capillary pressure for gas when configured). The mobility is that of the cell from which that potential drives the phase.",
  [I, C, H], 'every field and grid, with gravity and capillary pressure on or off', 'wrong upwinding shows only in rare sign combinations',
  [SIM], [('phase fluxes', SIM + ':Simulator._impes_saturation_step')])
p('C07', 'Face transmissibility is the harmonic mean times area over distance',
  'The geometric transmissibility of a face is the harmonic mean of the two adjacent permeabilities in the direction normal to the face, times the face area, divided by the cell length in that direction; any guard against division by zero is negligible for permeabilities down to a microdarcy. Horizontal directions use the horizontal permeability and the vertical one uses horizontal permeability times the vertical fraction.',
  [I, C], 'every permeability field and cell size', 'tests use cubic cells and uniform permeability',
  [SIM, RE], [('transmissibilities', SIM + ':Simulator.__init__'), ('permeability tensors', RE + ':Reservoir.__init__')])
p('C08', 'Configuration units are converted to SI exactly once',
  'Configured pressure (MPa), viscosity (cP), compressibility (1/MPa), permeability (mD) and well rates (m3/day) and bottom-hole pressures (MPa) reach the equations in SI units: factors 1e6, 1e-3, 1e-6, 9.869233e-16, 1/86400 and 1e6, each applied once. Tabulated viscosities (cP) and pressures (MPa) are converted with the same factors, and configured days are turned into seconds with 86400.',
  [I, C], 'every configured value', 'tests compare runs with each other, not with units',
  [FL, RE, SIM, RL], [('conversions', FL + ':Fluid.__init__'), ('rates', SIM + ':Simulator._impes_saturation_step')])
p('C09', 'Wells add or remove the right phases with the right sign in their own cell',
  'In the saturation update a well changes the balance of its own cell only. A water injector adds only water and a gas injector only gas; a producer removes water and gas in proportion to their share of the total mobility in its cell. A reservoir-volume rate well moves at most its configured rate (times the global rate scale), never in the opposite direction.',
  [I, C, H], 'every well type, control mode, phase, position and cell state', 'tests run one or two wells in fixed positions',
  [SIM, WE], [('well sources', SIM + ':Simulator._impes_saturation_step')])
p('C10', 'Surface rates are converted with the formation volume factors at the well cell',
  'With PVT tables, a surface-controlled injector injects its surface rate times the gas or water formation volume factor at its cell. A surface-controlled producer withdraws the reservoir rate whose surface equivalent in the controlled phase (oil: oil plus vaporised oil; gas: free plus dissolved gas; water; liquid: oil plus water) is the configured rate, using mobility shares and PVT values at the new pressure in its cell.',
  [I, C, H], 'every PVT table, cell state, controlled phase', 'tests check single formulas on one PVT file',
  [SIM], [('conversion', SIM + ':Simulator._impes_saturation_step')])
p('C11', 'Availability choking and surface-rate limits cap what a well moves',
  'Every rate-controlled injector, and with PVT tables every rate-controlled producer, is choked by the largest factor between zero and one for which its own contribution does not push water or gas of its cell outside the mobile range in one step; a phase it does not move does not choke it. With PVT tables a rate-controlled producer finally withdraws no more than the smallest reservoir rate allowed by its oil, water, gas and liquid surface limits, each compared with its own phase equivalent, after choking.',
  [I, C, H], 'every limit combination, well type and cell state', 'one limit kind is exercised by one test',
  [SIM], [('choke and limits', SIM + ':Simulator._impes_saturation_step')])
p('C12', 'The component balance books every well once, at the rate actually applied',
  'With PVT tables, one step adds to the produced (injected) oil and gas component totals exactly the surface equivalent, including dissolved gas and vaporised oil, of the reservoir volumes which that step\'s saturation update withdraws from (injects into) the well cells during the step, each well once; totals of produced components come from producers only and of injected components from injectors only, and a well flowing backwards books nothing. The reported accumulation is in minus out.',
  [I, C, H], 'every well mix, PVT table and step', 'the only test compares in minus out with a field defined as in minus out',
  [SIM], [('component balance', SIM + ':Simulator._impes_saturation_step')])
p('C13', 'The mass balance books exactly the change of phase mass in place',
  'For each phase, in minus out added by a sequential step equals the summed change of saturation over that step times pore volume times the current density of that same phase; in and out each only grow. Oil change is minus the water and gas changes.',
  [I, C, H], 'every step and state', 'tests check finiteness or one sum',
  [SIM], [('mass balance', SIM + ':Simulator._impes_saturation_step')])
p('C14', 'A step succeeds exactly when it converged; a failed step changes nothing',
  'A time step reports success only if it converged: in the sequential scheme the pressure solver reported convergence in the accepted attempt, in the fully implicit scheme the residual norm is below twenty times the Newton tolerance. Otherwise it reports failure. After a failed step pressure and saturations are those from before the step; in the sequential scheme the balances are unchanged too.',
  [H, C, 'fault_sequences'], 'every pattern of converging and non-converging attempts, both schemes', 'tests never make a solver fail',
  [SIM], [('step drivers', SIM + ':Simulator.run_step')])
p('C15', 'A run takes the configured steps, stops at failure and shows current fields',
  'A run takes total time over step length steps of the configured length, and stops advancing as soon as a step finally fails; a successful step covers the whole configured length. When the save interval is shorter than the run, intermediate pictures are written at every multiple of the save interval and show the fields at that moment.',
  [C, H], 'every configuration, including those where a step fails', 'no test calls the run driver',
  [SIM], [('run driver', SIM + ':Simulator.run')])
p('C16', 'The conjugate gradient solver reports convergence only below its tolerance',
  'The pressure solver reports convergence only when the preconditioned norm of the residual it maintains is below the tolerance it was given, and reports non-convergence when the iteration limit is reached. The residual it maintains belongs to the returned solution: every update of the solution is matched by the corresponding update of the residual, starting from the right-hand side minus matrix times start vector.',
  [I], 'every matrix, right-hand side, tolerance and iteration limit', 'tests solve well-conditioned systems only',
  [SIM], [('CG loop', SIM + ':Simulator._solve_pressure_cg_pytorch')])
p('C17', 'A reused multigrid hierarchy solves with the matrix of the current call',
  'When the algebraic multigrid solver is called repeatedly, every call solves with the matrix, right-hand side, tolerance and cycle limit passed in that call: a hierarchy kept from an earlier call is refreshed on every level, including diagonals and scaling, before it is used. Hierarchies are shared only between calls that agree in size, strength threshold, level limit, coarsest size and device.',
  [H, I], 'every sequence of matrices and parameters', 'tests build each hierarchy once',
  [PA, CA], [('hierarchy cache', PA + ':amg_solve'), ('refresh', CA + ':ClassicalAMG.update_matrix')])
p('C18', 'Multigrid scaling is undone consistently',
  'When the multigrid solver works on a symmetrically scaled matrix, right-hand side and start vector are scaled and the solution is unscaled so that the returned vector solves the original system. The convergence test compares the residual of the current iterate, relative to the right-hand side, with the given tolerance.',
  [I], 'every matrix, scaled or not, with or without start vector', 'a scaling slip changes the answer only for badly scaled matrices',
  [CA], [('solve/apply', CA + ':ClassicalAMG.solve')])
p('C19', 'Coarse operators are Galerkin products of the same transfer operators',
  'Each coarse matrix is the product restriction, fine matrix, prolongation, where restriction is the transpose of the prolongation, and the cycle restricts residuals and interpolates corrections with the very same operators, both when the hierarchy is built and when it is refreshed. Corrections are added to the iterate of the level they belong to.',
  [I, H], 'every hierarchy and refresh', 'convergence of one Laplacian does not show which product was formed',
  [CA], [('setup, refresh and V-cycle', CA + ':ClassicalAMG')])
p('C20', 'Solvers leave their inputs alone and saved states are independent copies',
  'Solving a pressure system does not modify the matrix, right-hand side, preconditioner or start vector that were passed in. Previous-step states kept by the fluid and states kept for rollback are copies which later updates of the current state cannot change.',
  [I, H], 'every call and step sequence', 'aliasing shows only after later in-place updates',
  [SIM, CA, PA], [('clones', SIM + ':Simulator.run_step')])
p('C21', 'Simulation results do not depend on global random state',
  'Simulation, PVT generation, plotting of data and both pressure solvers draw no numbers from a global or time-seeded random generator and let no clock reading into their results, so equal inputs give equal results whatever ran before.',
  [H, I], 'every run and preceding history', 'a repeated test in a fresh process hides it',
  [CA, PA, SIM], [('seeded generators', CA + ':classical_coarsening')])
p('C22', 'PVT tables are read by column, interpolated linearly and held constant outside',
  'Each property requested from a PVT table comes from its own column, interpolated linearly over the table pressures and held at the end values outside. Tables whose columns differ in length from the pressure column or whose pressures do not strictly increase are rejected; a missing vaporised-oil column means zero.',
  [I], 'every table and pressure', 'tests load one good file',
  [PV, FL], [('table', PV + ':PVTTable')])
p('C23', 'The PVT generator writes what the PVT loader reads',
  'The generated table contains every column the loader reads, under the same names, one value per pressure, and with the units the loader expects. Command-line options reach the parameters of the same meaning.',
  [I, C], 'every generator option', 'no test runs the generator',
  [PG, PV], [('generator', PG + ':generate_black_oil_pvt'), ('loader', PV + ':PVTTable')])
p('C24', 'Phase densities and viscosities follow one law everywhere',
  'With PVT tables, water density is surface density over its formation volume factor, oil density adds dissolved gas and gas density adds vaporised oil; without tables density is surface density times one plus compressibility times pressure above 0.1 MPa. The current-state properties and the functions of pressure agree for every phase.',
  [I, C], 'every pressure, with and without tables', 'one phase is tested at one state',
  [FL], [('densities', FL + ':Fluid')])
p('C25', 'Relative permeabilities are Corey/Stone curves within bounds',
  'Water and oil relative permeability depend on the water saturation normalised between connate water and residual oil and clamped to zero and one, raised to their exponents; gas relative permeability is the gas saturation over the mobile range, clamped, raised to its exponent. The three-phase oil option is the sum of the two two-phase oil curves less the smaller of their end points, and never negative.',
  [I, C], 'every saturation and end-point set', 'tests sample a few saturations',
  [FL], [('curves', FL + ':Fluid.get_rel_perms')])
p('C26', 'Every derivative function is the derivative of its own curve',
  'Inside the mobile range, the functions that return derivatives of relative permeability and capillary pressure return exactly the derivative of the curve the corresponding function returns, with respect to the same saturation, and zero where the curve is held constant.',
  [I, C], 'every saturation, exponent and end-point set', 'no test compares curves and derivatives',
  [FL], [('derivatives', FL + ':Fluid.get_rel_perms_derivatives')])
p('C27', 'No reachable code path uses an undefined name, attribute or call signature',
  'On every path of the simulator, the solvers, the exporters, the environment and the command line, each name is assigned before it is used, each name imported from another project module exists there, each attribute of a project object exists on its class, and each project function is called with arguments its signature accepts and unpacked into as many values as it returns.',
  ['programs', C], 'every path of every function', 'tests run one scheme and few options',
  [SIM, FL, WE, RE, CA, PA, RL, VT, MA], [('whole program', 'src')])
p('C28', 'Every documented solver and fluid setting reaches the computation it names',
  'Settings given in the configuration are the values the computation uses: number of step attempts and step reduction factor (defaults 5 and 2), tolerance and iteration limit of the pressure solve (1e-6, 500; a repeated solve scales with both), limits on substeps and on the saturation change per substep (20, 0.05: no substep changes a saturation more unless the substep limit is reached), global rate scale (well rates proportional to it), Newton iterations, tolerance, damping and regularisation (20, 1e-3, 0.7, 1e-7), multigrid tolerance, cycles, strength threshold, levels, coarsest size and device (solver tolerance, 20, 0.25, 10, 200, auto), run length, step, save interval and frame rate (100, 1, 10, 5), compressed and full array files (on, off), scale and exponent of both capillary curves (0, 1.5), fluid, relative-permeability and reservoir properties. Defaults apply exactly when a setting is absent. The command line builds each object from its own section of one file and runs with the configured output name and picture switch.',
  [C], 'every setting and value', 'tests use defaults almost everywhere',
  [SIM, FL], [('parameter lookups', SIM + ':Simulator')])
p('C29', 'The learning environment resets completely and reports what the simulator did',
  'Resetting the environment rebuilds reservoir, wells, fluid and simulator from the configuration exactly as construction does and restarts the step count and the production reference. A step applies each action to its own well (rates by up to a fifth, bottom-hole pressures by up to 5 MPa), advances one configured time step, and returns the scaled pressure and water saturation of the new state and the oil mass produced in that step as reward; a failed step ends the episode with the penalty.',
  [H, C], 'every action sequence and configuration', 'no test covers the environment',
  [RL], [('environment', RL + ':ReservoirEnv')])
p('C30', 'Exported results are the final fields under their own names and units',
  'The compressed result file holds final pressure, water, gas and oil saturation under those names; the summary text gives minimum, maximum and mean of the named field (pressure in MPa) and in, out and net of the named phase. The cell export (save_to_vtk) holds each field under its name with the cells in the order of the exported grid and node coordinates spaced by the cell sizes; the point export of a run lists the points in the order of its values, first coordinate fastest. Pictures show the field named in their title, with x along the axis labelled x.',
  [H, C], 'every run', 'no test reads the exports',
  [SIM, VT], [('writers', SIM + ':Simulator.run'), ('VTK', VT + ':save_to_vtk')])
p('C31', 'Pressure-controlled wells act identically in pressure and saturation equations',
  'A pressure-controlled well enters the pressure system as well index times total mobility on the diagonal and the same factor times its bottom-hole pressure on the right-hand side, at its own cell, and the saturation update moves well index times total mobility times the difference of new cell pressure and bottom-hole pressure. A rate producer whose required bottom-hole pressure falls below its minimum is treated as a pressure-controlled well at that minimum in both equations.',
  [I, C, H], 'every pressure-controlled or limited well and state', 'one test with a loose inequality',
  [SIM, WE], [('well terms', SIM + ':Simulator._calculate_well_terms')])
p('C32', 'Cell numbering is the same everywhere and wells lie inside the grid',
  'Every conversion between grid coordinates and the flat number of a cell uses the order of the flattened fields (last coordinate fastest), and the conversions are inverse to one another. A well whose coordinates lie outside the grid is rejected when it is created, and both coordinate notations place it in the same cell.',
  [I, C], 'every non-cubic grid and well position', 'tests use square grids, where a transposed order is invisible',
  [SIM, WE, RE], [('numbering', SIM + ':Simulator._ijk_to_idx'), ('wells', WE + ':WellManager.__init__')])
p('C33', 'Gravity and capillary terms of the pressure equation conserve volume',
  'The gravity and capillary contributions to the right-hand side of the pressure equation move volume between neighbouring cells only: what is added to one cell is taken from its neighbour. The gravity contribution of a vertical face is transmissibility times cell height times gravity times the sum over phases of mobility times density, directed so that pressure increasing downward by the weight of the fluid gives no flow.',
  [I, C, H], 'every field with gravity or capillary pressure', 'tests compare no gravity equilibrium',
  [SIM], [('right-hand side', SIM + ':Simulator._build_pressure_rhs')])
p('C34', 'Animation frames appear in numerical step order',
  'Animations contain every saved picture that carries a step number, exactly once, in increasing numerical order of the step, at the configured frame rate; the final picture, if any, comes last.',
  [H], 'every set of file names', 'order breaks only from step 10 or 100 on',
  [UT, SIM], [('frame collection', UT + ':create_animation')])
p('C35', 'Total compressibility is the saturation-weighted sum of PVT slopes plus rock',
  'With PVT tables total compressibility is rock compressibility plus, for each phase, its saturation times minus the relative slope of its own formation volume factor with pressure in 1/Pa, by a centred difference over 0.1 MPa to both sides. Without tables the constant computed at construction is used. The pressure equation uses this compressibility at the start of the step.',
  [I, C], 'every state and table', 'no test computes it',
  [FL], [('compressibility', FL + ':Fluid.calc_total_compressibility')])
p('C36', 'Contributions of several wells add up independently',
  'Each well contributes to the equations and balances what it would contribute alone: several wells, in one cell or in different ones, in any order, add their contributions.',
  [C, I], 'every number, order and position of wells', 'tests never put two wells in a cell',
  [SIM], [('accumulating updates', SIM + ':Simulator._impes_saturation_step')])
p('C37', 'A rate well moves the same volume in pressure and saturation equations',
  'The reservoir volume rate a rate-controlled well adds to the pressure equation is the one the saturation update then applies.',
  [I, C, H], 'every rate well', 'tests look at one equation at a time',
  [SIM], [('rates', SIM + ':Simulator._calculate_well_terms')])
p('C38', 'The well index is the Peaceman productivity of the well cell in SI units',
  'The well index of a well is two pi times permeability times cell height over the logarithm of equivalent to well radius, with the permeability and dimensions of its own cell, in SI units, and is positive.',
  [I, C], 'every rock and grid', 'tests use rate control',
  [WE], [('well index', WE + ':Well.__init__')])
p('C39', 'The pressure solvers reach the requested accuracy',
  'For every pressure system the simulator can assemble, the chosen pressure solver returns a solution whose true residual is below the configured tolerance within the configured number of iterations.',
  [I, C], 'every assembled system', 'a few small systems are solved',
  [SIM, CA], [('solvers', CA + ':ClassicalAMG.solve')])
p('C40', 'Simulated fields converge to the continuous solution under refinement',
  'Refining the grid and the time step makes pressure and saturation fields converge to the solution of the black-oil flow equations.',
  [I, C], 'every refinement sequence', 'no refinement is run',
  [SIM], [('discretisation', SIM + ':Simulator')])
p('C41', 'Accelerator and processor runs agree to rounding',
  'The same configuration gives the same results on every supported device and floating-point setting, up to rounding.',
  [C], 'every device and precision', 'tests run on the CPU only',
  [SIM, CA], [('device handling', SIM + ':Simulator')])
p('C42', 'The fully implicit scheme solves the same flow equations as the sequential one',
  'The converged state of a fully implicit step satisfies the same discrete mass balances of water and oil, with upstream-weighted Darcy fluxes and the same well terms, as the sequential scheme.',
  [I, C], 'every state', 'no test runs the fully implicit scheme',
  [SIM], [('assembly', SIM + ':Simulator._assemble_residual_and_jacobian_batch')])
p('C43', 'Fully implicit steps stay inside the limits and change bounded amounts',
  'Whatever the linear solves return, every state a fully implicit step can leave is, for water saturation and pressure in every cell, the one before the step or inside the limits: water between connate water and one minus residual oil, pressure between 0.1 and 100 MPa. One Newton iteration changes the water saturation of a cell by at most 0.1 and its pressure by at most ten per cent and at most 2 MPa, if the state it starts from is inside the limits.',
  [I, C, H], 'every matrix and solver result, number of iterations and line search outcome', 'no stable test runs the fully implicit scheme, and the limits matter for extreme Newton updates only',
  [SIM], [('bounded update', SIM + ':Simulator._apply_newton_step'), ('Newton loop and rollback', SIM + ':Simulator._fully_implicit_newton_step')])
p('C44', 'The fully implicit residual is a conservative balance, the same in line search',
  'In the residual of the fully implicit scheme what a face adds to the balance of one cell it takes from the balance of the neighbour, for water and for oil and in all three directions; a face connects a cell with its direct neighbour, and the flux of a phase is the time step times the geometric transmissibility (harmonic mean permeability times area over distance) times the mobility of the phase in one of the two cells times the difference of its potential (pressure, capillary pressure for water, and the weight of the phase for vertical faces); every well contributes to the balance of its own cell only; and the accumulation of a cell is the mass of the phase now (pore volume times saturation times density at the current pressure) minus the mass before the step. The residual the line search evaluates is entry by entry the residual of the Newton system at the same state. After a successful step the state stored as previous (pressure and water saturation) is the state the step reached.',
  [I, C, H], 'every grid, state and well of the four kinds (producer or injector, rate or pressure control)', 'no stable test runs the fully implicit scheme',
  [SIM], [('Newton residual', SIM + ':Simulator._assemble_residual_and_jacobian_batch'), ('line search residual', SIM + ':Simulator._compute_residual_fast'), ('wells', SIM + ':Simulator._add_wells_to_system')])
p('C45', 'The Newton matrix is the derivative of the fully implicit residual',
  'With the Corey relative permeability model, every entry of the matrix of the fully implicit Newton system is the derivative of the residual of its row by the pressure or water saturation of its column, including capillary pressure and wells, to first order in the fluid compressibilities. Set apart are, by design of the code, the rock compressibility and the dependence of the densities in the gravity term on pressure. The regularisation reaches the diagonal only, and every solver branch solves that system with minus the residual.',
  [I, C], 'every grid, state, entry of the matrix and well of the four kinds', 'a wrong entry slows or breaks convergence without changing any result a test looks at',
  [SIM, FL], [('assembly', SIM + ':Simulator._assemble_residual_and_jacobian_batch'), ('wells', SIM + ':Simulator._add_wells_to_system'), ('derivatives', FL + ':Fluid.calc_dpc_dsw')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
