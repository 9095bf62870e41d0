PROPS = []
NOT_CLAIMED = []

def P(id, title, statement, over, q, why, files, mech, obs, tech, note, level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, obs=obs, tech=tech, note=note, level=level))

SEEN = "Held on the executions generated from the seed; says nothing about inputs the generators cannot produce. "

P("C01", "Equation strings mean what they say",
  "For every model written as equation strings, the right hand side the program computes for each field equals the written expression evaluated on the grid: signs, scalar factors and their powers, powers of the Laplacian, products and powers of fields, registered functions and constants, whatever the names, spacing or order in which parts are added. Names that contain each other are never confused, and an equation for which a name is undefined is refused loudly.",
  ["inputs", "configurations", "programs"],
  "every system of equations in the documented syntax, every grid, every set of names and every order of adding fields, scalars, functions and equations",
  "The tests evaluate a handful of fixed equations with well separated names; they cannot range over the syntax, name collisions, orders and grids.",
  ["pf/model.go", "pf/rhsBuilder.go", "pf/util.go", "pf/diffOp.go"],
  [("Build", "pf/rhsBuilder.go: turns a string into terms"), ("ConcreteTerm", "pf/rhsBuilder.go"), ("Model.AddEquation / Init / GetRHS", "pf/model.go")],
  ["complete right hand side (explicit part plus implicit factor times field) of every equation, in real space"],
  "reference-model monitor over generated equation systems",
  SEEN + "Oracle: an independent evaluator of the generated syntax tree with its own DFT. Powers up to 4, products up to 4 factors, up to 3 fields.")

P("C02", "The Euler stepper advances by exactly one semi-implicit Euler step",
  "Each time step of the default stepper maps the fields y at time t to (y + dt N(t,y))/(1 - dt A), mode by mode, where A is the linear part and all equations and time dependent terms see the state and the time at the start of the step. The clock advances by dt per step, the error is first order in dt, and pure linear decay is monotone for any dt.",
  ["inputs", "configurations", "histories"],
  "all coupled systems, initial fields, grids, step sizes, source schedules, filters and numbers of steps",
  "The tests run single equations on one grid and compare with loose tolerances; coupling between equations, evaluation times and grids are not sampled.",
  ["pf/euler.go", "pf/solver.go", "pf/model.go", "pf/sourceTerm.go"],
  [("Euler.Step", "pf/euler.go"), ("Solver.Propagate / Step", "pf/solver.go")],
  ["all Fourier amplitudes before and after every step", "times at which sources are evaluated", "clock"],
  "step-by-step refinement monitor against the documented update formula",
  SEEN + "Relative tolerance about 1e-9 per step; oracle evaluates N and A from the generated syntax tree.")

P("C03", "The Runge-Kutta stepper performs the documented fourth-order step",
  "Each Runge-Kutta step combines four stages evaluated at t, t+dt/2, t+dt/2 and t+dt with the documented semi-implicit treatment of linear terms, for all fields of a coupled system simultaneously. Without implicit terms the observed order of convergence is four.",
  ["inputs", "configurations", "histories"],
  "all coupled systems, initial fields, grids, step sizes, source schedules, filters and numbers of steps",
  "The tests integrate one scalar-like problem; wrong stage times, stage coupling or multi-field errors are invisible to them.",
  ["pf/rk4.go", "pf/solver.go", "pf/model.go"],
  [("RK4.Step", "pf/rk4.go")],
  ["all Fourier amplitudes before and after every step", "times at which sources are evaluated"],
  "step-by-step refinement monitor against the documented update formula",
  SEEN + "Relative tolerance about 1e-9 per step.")

P("C04", "The fully implicit stepper solves its own update equation",
  "After every step of the implicit stepper that reports no convergence problem, the fields satisfy the exponentially weighted implicit update equation (linear part integrated exactly, remaining part interpolated between both ends of the step, with every time dependent term taken at the time of its end) to solver tolerance. Linear problems are exact for every step size, nonlinear ones converge with second order.",
  ["inputs", "configurations", "histories"],
  "all coupled systems, initial fields, grids, step sizes from tiny to large, and numbers of steps",
  "The tests run one or two problems with one step size; small linear factors, coupling and non-convergence are not sampled.",
  ["pf/implicitEuler.go", "pf/solver.go"],
  [("ImplicitEuler.Step", "pf/implicitEuler.go"), ("nonlinear solve", "pf/implicitEuler.go (gononlin Newton-Krylov)")],
  ["fields before and after every step", "warnings printed by the stepper"],
  "residual monitor on every observed step",
  SEEN + "Steps for which the library itself reports non-convergence are not judged; they are counted.")

P("C05", "The saddle-point search follows its dimer equations",
  "Every step of the shrinking-dimer search moves the dimer centre along the reflected force, rotates the orientation with the projected torque and keeps it of unit length over all fields together, and shrinks the dimer to its minimum length without passing it. On double wells it converges to the saddle, and it publishes the force and torque it really used; a missing orientation is refused.",
  ["inputs", "configurations", "histories"],
  "all models, initial fields and orientations, grids, step sizes and numbers of steps",
  "The tests watch one small model from one start; reflection over several fields, lengths and published values are not observed.",
  ["pf/sdd.go"],
  [("SDD.Step", "pf/sdd.go")],
  ["fields, orientation, dimer length and published monitor values before and after every step"],
  "residual monitor on every observed step",
  SEEN + "The linear part is judged for the symmetric dimer (the default) only.")

P("C06", "The solver drives terms, callbacks and monitors in a fixed protocol",
  "Each step notifies every registered term exactly once, with the new time and new field values, and each epoch ends by calling every callback once, in order of registration, with the correct epoch number, and then updating monitors. The time equals (number of steps)*dt across any sequence of solve calls, restarts at a given epoch keep counting from there, and misuse is refused.",
  ["histories", "configurations"],
  "all sequences of solve calls with any numbers of epochs, steps, callbacks, terms and monitors, and every stepper",
  "The tests check one callback in one run; ordering, counts and epoch numbering over histories are not observed.",
  ["pf/solver.go", "pf/model.go", "pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/monitor.go"],
  [("Solver.Solve / Propagate", "pf/solver.go"), ("OnStepFinished notifications", "pf/model.go, pf/userDefinedTerm.go")],
  ["one trace of stepper, term, callback and monitor events"],
  "online trace checker against a protocol specification",
  SEEN + "Events are recorded by spies registered through the public interface.")

P("C07", "Conserved quantities stay conserved",
  "Whenever every term of a field's equation is a divergence (Laplacian powers of anything, variable diffusivity, conservative noise, spectral viscosity, advection by a uniform velocity), the average of that field stays constant in time to rounding, with every stepper and filter. With point sources the total changes by exactly the accumulated source strength.",
  ["inputs", "configurations", "histories"],
  "all equations in divergence form, coupled to anything, initial fields, grids, steppers, filters, source schedules and numbers of steps",
  "The tests check the average for a couple of fixed set-ups and a few steps.",
  ["pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/diffOp.go", "pf/noise.go", "pf/sourceTerm.go", "pf/advection.go", "pf/spectralViscosity.go", "pf/rhsBuilder.go"],
  [("zero-frequency mode of Laplacian and divergence", "pf/rhsBuilder.go, pf/diffOp.go"), ("ConservativeNoise", "pf/noise.go")],
  ["average of every conserved field after every step"],
  "conservation monitor on every observed step",
  SEEN + "Drift tolerance 1e-11 of the field size per step.")

P("C08", "User-registered terms enter the equations exactly as registered",
  "A registered explicit, implicit or mixed term contributes its own value - with the sign, equations and Laplacian prefix it is used with - on top of the written terms, sees the present time and present fields, and changes to scalars and functions are seen by the next step. Right hand side modifiers apply to their own field only, and registering a term as implicit that depends on a field is refused.",
  ["inputs", "configurations", "programs"],
  "all combinations of registered terms, signs, prefixes, equations, modifiers, derived fields and grids",
  "The tests register one term in one equation; combinations, sharing between equations and times are not sampled.",
  ["pf/model.go", "pf/rhsBuilder.go", "pf/userDefinedTerm.go"],
  [("RegisterExplicitTerm / RegisterImplicitTerm / RegisterMixedTerm", "pf/model.go"), ("RegisterRHSModifier", "pf/model.go")],
  ["explicit part and implicit factor of every mode of every equation; three solver steps"],
  "reference-model monitor over generated terms",
  SEEN + "Oracle evaluates the generated terms independently.")

P("C09", "Transforms, frequencies and node numbering agree with each other",
  "For every 2D and 3D domain the forward transform is the discrete Fourier sum over the documented node order, the backward transform is its exact inverse, and the reported frequency of every node is that of the plane wave it stands for. Node number and position are mutually inverse, and periodic wrapping returns the equivalent position inside the domain.",
  ["inputs", "configurations"],
  "all domain sizes (odd, even, prime, non-cubic, with sides of one node) and all data",
  "The tests check a few cubic domains.",
  ["pfutil/fftWrap.go", "pfutil/indexPositionConversion.go", "pfutil/iterators.go"],
  [("FFTWWrapper", "pfutil/fftWrap.go"), ("NodeIdx / Pos / Wrap", "pfutil/indexPositionConversion.go")],
  ["all amplitudes, frequencies and node numbers of a domain"],
  "reference-model monitor over generated domains",
  SEEN + "Oracle: the defining sum, sides up to 20.")

P("C10", "Ready-made spatial operators are exact on band-limited fields",
  "The ready-made operators (gradient, Laplacian powers, divergence of a variable-coefficient gradient, advection, squared gradient, anisotropic second derivatives, weighted Laplacian) return the analytical derivative of every trigonometric field the grid can represent, in 2D and 3D, on non-cubic grids, for any number of terms of the same kind. On other fields they equal the spectral derivative with consistent treatment of the highest frequency, and real fields give real results.",
  ["inputs", "configurations", "programs"],
  "all fields, coefficient functions, tensors, velocities, grids and combinations of terms in one model",
  "The tests check single Fourier modes on cubic grids.",
  ["pf/diffOp.go", "pf/gradientCalculator.go", "pf/advection.go", "pf/squareGradientTerm.go", "pf/tensorialHessian.go"],
  [("GradientCalculator / DivGrad / Advection / SquaredGradient / TensorialHessian / WeightedLaplacian", "pf/")],
  ["all nodes of each operator's output"],
  "reference-model monitor over generated fields",
  SEEN + "Oracle: analytical derivatives and an independent spectral derivative.")

P("C12", "What is stored in the database is what comes back",
  "For every history of simulations writing into one database, loading a simulation's epoch returns exactly the fields, names and node values saved by it at that epoch, ordered by name, bit for bit, for any domain, field names and values. Attributes, time series and comments are returned unchanged and attributed to their own simulation, each simulation gets its own id, the stored positions are those of the nodes, and fields of another domain are refused without leaving a trace.",
  ["inputs", "histories", "configurations"],
  "all interleavings of any number of simulations, any epochs, domains, field names and floating point values, over one or several handles and reopened files",
  "The tests save one or two epochs of one simulation with ordinary names and values.",
  ["pf/database.go"],
  [("FieldDB.SaveFields / Load / SetAttr / SetTextAttr / TimeSeries / Comment", "pf/"), ("simulation id", "pf/")],
  ["all rows of all tables, and the values returned by Load, after the file is reopened"],
  "shadow-copy monitor over generated histories",
  SEEN + "Saving the same epoch of a simulation twice is outside the property.")

P("C13", "No database failure goes unnoticed, no crash leaves half a snapshot",
  "Every database operation that returns without complaint is durable: whatever error the database reports or wherever the process dies, all operations acknowledged before are complete in the file, the field being saved at that moment is stored completely or not at all, and nothing else is there. An operation that could not be performed is never acknowledged, a load returns the saved values or fails loudly, and the file is usable by a new simulation afterwards.",
  ["crash points", "faults", "histories"],
  "all scripts of database operations, every operation of the driver as the point of an error or of the death of the process, and a disk that is full at any size",
  "The tests never see a failing database or a killed process.",
  ["pf/database.go"],
  [("transaction per field", "pf/ FieldDB.SaveFields"), ("error handling of every statement", "pf/ FieldDB")],
  ["every operation that reaches the SQL driver", "acknowledgements of the process", "the file left behind"],
  "fault enumeration at the SQL driver with an offline audit of the file",
  "All operations of each generated script are tried as fault points; the scripts themselves are sampled. Power loss below the file system is not modelled.",
  level="fault_enumeration")

P("C14", "Simulations sharing a database at the same time do not disturb each other",
  "When several simulations write into one database at the same time, as goroutines on one handle or as processes on one file, every acknowledged epoch is readable at once and for ever, complete and with exactly the values of its own simulation. Concurrent readers see whole fields only, ids are never shared, nothing races, and a killed process costs at most its own field in flight.",
  ["schedules", "crash points", "histories"],
  "all interleavings of writers and readers, as threads and as processes, and any point at which a process is killed",
  "The tests use the database from one goroutine.",
  ["pf/database.go"],
  [("simulation id and transactions", "pf/ FieldDB")],
  ["every acknowledgement with the rows present then and at the end", "race detector reports"],
  "race detector and self-identifying values audited against the log of acknowledgements",
  SEEN + "Interleavings come from the scheduler and random delays; the evidence counts distinct orders of acknowledgement.")

P("C15", "Files hold what was written, and failed writes are reported",
  "Every output file (binary, byte image, text table, uniform grid, XDMF description) decodes to exactly the fields that were written, in the documented order and precision, under the documented name for each field and epoch, and reading back gives the same values. Writing does not change the fields, a description refers to files and dimensions that reproduce every value, and a write or read that could not be completed fails loudly instead of leaving a truncated result.",
  ["inputs", "configurations", "faults"],
  "all domains, field names, values, epochs and orders of writing, overwriting files, missing directories, full devices and damaged inputs",
  "The tests write small fields once and often check only that files exist.",
  ["pf/fileIO.go", "pf/model.go", "pf/xdmf.go", "pfutil/grid.go"],
  [("SaveFloat64 / LoadFloat64 / Float64IO / Uint8IO / CsvIO", "pf/"), ("XDMF", "pf/xdmf.go"), ("Grid", "pfutil/")],
  ["bytes of every file", "values returned by the readers", "exit of the writing process under faults"],
  "independent decoders as oracle over generated output and injected write failures",
  SEEN + "Text files are judged to the six decimals they are documented to hold.")

P("C16", "The command line tool shows, exports and plots exactly what is stored",
  "Every listing, attribute table, comment, creation time, summary and csv export of the command line tool agrees with the content of the database for the simulation asked for (the newest when none is named), completely and without mixing simulations, fields, epochs or nodes, and reading commands do not change the database. Contour and line plots draw each value at its own position and depend on nothing but the selected field and line; the energy calculator reports the energy of its input, and failed writes or damaged input are never reported as success.",
  ["inputs", "configurations", "histories", "faults"],
  "all databases the library can produce, all options, names, values and ties in creation times, all csv files in the documented format",
  "There are no tests of the command line tool at all.",
  ["cmd/attr.go", "cmd/comment.go", "cmd/contour.go", "cmd/energy.go", "cmd/export.go", "cmd/info.go", "cmd/lineplot.go", "cmd/list.go", "cmd/time.go", "cmd/util.go", "cmd/template.go"],
  [("db list / attr / comment / time / info / export", "cmd/"), ("contour / lineplot", "cmd/"), ("elast energy", "cmd/energy.go")],
  ["standard output, exit code, files and images of the process", "database file before and after"],
  "process monitor: parsed output and files against a shadow copy, metamorphic comparison of images",
  SEEN + "Text output is judged to the six decimals it shows. The layout of tables is not judged.")

P("C18", "Elastic fields are in equilibrium and elastic energies are right",
  "Stiffness tensors have the components, symmetries and behaviour under rotation of the material they describe. For every stiffness and body force the displacements balance the force at every wave vector; strains are the symmetrised derivatives of the displacements; and the strain energy of any region with any misfit equals the value of linear elasticity: never negative, zero without misfit, quadratic in the misfit, proportional to the volume, and independent of translation, of axis names and of a common rotation.",
  ["inputs", "configurations"],
  "all stable stiffness tensors, misfits, body forces, regions, half axes and 2D/3D domains",
  "The tests use one or two materials, one spherical or flat inclusion and one domain each.",
  ["elasticity/rank4.go", "elasticity/effectiveForce.go", "elasticity/linearElasticity.go", "elasticity/perturbation.go", "elasticity/shapes.go", "elasticity/strainEnergyCLI.go"],
  [("Rank4 and constructors", "elasticity/"), ("Displacements / Strain / effective force", "elasticity/"), ("EnergyDensity / CalculateStrainEnergy", "elasticity/")],
  ["all tensor elements, displacements, strains, forces and energies"],
  "equilibrium and energy monitors against closed expressions over generated materials and regions",
  SEEN + "Exact energies on domains with an odd number of nodes per axis; elsewhere sign and invariance. One recorded finding: an inclusion with its own stiffness.")

P("C19", "The elastic driving force is the derivative of the elastic energy",
  "For every order parameter field, stiffness and misfit, the elastic term of a model equals minus the derivative of the total elastic energy with respect to the order parameter at every node, so that elastic relaxation never increases the energy. In a model each such term acts on its own field, from its current values, at every step.",
  ["inputs", "configurations", "histories"],
  "all order parameters, materials, misfits, interpolations, 2D/3D domains and numbers of steps",
  "The test uses one material and one field and looks at one evaluation.",
  ["pf/homoLinElast.go", "elasticity/effectiveForce.go", "elasticity/linearElasticity.go"],
  [("HomogeneousModulusLinElast", "pf/homoLinElast.go"), ("EffectiveForce", "elasticity/")],
  ["term values at every node, elastic energy along the simulation"],
  "variational monitor: term against derivative of an independently computed energy",
  SEEN + "Exact on domains with an odd number of nodes per axis. One recorded finding: coupling to out-of-plane shear in 2D.")

P("C20", "Phase field crystal terms are the derivatives of their energies",
  "The pair correlation function is the highest of its Gaussian peaks, damped by the effective temperature, at every wave number. The pair correlation and ideal mixture terms of a model are, for every wave vector, field, prefactor and choice of Laplacian, the functional derivatives of the energies they report, whether treated implicitly, explicitly or mixed, and act in a time step exactly as such. Interpolated two-phase correlation functions weight the two phases by the local concentration. Evaluating any of them leaves the fields untouched.",
  ["inputs", "configurations"],
  "all correlation functions, mixing energies, prefactors, fields, 2D/3D domains and ways of registering the terms",
  "The tests use one peak, one field and square domains.",
  ["pf/pairCorrelationTerm.go", "pfc/pairCorrelation.go", "pfc/ideal.go", "pfc/twoPhaseCorrFunc.go"],
  [("PairCorrlationTerm / ExplicitPairCorrelationTerm / IdealMixtureTerm", "pf/pairCorrelationTerm.go"), ("ReciprocalSpacePairCorrelation / IdealMix / TwoPhaseCorrFunc", "pfc/")],
  ["term values for every wave vector, energies, fields after each step"],
  "variational and reference-model monitors over generated models",
  SEEN + "Up to five peaks, domains up to 250 nodes.")

P("C21", "Crystal geometry, mode expansions and crystal fields are right",
  "Reciprocal lattices are dual to their cells for every cell, hkl vectors and their response to small strains follow, and the lists and counts of equivalent planes are complete and free of duplicates in 2D and 3D. Mode densities and their unit cell integrals agree with their definition, the mode solver returns amplitudes with the energy it reports, which is stationary and not above that of any initial guess, fitted elastic moduli and peak widths are consistent with each other, and commensurate crystals put the same atom at every lattice site.",
  ["inputs", "configurations"],
  "all cells, Miller indices, mode sets, mixing energies, initial guesses, elastic targets and commensurate crystals",
  "The tests check a few cells, symmetric strains and single mode sets.",
  ["pfc/lattice.go", "pfc/miller.go", "pfc/mode_solver.go", "pfc/initialGuessExplorer.go", "pfc/periodicFieldInit.go", "pfc/quadrature.go"],
  [("Cell / ReciprocalCell", "pfc/lattice.go"), ("EquivalentMiller / NumEquivalent", "pfc/miller.go"), ("ModeSolver", "pfc/mode_solver.go"), ("BuildCrystal / TiltGB", "pfc/periodicFieldInit.go")],
  ["all matrix elements, lists, densities, integrals, energies, fits and node values"],
  "reference-model monitor over generated cells, planes and crystals",
  SEEN + "One recorded finding: atoms at the lower boundaries of a domain are drawn displaced.")

P("C11", "Equivalent descriptions of a simulation give equivalent results",
  "A simulation that is translated over the periodic domain, reflected, given with permuted axes, tiled, extruded to three dimensions, written with other names or with fields, scalars and equations added in another order, or whose steps are distributed differently over calls of the solver, produces the same fields at the corresponding nodes. Uniform fields stay uniform, real fields stay real, and linear equations superpose.",
  ["inputs", "configurations", "histories"],
  "all systems of equations with sources, initial fields, grids, steppers, symmetry operations and call patterns",
  "No test compares two runs; each looks at one description of one problem.",
  ["pf/solver.go", "pf/model.go", "pf/rhsBuilder.go", "pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/sourceTerm.go", "pfutil/fftWrap.go"],
  [("Model.AddField / AddEquation / AddSource", "pf/model.go"), ("Solver.Solve / Propagate", "pf/solver.go")],
  ["all node values of both runs"],
  "metamorphic monitor: paired executions compared node by node",
  SEEN + "Tolerance follows the measured growth of a 1e-8 perturbation; ill-conditioned pairs are counted, not judged. One recorded finding: names that contain each other switch linear terms to explicit stepping.")

P("C17", "Noise has the strength, independence and conservation it promises",
  "White noise adds to every node an independent normal number of the configured strength at every step, independent between nodes, steps, fields and simulations. Conserved noise is the divergence of independent currents: its mean is exactly zero at every step, it is real, and every wave vector up to the highest receives the power proportional to its squared length, with the configured strength and for every number of dimensions and both parities of the domain. Runs with the same seed are identical.",
  ["inputs", "configurations", "histories"],
  "all strengths, domains, step sizes, numbers of fields and steps",
  "The tests estimate one variance on one domain; independence, spectra, conservation and other domains are not sampled.",
  ["pf/noise.go", "pf/model.go"],
  [("WhiteNoise.Generate", "pf/noise.go"), ("ConservativeNoise", "pf/noise.go")],
  ["noise values per node and per wave vector over many steps: moments, correlations, spectra, sums"],
  "statistical monitor with seven-sigma acceptance over recorded noise, exact conservation monitor",
  SEEN + "Statistical: deviations smaller than the seven-sigma band (a few percent in quick) are not seen. Seeded, so the verdict is reproducible.")

P("C22", "Geometry helpers transform, draw and sample exactly",
  "Affine transformations compose, invert and act as the matrices they describe; a shape drawn on a grid with any chain of transformations sets exactly the nodes whose transformed position is inside the shape, and no other. Blurring is the periodic average weighted by the kernel and conserves the mean, Voronoi cells assign each node of the periodic domain to its closest point, the product iterator visits every position once, slice helpers keep their order, and grids rotate, copy and convert without mixing up nodes.",
  ["inputs", "configurations"],
  "all transformations and their chains, shapes, grids in 2D and 3D, kernels, seeds and ranges",
  "The tests draw single shapes on one grid with one transformation.",
  ["pfutil/affine.go", "pfutil/shapes.go", "pfutil/grid.go", "pfutil/blur.go", "pfutil/voronoi.go", "pfutil/iterators.go", "pfutil/sliceOperations.go", "pfutil/sliceWrappers.go"],
  [("Affine", "pfutil/"), ("Draw", "pfutil/shapes.go"), ("Blur / Voronoi / Rotate2D / Product", "pfutil/")],
  ["all matrix elements, all node values, all visited positions"],
  "reference-model monitor over generated geometry",
  SEEN + "Nodes closer to a shape's surface than round-off are not judged.")

P("C23", "Filters, penalties, viscosity and volume constraints act as specified",
  "Vandeven filters of every order fall monotonically from one to zero, equal their defining integral, and scale each amplitude by the value at its own wave number. Bound transforms map all numbers one-to-one into their interval and back. The penalty for negative values is the derivative of its energy for every exponent. Spectral viscosity leaves wave numbers below a third of its threshold untouched and damps those above it by the documented factor, also inside a model. The volume constraint updates its multiplier from the observed change of volume at every step, so that a constant drift of the volume is stopped.",
  ["inputs", "configurations", "histories"],
  "all orders, exponents, prefactors, intervals, thresholds, fields, grids and numbers of steps",
  "The tests evaluate one order, one exponent, one threshold and one step.",
  ["pf/vandeven.go", "pf/boundTransform.go", "pf/negative_value_penalty.go", "pf/spectralViscosity.go", "pf/volumeConserving.go"],
  [("Vandeven / ApplyModalFilter", "pf/"), ("NegativeValuePenalty / BoundTransform", "pf/"), ("SpectralViscosity", "pf/spectralViscosity.go"), ("VolumeConservingLP", "pf/volumeConserving.go")],
  ["filter values, factors per wave vector, penalty per node, volume after every step"],
  "reference-model and conservation monitors",
  SEEN + "One recorded finding: the viscosity interpolant between a third of the threshold and the threshold.")

P("C24", "Simulations in one program do not influence each other",
  "A simulation gives the same result at every step whether it runs alone, interleaved with other simulations in any order, concurrently with others in other goroutines (each built beforehand), after others have run, or while it is observed by monitors, file output, summaries and queries. Concurrent simulations have no data race.",
  ["schedules", "histories", "configurations"],
  "all kinds of simulations and terms, equal or different names and domains, all interleavings of their steps and all combinations of observers",
  "The tests run one simulation at a time and never compare with a run under other circumstances.",
  ["pf/solver.go", "pf/model.go", "pf/monitor.go", "pf/fileIO.go", "pfutil/fftWrap.go"],
  [("Solver / Model", "pf/"), ("FFTWWrapper", "pfutil/fftWrap.go"), ("all terms", "pf/")],
  ["all node values after every step alone and in company", "memory accesses (race detector)", "order in which epochs of concurrent simulations finished"],
  "race detector plus differential monitor over interleaved, concurrent and observed executions",
  SEEN + "Transforms are planned one after the other: the planner of FFTW is not thread safe. Interleavings are those the scheduler and the injected delays produced (counted in the evidence).")

P("C25", "An interrupted simulation continues as if it had never stopped",
  "A simulation stopped after any epoch and continued by a new solver from the fields read back from its output (binary files, csv files or database), with the start step and start epoch set accordingly, produces for all later epochs the same output, under the epoch numbers that follow on, as the simulation that was never interrupted. Output of earlier epochs stays as it was.",
  ["histories", "configurations", "inputs"],
  "all simulations whose terms have no memory besides the fields and the time, all epochs of interruption, output formats and call patterns",
  "No test reads output back into a simulation.",
  ["pf/solver.go", "pf/fileIO.go", "pf/database.go", "pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go"],
  [("Solver.StartEpoch / Solve", "pf/solver.go"), ("CurrentStep", "pf/euler.go, pf/rk4.go, pf/implicitEuler.go"), ("Float64IO / CsvIO / FieldDB", "pf/")],
  ["output of every epoch of both runs", "clock at start and end"],
  "differential monitor: continued against uninterrupted execution",
  SEEN + "Compared to the digits the format holds times the measured growth of a perturbation.")

P("C26", "Charge transport obeys Poisson's equation, Ohm's law and conservation",
  "For every charge density, conductivity tensor per node and external field, in 2D and 3D, the reported current is the conductivity applied to the external field plus the field of the charges, the charge density changes by minus the divergence of that current, and the total charge never changes. In uniform conductors every mode decays with its own rate, and through layers of different conductors the stationary currents are those of resistors in series and in parallel. Evaluating a current leaves the density untouched.",
  ["inputs", "configurations", "histories"],
  "all densities, symmetric positive conductivity tensors varying from node to node, external fields and 2D/3D domains",
  "The tests use isotropic or constant conductivities on one or two domains.",
  ["pf/chargeTransport.go"],
  [("ChargeTransport.Construct / Current", "pf/chargeTransport.go")],
  ["all components of the current at every node, charges after every step, total charge"],
  "reference-model and conservation monitors",
  SEEN + "Components of highest-frequency waves that have no real derivative are taken as zero, as in the library.")

P("C27", "Complete models relax their energy and reproduce known solutions",
  "In conserved, non-conserved and coupled gradient flows and phase field crystal models written as equations and terms, the free energy falls at exactly the rate of its dissipation for small steps and never grows on long runs, and the means of conserved fields stay. Models with a known solution - interface growth and Burgers' equation (by Cole and Hopf), waves carried by a flow while they diffuse and react - end on that solution, in 2D and 3D.",
  ["inputs", "configurations", "histories"],
  "all coefficients, initial fields, domains and steppers in the stable range",
  "The tests look at single terms or single steps; the examples are only run by hand.",
  ["pf/solver.go", "pf/model.go", "pf/rhsBuilder.go", "pf/squareGradientTerm.go", "pf/advection.go", "pf/pairCorrelationTerm.go", "pfc/ideal.go"],
  [("Model / Solver", "pf/"), ("SquareGradient / Advection / PairCorrlationTerm / IdealMixtureTerm", "pf/")],
  ["energy, dissipation and mean before and after every epoch", "all node values at the end"],
  "energy-balance monitor on every observed epoch and comparison with closed solutions",
  SEEN + "The energy and its dissipation are computed independently from the fields; comparison with solutions to about 1e-5 after removing the first-order error of the scheme.")

P("C28", "Set-ups that do not fit together are refused",
  "A set-up whose parts do not fit together is refused with an error before any result is produced: fields and domains of different size, malformed equations, undefined, missing or reserved names, unknown steppers or properties, terms without the auxiliary fields or start values they need, and operations in an impossible number of dimensions. Refusing leaves fields, grids and files as they were, and the same set-up without the mistake is accepted.",
  ["inputs", "configurations"],
  "all sizes, domains, names, equations and combinations of terms with one such mistake",
  "The tests try only a few of these mistakes, with one input each, and never that valid set-ups next to them still work.",
  ["pf/model.go", "pf/solver.go", "pf/rhsBuilder.go", "pf/advection.go", "pf/noise.go", "pf/sdd.go", "pf/pairCorrelationTerm.go", "pf/volumeConserving.go", "pf/squareGradientTerm.go", "pfutil/shapes.go", "pfutil/grid.go", "pfutil/indexPositionConversion.go", "pfc/mode_solver.go", "pfc/miller.go", "pfc/lattice.go", "pfc/twoPhaseCorrFunc.go", "pfc/periodicFieldInit.go", "pf/xdmf.go"],
  [("NewSolver / SetStepper / Propagate", "pf/solver.go"), ("Build / ConcreteTerm / fieldNameFromLeibniz", "pf/rhsBuilder.go"), ("NewField / EqNumber / panicOnPrefixInName", "pf/model.go")],
  ["panics and exits with a message", "fields, grids and files after the refusal", "acceptance of the corrected set-up"],
  "paired runs with and without an injected mistake",
  SEEN + "Only the listed kinds of mistakes; equations for fields that do not exist are not among them.")
