"""Source of /verif/properties.jsonl (run: python3 tools/write_properties.py)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Periodic runs conserve mass, momentum, energy and passive scalars",
     "On a fully periodic domain the domain totals of mass, of each momentum component, of total energy and of every passive scalar are unchanged, to rounding, by any number of time steps. This holds for every set of active directions, polynomial degrees, Riemann solver, time integrator and limiter setting, and wherever on the mesh limiting happens to trigger.",
     ["configurations", "inputs", "histories"],
     "all sets of active axes x degrees 0-8 (mixed) x Riemann solvers x integrators x limiter settings (off, forced, NAD modes, SED, convex) x positions of the structure relative to the periodic seam",
     "the suite never sums a conserved quantity; the defect repaired here (limited flux at one copy of the seam face only) passed every test",
     ["fvhoe/solver.py", "fvhoe/slope_limiting.py", "fvhoe/boundary_conditions.py", "fvhoe/riemann_solvers.py", "fvhoe/ode.py"],
     [("flux-difference update", "fvhoe/solver.py:euler_equation"), ("periodic ghost cells", "fvhoe/boundary_conditions.py:_set_periodic_bc"), ("troubled-interface broadcast", "fvhoe/slope_limiting.py:broadcast_to_troubled_interfaces")],
     state=[("u", "cell averages of conserved variables", "array manager of the solver")],
     observe=["domain sums of the conserved array after each step"])

prop("C02", "Reflective walls let no mass, energy or scalar through",
     "In a box closed by reflective walls (every active direction either reflective on both sides or periodic) total mass, total energy and the total of every passive scalar are unchanged, to rounding, by any number of steps, as is momentum along any direction that has no wall. This holds for every Riemann solver for the Euler equations, degree, dimension and limiter setting.",
     ["configurations", "inputs", "histories"],
     "all assignments of reflective/periodic to active axes x degrees x Riemann solvers x limiter settings x initial states with flow towards, away from and along the walls",
     "tests compare half and full domain of one blast at degree 0 and 1 with forced trouble; no wall flux or total is ever measured",
     ["fvhoe/boundary_conditions.py", "fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py"],
     [("mirrored ghost cells with negated normal momentum", "fvhoe/boundary_conditions.py:_set_symmetric_bc"), ("flux-difference update", "fvhoe/solver.py:euler_equation")],
     observe=["domain sums of the conserved array after each step"])

prop("C03", "A uniform flow stays uniform",
     "A state with uniform density, velocity, pressure and passive scalars is left unchanged, to rounding, by any number of steps under every combination of boundary types compatible with it (periodic, free, outflow, matching Dirichlet values, initial-condition boundaries, and reflective walls where the normal velocity is zero). This holds for every dimension, degree, Riemann solver, integrator and limiter setting.",
     ["configurations", "inputs", "histories"],
     "all boundary-type combinations compatible with the flow x active axes x degrees x Riemann solvers x limiter settings x a sign-complete set of uniform states",
     "tests average a uniform field but never evolve one; only a handful of boundary combinations are run at all",
     ["fvhoe/solver.py", "fvhoe/boundary_conditions.py", "fvhoe/riemann_solvers.py", "fvhoe/fv.py", "fvhoe/slope_limiting.py"],
     [("consistent stencils and fluxes", "fvhoe/solver.py:hydrofluxes"), ("ghost zones", "fvhoe/boundary_conditions.py:BoundaryCondition.apply")],
     observe=["conserved array and snapshots after each step"])

prop("C04", "Relabelling or mirroring the axes commutes with the solver",
     "Permuting the coordinate axes of a problem, or mirroring it along any set of axes (positions, velocity components, boundary types, degrees and domain with it), gives the permuted or mirrored solution to rounding. This holds for every Riemann solver (upwind advection: with uniform velocity), degree, dimension, boundary type but the double-Mach wall (with boundary data that agree at domain edges, where ghost cells are filled x first) and limiter setting (mirroring with an absolute admissible range: range on density and pressure only).",
     ["configurations", "inputs"],
     "all 48 signed axis permutations x dimensions x (mixed) degrees x Riemann solvers x boundary types x limiter settings on states without any symmetry of their own",
     "tests rotate two highly symmetric problems cyclically at one degree per test; no mirror image is taken without forced trouble, so the left/right bias of the smooth-extrema detector repaired here went unseen",
     ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py", "fvhoe/smooth_extrema_detection.py", "fvhoe/boundary_conditions.py"],
     [("per-axis flux computation", "fvhoe/solver.py:hydrofluxes"), ("left/right smooth extrema detectors", "fvhoe/smooth_extrema_detection.py:compute_1d_smooth_extrema_detector")],
     observe=["conserved array after one or more steps, transformed back"])

prop("C05", "The periodic seam is invisible: shifting a problem shifts its solution",
     "On a periodic direction, shifting the initial state by any whole number of cells shifts the evolved state, the time-step sizes being equal and the trouble record shifting along, to rounding. This holds for every degree, Riemann solver, dimension and limiter setting, including meshes narrower than the ghost zone.",
     ["configurations", "inputs"],
     "all cyclic shifts of a mesh x active axes x degrees x Riemann solvers x limiter settings x mesh sizes down to one cell",
     "no test shifts anything; tests use meshes much wider than the stencil, so the uninitialised ghost cells on narrow meshes repaired here went unseen",
     ["fvhoe/solver.py", "fvhoe/boundary_conditions.py", "fvhoe/slope_limiting.py"],
     [("periodic ghost cells", "fvhoe/boundary_conditions.py:_set_periodic_bc"), ("periodic broadcast of troubled cells", "fvhoe/slope_limiting.py:broadcast_to_troubled_interfaces")],
     observe=["conserved array, time step and trouble record of every shift"])

prop("C06", "Embedding a problem in more dimensions does not change it",
     "A problem that is constant along some active direction evolves, at equal time-step size, exactly like the same problem with that direction inactive, to rounding, and stays constant along it. This holds for every degree in the extra direction, Riemann solver and limiter setting that does not depend on dimension.",
     ["configurations", "inputs", "histories"],
     "all embeddings of 1D into 2D and 3D and of 2D into 3D x degrees along the extra axes x Riemann solvers x limiter settings x non-symmetric states",
     "tests only compare different 1D orientations with each other and different 2D planes with each other, never across dimension counts",
     ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/slope_limiting.py", "fvhoe/boundary_conditions.py"],
     [("ghost-zone bookkeeping for inactive axes", "fvhoe/solver.py:hydrofluxes"), ("transverse reconstruction", "fvhoe/fv.py:transverse_reconstruction")],
     observe=["conserved array of both runs"])

prop("C07", "Ghost cells contain what each boundary type promises",
     "Applying boundary conditions leaves the interior untouched and fills every ghost cell as its face's type prescribes: wrapped copies (periodic), the nearest interior cell (free), mirror images (outflow), mirror images with negated normal momentum (reflective), the prescribed constant or function of position and time (dirichlet), the initial condition there (ic), and the free/reflective split at x=1/6 for the double-Mach wall; edges and corners come from applying x, then y, then z. The result never depends on uninitialised memory: a ghost zone that cannot be defined (mirror wider than the domain, one-sided periodic, missing coordinates) is refused with an error.",
     ["configurations", "inputs"],
     "all ordered pairs of boundary types on each axis x all three axes x ghost widths from zero to wider than the mesh x mesh shapes including one cell x number of passive scalars",
     "tests sample four types on both sides of one axis at a fixed width, with random data and no expected values; wide ghost zones and the double-Mach wall are never run",
     ["fvhoe/boundary_conditions.py", "fvhoe/fv.py", "fvhoe/hydro.py", "fvhoe/solver.py"],
     [("slab loop", "fvhoe/boundary_conditions.py:BoundaryCondition.apply"), ("slab coordinates", "fvhoe/boundary_conditions.py:trim_slabs"), ("slab mesh", "fvhoe/fv.py:fv_uniform_meshgen")],
     observe=["array returned by BoundaryCondition.apply"])

prop("C08", "Interpolation, reconstruction and quadrature are exact to their degree",
     "For every supported degree p, along any axis, interpolating cell averages to the left face, centre and right face of a cell reproduces every polynomial of degree at most p exactly, reconstructing averages from centre values does the same, and cell averaging a function by quadrature is exact for every polynomial of degree at most p per direction. Left and right interpolations are mirror images, all operators reproduce constants and act on every variable and every line of cells independently and identically, and the output is shorter than the input by exactly the stencil width.",
     ["configurations", "inputs"],
     "all degrees 0-8 x all monomials up to the degree (a basis: the operators are linear, so the whole polynomial space is covered) x positions x axes x array ranks",
     "tests only check a symmetric bump and a piecewise constant function; a wrong but symmetric weight table passes",
     ["fvhoe/stencils.py", "fvhoe/fv.py"],
     [("weight tables", "fvhoe/stencils.py"), ("stencil sweep", "fvhoe/fv.py:stencil_sweep"), ("Gauss-Legendre averaging", "fvhoe/fv.py:fv_average")],
     observe=["arrays returned by the public interpolation and averaging functions"])

prop("C09", "The spatial discretisation is exact for polynomials of its degree",
     "With uniform velocity and pressure and a density, or passive scalar in uniform density, given by any polynomial of degree at most p_i in each direction i, the computed rate of change of every cell average equals the exact one, -v.grad, to rounding. This holds for every combination of degrees (equal or mixed), active directions, mesh aspect ratio, flow direction and Riemann solver, up to the domain boundary when the ghost cells carry exact averages.",
     ["configurations", "inputs"],
     "all degree tuples (0-8 per active axis, mixed) x all tensor monomials up to the degree (a basis, by linearity) x active axes x flow directions x Riemann solvers",
     "no test measures accuracy; convergence notebooks run a few equal-degree cases by eye",
     ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/stencils.py", "fvhoe/riemann_solvers.py", "fvhoe/boundary_conditions.py"],
     [("ghost widths and excess trimming", "fvhoe/solver.py:hydrofluxes"), ("conservative interpolation and transverse reconstruction", "fvhoe/fv.py")],
     observe=["rate of change returned by the right-hand side"])

prop("C10", "Each time integrator attains its nominal order",
     "One step of the Euler, SSPRK2, SSPRK3 and RK4 integrators agrees with the exact solution of any smooth system u' = f(t, u) up to terms of order dt^(q+1), q = 1, 2, 3, 4 respectively, including when f depends on time, and the automatic choice of integrator has order min(p_max, 3) + 1. Time-dependent boundary data are evaluated at the times of the Runge-Kutta stages.",
     ["inputs", "configurations"],
     "all rooted trees up to the nominal order (the complete set of order conditions), with f depending on u, on t and on both; all degree tuples for the automatic choice",
     "no test integrates an ODE with a known solution; the stage time repaired here (second SSPRK2 stage, boundary data frozen at the step start) is invisible to autonomous problems",
     ["fvhoe/ode.py", "fvhoe/solver.py"],
     [("steppers", "fvhoe/ode.py"), ("integrator selection", "fvhoe/solver.py:run"), ("boundary time", "fvhoe/solver.py:interpolate_primitives_from_conservatives")],
     observe=["state after one step", "times at which a boundary function is called"])

prop("C11", "Runs land exactly on requested times and record exactly those",
     "Integrating to a time T in exact mode visits T and every requested output time in (start, T] exactly, in order, and takes one snapshot at the start, one at each of them and none elsewhere (one per step if every step is logged); time strictly increases, no step exceeds the step size the dynamics allow, and the run never passes T. In non-exact mode no step is shortened and the run stops at the first time at or past T; a step-count run takes exactly that many steps, whatever else is asked for.",
     ["inputs", "histories"],
     "all sequences of admissible step sizes from a small alphabet x all subsets, orders and containers of output times (duplicates, before the start, beyond T) x exact/non-exact x log-every-step x continuing an already advanced run",
     "tests pass one evenly spaced list and look only at the last snapshot; continuing a run (which stepped backwards in time before the repair) is never exercised",
     ["fvhoe/ode.py"],
     [("target-time clipping", "fvhoe/ode.py:_hit_target"), ("integration loop", "fvhoe/ode.py:integrate")],
     state=[("t, timestamps, step_count", "progress of the run", "fvhoe/ode.py:ODE"), ("snapshots, snapshot_times", "recorded outputs", "fvhoe/ode.py:ODE")],
     observe=["timestamps, snapshot times, step sizes and step count after the run"])

prop("C12", "Observing, splitting or interleaving runs never changes their results",
     "The evolved state after a given sequence of steps is the same whatever is done in between: taking snapshots, logging every step, plotting, saving, splitting the run into several calls, or interleaving it with other solvers in the same process (with shared inputs such as boundary objects or initial conditions). Snapshots already taken never change, and a repeated run gives the same result.",
     ["histories", "schedules"],
     "all sequences up to a depth of the operations {step, multi-step run, timed run, snapshot, plot, save, evaluate right-hand side} on one solver, and all interleavings of the step sequences of two solvers sharing their inputs",
     "tests run each solver once from start to end and look only at the last snapshot",
     ["fvhoe/solver.py", "fvhoe/ode.py", "fvhoe/array_management.py", "fvhoe/hydro.py", "fvhoe/fv.py", "fvhoe/stencils.py", "fvhoe/boundary_conditions.py", "fvhoe/visualization.py"],
     [("copies in snapshots", "fvhoe/array_management.py:get_numpy"), ("cached stencils and slices", "fvhoe/stencils.py, fvhoe/hydro.py, fvhoe/fv.py"), ("per-solver array manager", "fvhoe/ode.py:ODE.__init__")],
     observe=["conserved array, time and deep copies of snapshots along every history"])

prop("C13", "Saved snapshots load back intact; nothing is lost or silently invented",
     "A run given an output directory leaves there exactly its snapshots, and a later run pointed at it without overwrite returns those snapshots (data, times, trouble records) without simulating; without overwrite an existing directory is never modified, with overwrite it ends up holding only the new run. If the process dies at any point of saving, a later run without overwrite either returns a complete saved set or fails with an error, never a partial or mixed one. Saving works for every kind of initial condition, boundary condition and limiter setting, numbers given as NumPy scalars included.",
     ["histories", "crash_points", "configurations"],
     "all operation sequences up to a depth of {run+save, run+save with overwrite, load} over two directories and two problems; every crash point (each file-system call, each prefix of each written file); all solver configuration kinds",
     "tests save one configuration, always with overwrite, and compare the last snapshot; runs given finite-volume initial conditions crashed while saving before the repair",
     ["fvhoe/solver.py", "fvhoe/ode.py"],
     [("write_snapshots", "fvhoe/solver.py"), ("read_snapshots", "fvhoe/solver.py"), ("save/load decision", "fvhoe/ode.py:integrate")],
     observe=["directory contents", "snapshots of the loading solver"])

prop("C14", "Riemann fluxes are consistent, upwind and symmetric",
     "Every Riemann solver returns the physical flux when both states are equal, returns the flux of the upwind state when all waves move one way (HLLC, upwind), and commutes with mirror reflection and relabelling of axes. HLLC is the three-wave flux for the signal speeds min(v)-max(c) and max(v)+max(c) and keeps stationary contact and shear discontinuities exactly (no flux but pressure), and LLF equals the mean flux minus half the larger signal speed times the jump; passive scalars are carried by the mass flux, so a scalar equal on both sides is carried exactly.",
     ["inputs", "configurations"],
     "all pairs of states from a grid of densities, velocities (sub/supersonic, both signs, zero), pressures, scalars x three directions x gamma x Riemann solver",
     "no unit test calls a Riemann solver",
     ["fvhoe/riemann_solvers.py", "fvhoe/hydro.py"],
     [("advection_upwind, llf, hllc", "fvhoe/riemann_solvers.py"), ("compute_fluxes", "fvhoe/hydro.py")],
     observe=["returned flux arrays"])

prop("C15", "Variable conversion is exact and the time step obeys the CFL limit",
     "Converting between primitive and conservative variables follows the ideal-gas law and is invertible, for any number of passive scalars and array rank, whole-number arrays included; the sound speed never falls below its floor. The automatic time step is such that in every cell of the mesh the sum of the velocity magnitudes along the three axes and of one sound speed per active direction, times the step, is at most the Courant number times the smallest cell width, the bound being attained by the fastest cell; a fixed step size, when given, is used instead.",
     ["inputs", "configurations"],
     "all states from a grid of densities, velocities, pressures and scalars x gamma x number of scalars; all placements of the fastest cell x active axes x aspect ratios x degrees",
     "tests check invertibility of E and P on random positive data only; the time step is never checked",
     ["fvhoe/hydro.py", "fvhoe/solver.py"],
     [("compute_primitives, compute_conservatives, compute_sound_speed, hydro_dt", "fvhoe/hydro.py"), ("time-step choice", "fvhoe/solver.py:hydrofluxes")],
     observe=["returned arrays", "step sizes of a solver"])

prop("C16", "Limited reconstruction never leaves the range of its neighbours",
     "The slope-limited face values of a cell lie between the averages of the cell and its neighbours (minmod: between the cell and the nearer average), average to the cell value, collapse to the cell average at local extrema, reproduce linear data exactly, and are equivariant under mirroring, sign change, and adding a constant or scaling by a positive factor. This holds along every axis, for both limiters, for any magnitudes including zero differences; without a limiter the faces follow the central slope.",
     ["inputs", "configurations"],
     "all triples and longer lines of cell values from an alphabet spanning signs and magnitudes x limiter x axis x rank",
     "no unit test evaluates a limiter",
     ["fvhoe/slope_limiting.py"],
     [("minmod, moncen, MUSCL_interpolations", "fvhoe/slope_limiting.py")],
     observe=["returned face values"])

prop("C17", "Cells are flagged as troubled exactly when a criterion is violated",
     "A cell is flagged exactly when its candidate value leaves the admissible numerical range built from its neighbourhood for some selected variable at which no smooth extremum is detected, or leaves the admissible physical range of any variable that has one; the reported magnitudes are positive exactly where the respective criterion fired and, for the physical criterion, equal the worst violation. This holds for every mode (global/local, relative/absolute), variable selection, dimension and position; a density or pressure below zero is always flagged under the default physical range.",
     ["inputs", "configurations"],
     "all small lines and patches of values from an alphabet, with every cell and every variable perturbed x modes x ranges x variable selections x physical bounds x dimensions",
     "the test calls the detector on random data and asserts nothing; only the last-listed variable's bounds were effective before the repair",
     ["fvhoe/slope_limiting.py", "fvhoe/smooth_extrema_detection.py", "fvhoe/solver.py"],
     [("detect_troubled_cells", "fvhoe/slope_limiting.py"), ("smooth extrema detectors", "fvhoe/smooth_extrema_detection.py")],
     observe=["returned flags and magnitudes"])

prop("C18", "Fluxes are revised at, and only at, the faces troubled cells require",
     "In simple mode a face uses the fallback flux exactly when one of its two cells is troubled; in convex mode the blending weight falls off with distance from troubled cells (1, 3/4, 1/2 diagonal, 1/4, then 0) and never exceeds 1; the two copies of a periodic face get the same weight, and inactive directions get none. Consequently a run with no troubled cell equals the unlimited run, a run with every cell troubled is independent of the high-order degree and equals the limited second-order scheme, and limiting changes only cells next to a revised face.",
     ["inputs", "configurations"],
     "all subsets of troubled cells of small 1D, 2D and 3D meshes x active axes x periodicity per axis x simple/convex; solver-level runs with trouble forced everywhere, nowhere and at every single cell",
     "no test looks at a face mask; limiting tests only compare rotated runs with each other",
     ["fvhoe/slope_limiting.py", "fvhoe/solver.py"],
     [("broadcast_to_troubled_interfaces and convex variants", "fvhoe/slope_limiting.py"), ("revise_fluxes", "fvhoe/solver.py")],
     observe=["returned face weights", "rate of change with and without limiting"])

prop("C19", "The first-order LLF scheme keeps density and pressure positive",
     "With degree 0, the LLF solver, forward Euler and a Courant number at most one over the number of active directions, any state with positive density and pressure keeps positive density and pressure, and every passive scalar stays within the range of its previous values in the cell and its face neighbours. This holds in 1D, 2D and 3D, for any mesh aspect ratio and boundary type other than Dirichlet.",
     ["inputs", "configurations", "histories"],
     "all neighbourhoods of cell states from an alphabet spanning six orders of magnitude in density and pressure and Mach numbers up to 20 in both directions x dimensions x aspect ratios x boundary types",
     "tests run a few shock problems with mild ratios and never assert positivity",
     ["fvhoe/riemann_solvers.py", "fvhoe/hydro.py", "fvhoe/solver.py"],
     [("LLF dissipation", "fvhoe/riemann_solvers.py:llf"), ("CFL time step", "fvhoe/hydro.py:hydro_dt")],
     observe=["density, pressure and scalars after each step"])

prop("C20", "Passive scalars ride along without touching the flow or each other",
     "Adding passive scalars, in any number and order, leaves the density, velocity, pressure, time steps and trouble record of a run unchanged. Scalars do not influence each other, a uniform scalar stays uniform, renaming or reordering scalars permutes the result, and scaling the initial value of one scalar scales its solution, for every Riemann solver, dimension, degree, boundary type and limiter setting in which the scheme is linear in it.",
     ["configurations", "inputs", "histories"],
     "numbers and orders of up to three scalars x Riemann solvers x dimensions x degrees x boundary types x limiter settings",
     "one test, one shock tube with free boundaries, two scalars, HLLC, looking at the flow only; scalar values are never checked",
     ["fvhoe/hydro.py", "fvhoe/riemann_solvers.py", "fvhoe/initial_conditions.py", "fvhoe/boundary_conditions.py", "fvhoe/solver.py"],
     [("variable map", "fvhoe/hydro.py:HydroState"), ("scalar fluxes", "fvhoe/riemann_solvers.py"), ("combined initial condition", "fvhoe/initial_conditions.py:InitialCondition.build_ic")],
     observe=["conserved array of the runs with and without scalars"])

prop("C21", "The initial state is the cell average of the documented profile",
     "The mesh has equal cells filling the domain with ghost slabs continuing it, and each initial-condition class gives, at every point, the documented values for every allowed direction and parameter (pointwise profiles do not depend on the mesh, and relabelling directions relabels the profile; the blast deposits exactly its energy, or the corner's share of it, for every mesh with two or more cells per blast direction). The solver starts from the averages of these profiles over its cells, converted to conserved variables at quadrature points unless the profile is declared conserved or already averaged.",
     ["configurations", "inputs"],
     "all initial-condition classes x directions x parameter alternatives x mesh shapes and domains x degrees x conserved/averaged declarations",
     "tests use the profiles as inputs and check only shapes and constant functions",
     ["fvhoe/initial_conditions.py", "fvhoe/fv.py", "fvhoe/solver.py"],
     [("base_ic of each class", "fvhoe/initial_conditions.py"), ("fv_uniform_meshgen, fv_average", "fvhoe/fv.py"), ("initialisation", "fvhoe/solver.py:_init_initial_conditions")],
     observe=["arrays returned by the built initial condition", "conserved array before the first step"])

prop("C22", "Snapshots, trouble records and plots show the requested data",
     "A snapshot's trouble record has one value per cell and is the average over the stages of the last step; snapshot data are the primitive variables of the current state, as cell averages or cell-centre values as configured. Slices, velocity magnitudes, trouble overlays and radial averages drawn from a solver or a snapshot list show the requested variable at the snapshot time and coordinates nearest to those requested.",
     ["inputs", "configurations", "histories"],
     "all combinations of plotted variable, slice orientation, coordinates (every cell, cell edges, outside), time, trouble mode; all integrators and step histories up to a depth for the trouble record",
     "tests only average all-ones fields; trouble plots (which had the wrong array shape before the repair) are never drawn",
     ["fvhoe/visualization.py", "fvhoe/solver.py"],
     [("nearest-index lookup and slicing", "fvhoe/visualization.py"), ("log_troubles, snapshot, plot_fields", "fvhoe/solver.py")],
     observe=["artists added to the axes", "snapshot dictionaries"])

prop("C23", "Array store, timers and variable maps behave like their simple models",
     "For every sequence of operations, the array store behaves like a dictionary that refuses duplicate or unknown names and non-arrays, handing out live arrays by name and independent copies on request; the timer sums, per category, exactly the time between matching start and stop calls and refuses unmatched ones; variable names map to distinct positions, five for the flow plus one per scalar, and slices select exactly the requested variables and cell ranges. A refused operation changes nothing.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over small argument alphabets, for each of the three components, against reference models; all slices over a small index alphabet",
     "tests call each operation once",
     ["fvhoe/array_management.py", "fvhoe/timer.py", "fvhoe/hydro.py"],
     [("ArrayManager", "fvhoe/array_management.py"), ("Timer", "fvhoe/timer.py"), ("HydroState", "fvhoe/hydro.py")],
     observe=["return values, exceptions and contents after every operation"])

prop("C24", "Solver options are honoured or refused, never silently ignored",
     "Every documented solver option either has its documented effect or is refused with an error: unknown Riemann solvers, limiters, detection modes, boundary types, degrees beyond 8, malformed initial conditions and inconsistent flags raise; density and pressure floors bound the interpolated states; variables declared fixed keep their initial value; the number of passive profiles matches the scalars.",
     ["configurations"],
     "all documented options x all documented values plus one or more illegal values each",
     "tests never pass an illegal value to the solver and never check that an option has an effect",
     ["fvhoe/solver.py", "fvhoe/slope_limiting.py", "fvhoe/boundary_conditions.py", "fvhoe/stencils.py", "fvhoe/hydro.py"],
     [("constructor", "fvhoe/solver.py:EulerSolver.__init__"), ("mode dispatch", "fvhoe/slope_limiting.py:detect_troubled_cells")],
     observe=["exceptions", "evolved states with and without the option"])

prop("C25", "The batch wrapper runs the configured problem once and reuses it after",
     "The batch wrapper produces the same snapshots as building and running the solver directly with the same settings, at evenly spaced times, with the requested integrator; different solver options, end times, integrators or snapshot counts never share an output directory, and calling it again with the same settings returns the stored snapshots without simulating unless overwrite is requested.",
     ["configurations", "histories"],
     "all integrator choices x snapshot counts x settings differing in one option x call sequences up to a depth with and without overwrite",
     "the module could not even be imported before the repair, and has no test",
     ["fvhoe/scripting.py", "fvhoe/solver.py", "fvhoe/ode.py"],
     [("EulerSolver_wrapper", "fvhoe/scripting.py")],
     observe=["returned solver, output directories"])

prop("C26", "The first-order solver and the packaged 1D reference solver agree",
     "In one dimension, with degree 0 and forward Euler, the solver and the packaged 1D reference solver produce the same states and time steps, to rounding, step by step, for each of the reference's initial states, boundary types and Riemann solvers. With periodic boundaries the reference solver conserves mass, momentum and energy at every order it offers.",
     ["configurations", "histories"],
     "all reference initial states x boundary types x Riemann solvers x mesh sizes x number of steps; all space and time orders for conservation",
     "the reference solver is not tested and never compared with the main one automatically",
     ["fvhoe/romain_solver.py", "fvhoe/solver.py", "fvhoe/riemann_solvers.py"],
     [("weno", "fvhoe/romain_solver.py"), ("euler at degree 0", "fvhoe/solver.py")],
     observe=["states after every step"])

prop("C27", "Units and the origin of the coordinates do not matter",
     "Expressing a problem in other units of density, length, velocity or scalar concentration, with its dimensional options and boundary data converted along, gives the same time steps, states, snapshots and trouble record in those units, to rounding; displacing the origin of the coordinates changes nothing. This holds for every degree, Riemann solver, dimension, boundary type, integrator and limiter setting; the only option without a unit of its own is the division tolerance of smooth extrema detection, which is set to the smallest numbers.",
     ["configurations", "inputs", "histories"],
     "changes of units over thirty binary orders of magnitude in each base unit x regimes x combined settings x inflow data x problems posed by profiles",
     "tests are posed in units in which everything is of order one, so absolute thresholds hidden in the code never act",
     ["fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py", "fvhoe/hydro.py", "fvhoe/ode.py", "fvhoe/fv.py", "fvhoe/smooth_extrema_detection.py"],
     [("limiters", "fvhoe/slope_limiting.py:minmod"), ("wave speeds and time step", "fvhoe/solver.py:hydrofluxes"), ("step control", "fvhoe/ode.py:integrate")],
     observe=["time steps, conserved array, snapshots and trouble record, converted back"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
