"""Writes properties.jsonl (kept as a script only so that the text below stays readable)."""
import json, os
S = "src/tvemoves_rufbad/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {
        "files": [S + f for f in files],
        "mechanism": [{"name": n, "where": S + w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append(
        dict(
            id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
            why_tests_cant=why, anchors=a,
        )
    )


prop(
    "C01", "The staggered time stepping hands every state over exactly",
    "A new simulation holds the initial state (identity deformation, initial temperature everywhere) followed by one computed time step, and running n more steps appends exactly n, whether at once or one by one. "
    "Every time step first poses a mechanical problem from the last recorded deformation and temperature and then a thermal problem from that state together with the deformation just found, and records exactly the deformation and temperature the solver returned. "
    "Steps that are already recorded never change.",
    ["histories", "configurations"],
    "all simulation parameters (regularized or not), rectangles, fixed sides, sequences of run calls, and all solver answers within the search range",
    "No test constructs a Simulation (the solver is not installed); the guarantee is about histories of arbitrary length and arbitrary solver answers.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py"],
    [("run / single step", "simulation.py"), ("update of the two models", "simulation.py"), ("append of a step", "simulation.py")],
    ["models passed to the solver", "Simulation.steps"],
    [("steps", "recorded history", "simulation.py")],
)
prop(
    "C02", "Fixed sides never move and nothing else is prescribed",
    "In every recorded step the vertices on fixed sides are at their reference positions, whatever values the solver gives to the unknowns it may change, and no vertex off the fixed sides is prescribed or constrained. "
    "In the regularized model a deformation is admissible exactly if, at both end points of every edge on a fixed side, its position is the reference position, its derivative along the edge is the edge direction and its second derivative along the edge vanishes.",
    ["inputs", "configurations", "histories"],
    "all rectangles, mesh sizes, subsets of fixed sides (given as None, a name, or a list with repetitions), histories and deformations",
    "No test poses a mechanical problem; 16 subsets of sides times mesh shapes times histories times admissible deformations.",
    ["mechanical_step.py", "domain.py", "simulation.py"],
    [("fixing of Dirichlet vertices", "mechanical_step.py"), ("edge constraints", "mechanical_step.py"), ("boundary partition", "domain.py")],
    ["fixed variables and constraints of the posed problem", "Simulation.steps"],
)
prop(
    "C03", "The mechanical problem is the discrete energy of the scheme",
    "For every mesh, previous deformation, previous temperature, time step and traction, the objective minimised by the unregularized mechanical step is, as a function of the new piecewise affine deformation: the elastic energy at the previous temperature, plus fps times the dissipation potential of previous and new strain, minus the work of the boundary traction. "
    "Temperature-dependent integrals use the degree 2 three-point rule per triangle, all triangles of the mesh contribute once, and the objective always reflects the latest state given to the step.",
    ["inputs", "histories"],
    "all grids, states with positive determinant, temperatures >= 0, fps, tractions, and sequences of updates before the solve",
    "No test evaluates a step objective; the claim is over a continuum of states and all meshes.",
    ["mechanical_step.py", "integrators.py", "interpolation.py", "helpers.py", "quadrature_rules.py"],
    [("objective of the model", "mechanical_step.py"), ("integrator", "integrators.py")],
    ["objective of the model passed to the solver"],
)
prop(
    "C04", "The thermal problem is the discrete energy of the scheme",
    "For every mesh, previous and current deformation, previous temperature, time step and external temperature, the objective minimised by the unregularized thermal step is, as a function of the new piecewise affine temperature: heat diffusion with the conductivity pulled back by the previous strain, minus heating by dissipation (twice the potential times fps squared) and by the coupling at the previous state times the strain rate, plus boundary heat exchange, plus fps times (entropy constant/2 times the squared increment, plus the temperature antiderivative of the internal energy at the current strain, minus the internal energy at the previous state times temperature). "
    "Bulk integrals use the degree 2 three-point rule per triangle, boundary integrals the midpoint of each boundary edge, each exactly once, and the objective always reflects the latest data given to the step.",
    ["inputs", "histories"],
    "all grids, deformations with positive determinant, temperatures >= 0, fps, external temperatures, and sequences of updates before the solve",
    "No test evaluates the thermal objective; the claim is over a continuum of states and all meshes.",
    ["thermal_step.py", "integrators.py", "interpolation.py", "helpers.py"],
    [("energy and dissipation potentials", "thermal_step.py"), ("objective of the model", "thermal_step.py")],
    ["objective of the model passed to the solver"],
)
prop(
    "C05", "The regularized problems are the C1 discrete energies",
    "With regularization, the mechanical objective is the elastic energy at the previous temperature plus the regularization times the integral of the cubed norm of the second gradient plus fps times the dissipation potential, for the Bell (C1, quintic) interpolation of the deformation given by values, first and second derivatives at the coarse vertices. "
    "The thermal objective is the bulk part of the unregularized thermal energy for that deformation and a piecewise affine temperature on the refined mesh. All integrals use the degree 5 seven-point rule on every triangle of the refined mesh, and both objectives reflect the latest data given to the step.",
    ["inputs", "histories"],
    "all grids, refinement factors, C1 states with positive determinant, temperatures, fps and regularization parameters",
    "No test builds a regularized model; the claim ranges over meshes, refinement factors and states.",
    ["mechanical_step.py", "thermal_step.py", "interpolation.py", "bell_finite_element.py", "domain.py"],
    [("regularized models", "mechanical_step.py"), ("regularized models", "thermal_step.py"), ("refined interpolation", "interpolation.py")],
    ["objective of the model passed to the solver"],
)
prop(
    "C06", "Solves start at the previous state and stay within the search radius",
    "Whenever a previous state is given to a step, its next solve starts from that state, and at every solve every unknown is confined to the interval of the search radius around the latest previous state (temperatures additionally to non-negative values), however often and in whatever order the step was updated or solved before. "
    "In a simulation every solve starts from the last recorded step.",
    ["histories", "inputs"],
    "all sequences of updates and solves, search radii, states; both steps, with and without regularization",
    "No test solves a step; bounds could go stale only along particular update sequences.",
    ["mechanical_step.py", "thermal_step.py"],
    [("bounds and start values set with the previous state", "mechanical_step.py"), ("bounds and start values set with the previous temperature", "thermal_step.py")],
    ["values, bounds and domains of the variables passed to the solver"],
)
prop(
    "C07", "Traction and outside temperature act at the right time and place",
    "In the unregularized simulation the forces and the outside temperature used for the k-th computed step are those at time (k-1)/fps, the first computed step using time 0. "
    "Traction does work only on boundary edges of sides that are not fixed (per edge: length times mean of the two nodal tractions dotted with the midpoint displacement position), and heat is exchanged over every boundary edge, fixed or not.",
    ["histories", "configurations", "inputs"],
    "all time-dependent tractions and outside temperatures, fixed sides, meshes, frame rates and numbers of steps (including fractional and large fps)",
    "No test has forcing; an off-by-one in time or a wrong edge shows only along histories or for particular fixed sides.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py", "domain.py"],
    [("current time", "simulation.py"), ("traction update", "mechanical_step.py"), ("external temperature update", "thermal_step.py")],
    ["objective of the models passed to the solver", "arguments of the user's callables"],
)
prop(
    "C08", "Elastic energies are frame indifferent with the documented wells",
    "For all strains F with determinant J > 0 the austenite energy |F|^2 - 2 - 2 ln J + (J-1)^2, the martensite energy (|F|^2/J - 2.25)^2 + (J^2 + 1/J^2 - 2)^2, their mixture weighted by the austenite fraction 1 - exp(-5 theta) and the dissipation potential (half the squared norm of the symmetrized strain increment) are non-negative, unchanged by rotating the deformed configuration, and the provided strain derivatives are their exact derivatives. "
    "Austenite energy vanishes exactly on rotations, martensite energy on all rotations of the two sheared wells [1 +-0.5; 0 1] and otherwise only at the same determinant and norm, dissipation exactly for increments whose symmetrized rate vanishes. "
    "Both elastic energies tend to infinity as the determinant tends to zero.",
    ["inputs"],
    "all 2x2 strains with positive determinant, all rotations, temperatures >= 0",
    "There is no test of the potentials; the laws are universally quantified over matrices.",
    ["helpers.py"],
    [("potentials", "helpers.py")],
    ["values of the potential functions"],
)
prop(
    "C09", "Thermal constitutive functions are mutually consistent",
    "For all temperatures and strains with positive determinant: the internal energy weight equals a - theta a' of the austenite fraction a, its antiderivative vanishes at 0 and differentiates to it, the internal energy equals coupling energy minus theta times its temperature derivative plus the entropy constant times theta, the coupling derivative is a times the difference of the two energy derivatives, the dissipation rate is 2 fps^2 times the dissipation potential. "
    "The pulled back conductivity is det F F^-1 K F^-T: symmetric, positive definite and rotation invariant.",
    ["inputs"],
    "all temperatures >= 0 and strains with positive determinant, fps > 0",
    "No test touches these functions; identities over continua.",
    ["helpers.py", "tensors.py"],
    [("internal energy", "helpers.py"), ("heat conductivity", "helpers.py")],
    ["values of the functions"],
)
prop(
    "C10", "A rectangle's grid is a conforming triangulation",
    "For every width, height and scale not larger than either, the grid's points are exactly the lattice points of that spacing inside the rectangle (including the far sides when the scale evenly divides them), each lattice cell is split by its rising diagonal into two counter-clockwise triangles, and the edges are exactly the sides of the triangles, each once. "
    "Triangles cover the lattice rectangle without overlap and boundary edges and vertices are exactly those on its outline.",
    ["inputs"],
    "all widths, heights and scales, including decimal values whose quotient is inexact",
    "The tests compare one hand-written grid.",
    ["domain.py"],
    [("grid construction", "domain.py")],
    ["vertices, edges, triangles, points and boundary of the returned grid"],
)
prop(
    "C11", "Fixed and free boundary parts partition the outline",
    "For every choice of fixed sides, given as nothing, one name or a list in any order with repetitions, the fixed edges are exactly the boundary edges on those sides, all other boundary edges are free, and the fixed (free) vertices are exactly the end points of fixed (free) edges, each listed once. "
    "Fixed and free edges together are the boundary edges; the rest of the grid does not depend on the choice.",
    ["inputs", "configurations"],
    "all rectangles, mesh sizes and fix specifications",
    "The tests look at two specifications on one rectangle.",
    ["domain.py"],
    [("boundary tags and edge sets", "domain.py")],
    ["boundary parts of the returned grid"],
)
prop(
    "C12", "Refining a grid gives the uniform subdivision",
    "Refining a grid k-fold gives, up to numbering, exactly the grid of the same rectangle with spacing divided by k, including its boundary, fixed and free parts (edges and vertices); coarse vertices keep their numbers and positions, and the coarse grid itself is left unchanged. "
    "This also holds for refining an already refined grid, and factors below 1 are rejected.",
    ["inputs"],
    "all grids, fix specifications, refinement factors and nested refinements, at all length scales",
    "The tests refine one grid by one factor.",
    ["domain.py"],
    [("triangle refinement", "domain.py"), ("point identification", "domain.py")],
    ["the refined grid"],
)
prop(
    "C13", "Fine points map to the same point of the coarse grid",
    "For every refined grid, converting a barycentric point of any fine triangle (named by any cyclic rotation) to the coarse grid gives a coarse triangle and coordinates of the same geometric point, and converting a relative position on a fine edge that lies on a coarse edge gives that coarse edge, as listed in the coarse grid, and the same geometric point. "
    "Fine edges inside coarse triangles and unknown triangles are rejected, and the reported coarse grid is the grid that was refined.",
    ["inputs"],
    "all refined and nested refined grids, all fine triangles and edges, all barycentric coordinates",
    "The tests only check that some values agree on one refined grid.",
    ["domain.py"],
    [("coarse triangle and edge maps", "domain.py")],
    ["results of the conversions"],
)
prop(
    "C14", "Point location finds exactly the points of the mesh",
    "A point of the meshed region, including vertices, edges and (up to rounding) the outline, is located in a triangle of the grid that contains it with barycentric coordinates that reproduce it, and a point clearly outside is reported as outside. "
    "This holds for coarse and refined grids of every size and for every triangle orientation, and vertex lookup by position finds exactly the vertex at that position.",
    ["inputs"],
    "all grids at all length scales and all query points, on, inside and outside",
    "The tests query a few points of one grid of unit size.",
    ["domain.py"],
    [("containment test", "domain.py"), ("barycentric coordinates", "domain.py")],
    ["result of point location"],
)
prop(
    "C15", "Piecewise affine interpolation is exact and nodal",
    "On every triangulation the piecewise affine interpolation takes the nodal values at the vertices, reproduces affine functions with their exact gradient in every triangle (listed in either orientation), is linear in its parameters, agrees across edges, and its value on an edge at parameter t is t times the first plus (1-t) times the second end point's value. "
    "Wrong numbers of parameters are rejected.",
    ["inputs"],
    "all rectangular, refined and perturbed triangulations, parameters and points",
    "The tests sample one grid and one function.",
    ["interpolation.py", "bell_finite_element.py"],
    [("P1 interpolation", "interpolation.py"), ("gradient transform", "bell_finite_element.py")],
    ["values of the interpolation"],
)
prop(
    "C16", "The Bell element interpolates and reproduces quartics",
    "On every non-degenerate triangle the C1 interpolation takes the prescribed values, first and second derivatives at the three vertices, reproduces every polynomial of degree at most four together with its gradient and Hessian at every point, and its normal derivative is a cubic along each side. "
    "Its gradient and Hessian are the exact derivatives of its value, it is linear in its 18 parameters, and it does not depend on the cyclic order in which the vertices are named.",
    ["inputs"],
    "all triangles in general position (any scale, shape, orientation up to aspect ratio 20), all parameters and all points",
    "The tests sample polynomials on a few triangles at a few points.",
    ["bell_finite_element.py", "interpolation.py"],
    [("shape functions", "bell_finite_element.py"), ("gradient and Hessian transforms", "bell_finite_element.py")],
    ["values, gradients and Hessians of the interpolation"],
)
prop(
    "C17", "The regularized deformation is continuously differentiable",
    "For arbitrary nodal values and derivatives on any mesh, the C1 interpolation and its gradient agree across every shared edge, evaluated from either triangle, and its value along an edge from the edge evaluation equals the value from either adjacent triangle in either edge direction.",
    ["inputs"],
    "all rectangular, refined and perturbed triangulations, all nodal parameters, all interior edges and edge positions",
    "The tests compare on one fixed grid with one function.",
    ["bell_finite_element.py", "interpolation.py"],
    [("shape functions", "bell_finite_element.py"), ("C1 interpolation", "interpolation.py")],
    ["values and gradients from both sides of an edge"],
)
prop(
    "C18", "All views of an interpolation evaluate the same function",
    "The refined view of an interpolation, its evaluation at Euclidean points, and the combination of two components into a deformation with strain, second gradient and edge values all agree with evaluating the underlying interpolation at the same geometric point; entry (i, j) of the strain is the derivative of component i in direction j, and similarly for the second gradient. "
    "Euclidean evaluation outside the mesh is rejected.",
    ["inputs"],
    "all interpolation kinds, grids, refinement factors, parameters and points",
    "The tests do not touch refined or Euclidean views beyond one example.",
    ["interpolation.py", "domain.py"],
    [("refined, Euclidean and deformation wrappers", "interpolation.py")],
    ["values of the wrappers"],
)
prop(
    "C19", "Quadrature and integrators are exact and additive",
    "The triangle rules integrate all polynomials up to their nominal degree (1 to 5; the vertex rule 1) exactly and have weights summing to one and points inside the triangle, and the edge rule with n points is exact up to degree 2n-1. "
    "The integrators weight by the area (length) of each listed triangle (edge) irrespective of its orientation, visit each exactly once, and are linear and additive over disjoint parts of the mesh.",
    ["inputs"],
    "all polynomials up to the degree, all triangulations, all orientations, all numbers of edge points",
    "The tests use a few monomials on the reference triangle and never call the integrators.",
    ["quadrature_rules.py", "integrators.py"],
    [("rules", "quadrature_rules.py"), ("integrators", "integrators.py")],
    ["values of integrals"],
)
prop(
    "C20", "Tensor arithmetic is exact, pure and shape checked",
    "Vectors, matrices and 3-d tensors compute entrywise sums, differences, negation, scaling, division, maps, products, traces, determinants of any size, transposes, norms, reshapes and stacks exactly as defined in linear algebra for every entry type, without modifying their operands; conversions to numpy arrays are copies. "
    "Operands of incompatible shape, inhomogeneous data and indices out of bounds are rejected, and the 2x2 inverse is a two-sided inverse.",
    ["inputs"],
    "all shapes and entries (integers, fractions, floats), all operations",
    "The tests use one or two examples per operation.",
    ["tensors.py"],
    [("tensor classes", "tensors.py")],
    ["results and exceptions of the operations"],
)
prop(
    "C21", "Invalid requests are rejected without any effect",
    "Parameters out of range (negative temperature or regularization; non-positive radius, frame rate, scale or refinement factor; regularization without refinement factor), non-positive step counts, and state arrays of the wrong shape are rejected with an error, and the simulation or step they were given to is exactly as before. "
    "All parameters in range are accepted, and an unneeded refinement factor is ignored.",
    ["inputs", "histories"],
    "all parameter combinations, step counts and array shapes, at any point of a history",
    "The tests contain no invalid input for simulations or steps.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py"],
    [("parameter checks", "simulation.py"), ("shape checks", "mechanical_step.py"), ("shape checks", "thermal_step.py")],
    ["exceptions", "state before and after"],
)
prop(
    "C22", "Grids are equal exactly if they are the same triangulation",
    "Two grids compare equal if one is obtained from the other by renumbering vertices, reordering lists, reversing edges and cyclically rotating triangles, and they compare unequal as soon as a vertex position, an edge, a triangle, a triangle orientation or a boundary, fixed or free part differs; the comparison is reflexive and symmetric and leaves both grids unchanged.",
    ["inputs"],
    "all grids, renumberings and single modifications",
    "The tests compare one pair of grids.",
    ["domain.py"],
    [("grid equality", "domain.py")],
    ["result of the comparison"],
)
prop(
    "C23", "Plots and files show the recorded steps",
    "The plot of step i draws the deformed mesh positions and temperatures of exactly that step over all its triangles, with a common colour range from zero to the largest temperature recorded so far and axis limits that enclose exactly all recorded nodal positions; negative indices count from the end and indices out of range draw nothing. "
    "Saving step i writes one file named after its non-negative index, and the animation has one frame per recorded step in order. "
    "Plotting, saving and animating change neither the recorded steps nor how the simulation continues. "
    "Plotting a grid, on a given axis or a new one, draws every vertex and every edge exactly once at its position, inside the visible limits.",
    ["histories", "inputs"],
    "all histories, indices, both simulation kinds, and all grids",
    "No test plots a simulation.",
    ["simulation.py", "domain.py", "helpers.py"],
    [("limits and maximal temperature", "simulation.py"), ("plotting of steps", "simulation.py")],
    ["matplotlib artists, axis limits, file names"],
)
prop(
    "C24", "An interrupted run leaves the history intact and can be resumed",
    "If a solve fails or the user interrupts a run at any point, inside or outside the solver and whether or not it has altered the unknowns, all steps recorded so far remain, unchanged, the number of steps equals the number of completed time steps, and the run can be continued. "
    "Continuing yields the same problems and the same recorded steps as a run that was never interrupted.",
    ["crash_points", "histories", "fault_sequences"],
    "all failure points (each solve of each step, before or after assignment), repeated failures, run lengths, and both simulation kinds",
    "Tests never run a simulation, let alone fail one in the middle.",
    ["simulation.py"],
    [("update from the last recorded step", "simulation.py"), ("append only after both solves", "simulation.py")],
    ["Simulation.steps", "problems posed after resuming"],
)
prop(
    "C25", "Steps are faithful, isolated stores of their data",
    "After any sequence of updates and solves, a mechanical or thermal step reports exactly the data last given to it and the unknowns last computed; updating one quantity changes no other (except that a new previous state also resets the corresponding unknown), and the arrays passed in or returned are never shared with the step's state.",
    ["histories", "inputs"],
    "all sequences of updates, solves, reads and later modifications of the arrays, for all four kinds of step",
    "No test creates a step; stale or shared data only shows along sequences.",
    ["mechanical_step.py", "thermal_step.py"],
    [("update and read accessors", "mechanical_step.py"), ("update and read accessors", "thermal_step.py")],
    ["arrays returned by the accessors"],
)
prop(
    "C26", "Domain curves and drawings show the rectangle",
    "For all numbers of points and inner curves, a rectangle's curves are its evenly spaced horizontal lines from bottom to top followed by its evenly spaced vertical lines from left to right, both including the boundary sides, each sampled by the requested number of evenly spaced points including both end points; without a number of vertical curves there are as many as horizontal ones. Drawing a domain adds one rectangle of exactly its size at the origin to the given axis, or to a new one whose limits contain it, and changes neither the domain nor what was drawn before.",
    ["inputs"],
    "all rectangles and counts",
    "The tests compare one example.",
    ["domain.py"],
    [("curves", "domain.py")],
    ["returned curves"],
)
prop(
    "C27", "Simulations are isolated from each other and deterministic",
    "Simulations created and advanced in any interleaving, sharing domain, parameter or callable objects, record exactly what each would record alone, also when their inputs differ in a few respects only, and repeating a simulation with the same inputs and solver answers repeats it exactly. "
    "A simulation never modifies the domain or parameters it was given, nor does creating grids or refinements from a shared domain.",
    ["schedules", "histories"],
    "all interleavings of construction and runs of several simulations with shared or related inputs, both kinds",
    "Tests never create two simulations.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py", "domain.py"],
    [("per-simulation models and histories", "simulation.py")],
    ["Simulation.steps", "domain and parameter objects"],
)

prop(
    "C28", "Grids answer queries about exactly their own parts and grow consistently",
    "For every triangle and every edge of a grid, in the orientation in which the grid lists it, the grid returns exactly the positions of its vertices in the order of the name; names that are not listed are rejected or, for parts named in another order, answered with the right positions, and no query changes the grid. "
    "A grid to which edges are appended one by one lists each of them once, in whatever order, direction and repetition they are appended, and at every moment finds the same vertex for every point as a grid constructed with these edges at once.",
    ["inputs", "histories"],
    "all grids, all names of vertices, edges and triangles, and all sequences of additions",
    "The tests ask for a handful of vertices of one grid.",
    ["domain.py"],
    [("vertex queries", "domain.py"), ("appending edges, vertex lookup", "domain.py")],
    ["returned points and vertices", "errors", "listed edges"],
)
prop(
    "C29", "Printed tensors and steps show exactly their data",
    "The representation of a vector, matrix or three-dimensional tensor names a tensor with the same type and entries, and its text and the representation and text of a recorded step list exactly its entries in reading order, for all shapes, entry types and magnitudes.",
    ["inputs", "histories"],
    "all shapes, entry types, entries and recorded steps",
    "No test prints a tensor or a step.",
    ["tensors.py", "simulation.py"],
    [("repr and str of tensors", "tensors.py"), ("repr and str of steps", "simulation.py")],
    ["returned texts"],
)
prop(
    "C30", "The solver gets acceptable problems, and its answers are what is recorded",
    "For every choice of fixed sides, also all of them, every step and simulation can be computed: each problem handed to the ipopt process has at least one unknown, continuous unknowns only, no more equations than unknowns, and an objective with first and second derivatives at its starting values and other admissible states. "
    "What the process reads (unknowns, start values, bounds, equations, objective) is the discrete energy of the current step with its constraints, started at the previous state, and exactly the values it writes are reported and recorded (temperatures that are below zero by the solver's tolerance for bounds as zero, so that the simulation can go on); nothing else changes, and a body without free vertices does not move. "
    "If the process crashes or reports a failure the caller is told, no step is recorded, and the next run continues from the last recorded step.",
    ["configurations", "histories", "fault_sequences"],
    "all meshes, fixed sides, both kinds of step, sequences of updates and runs, answers of the process and points at which it crashes or fails",
    "No test calls the solver; whether the written problem is acceptable depends on which sides are fixed.",
    ["mechanical_step.py", "thermal_step.py", "simulation.py"],
    [("solve", "mechanical_step.py"), ("posing of the conditions on fixed sides", "mechanical_step.py"), ("solve", "thermal_step.py"), ("run", "simulation.py")],
    [".nl file written for the solver", "Simulation.steps", "errors"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
