#!/usr/bin/env python3
# Single source of the property list: writes /verif/properties.jsonl and /verif/MANIFEST.json.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MD = "src/LinearAlgebra/Models/"; SV = "src/LinearAlgebra/Solvers/"; CT = "src/FEM/Controller/"; EQ = "src/FEM/Equation/"
OS = "src/Optimize/Solver/"; OF = "src/Optimize/Filter/"; ME = "src/PrePost/Mesher/"; IM = "src/PrePost/Import/"; EX = "src/PrePost/Export/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or []))

prop("P01", "Valid use is free of memory errors, undefined behaviour and leaks",
 "Any program that uses the library within its documented preconditions (containers and their copies, sparse matrices, solvers, element routines, assembly and boundary conditions, optimisers and filters, mesh generators, file import and export) runs without out-of-bounds or use-after-free access, double free, leak, read of uninitialised memory, undefined behaviour or internal assertion failure, and every call returns.",
 ["inputs", "programs", "histories"], "all valid call sequences and arguments of every public header",
 "The samples run one fixed input each in an uninstrumented -O3 build; an overrun that lands in slack memory, a leak or an uninitialised read leaves their outputs unchanged.",
 [MD+"Vector.h", MD+"Matrix.h", MD+"CSR.h", MD+"LILCSR.h", SV+"CG.h", CT+"Assembling.h", OS+"MMA.h", ME+"Delaunay.h", IM+"ImportFromVTK.h"],
 [("hand-written copy control of the dense containers", MD+"Matrix.h"), ("hand-written index arithmetic over row pointers and flat arrays", MD+"CSR.h"), ("raw arrays inside the optimisers and the mesher", ME+"Delaunay.h")],
 "AddressSanitizer, UBSan, LeakSanitizer and valgrind memcheck over the randomized workloads of all drivers",
 "Held on the executions generated; red-zone tools do not see intra-object or non-adjacent overflows, and memcheck runs a reduced workload.")

prop("P02", "Dense vectors and matrices obey linear algebra and value semantics",
 "For all shapes and values, every operation on dense vectors and matrices (construction, assignment, sums, differences, negation, scaling, dot, cross and outer products, matrix-matrix and matrix-vector products, norm, normalisation, transpose, stacking, segments, blocks, identity, diagonal, minors, printing) returns exactly the shape and, up to rounding, the values of its mathematical definition. Objects are values: no operation changes its operands (compound assignments change only their left side), and copies, self-assignment and operations whose arguments alias stay correct through any history.",
 ["inputs", "histories"], "all shapes, values, aliasing patterns and sequences of operations",
 "The one linear-algebra program prints a few small square results and its output is not compared.",
 [MD+"Vector.h", MD+"Matrix.h"], [("element-wise loops over a flat row-major array", MD+"Matrix.h"), ("deep-copying copy constructor and assignment", MD+"Vector.h")],
 "shadow-model monitor: every operation of random histories is compared with a long-double model, under ASan+UBSan", "Held on the generated histories only.")

prop("P03", "Determinant, inverse and LU factorisation are exact up to rounding",
 "For every non-singular square matrix the determinant equals the true determinant, the inverse multiplied by the matrix gives the identity, and LU factorisation followed by the triangular solve returns the solution of the linear system, whatever zero or tiny pivots, row orders, signs or scales the matrix has. A factorisation may be reused for any number of right-hand sides.",
 ["inputs", "histories"], "all non-singular matrices (conditioning bounded relative to the tolerance), all right-hand sides",
 "One fixed LU system is solved by the test program and nobody compares its output; determinants are only exercised for well-shaped Jacobians.",
 [MD+"Matrix.h", SV+"LU.h"], [("closed forms up to 3x3 and cofactor expansion", MD+"Matrix.h"), ("row pivoting recorded in a permutation", SV+"LU.h")],
 "runtime oracle comparison: random, permuted, graded and structured matrices against long-double elimination", "Tolerance scales with the condition number; near-singular matrices are excluded.")

prop("P04", "Sparse matrices behave as finite maps under any history of operations",
 "After any sequence of set, read, conversion between the two sparse formats, addition, subtraction, scaling and product with a vector, a sparse matrix holds exactly the values a map from (row, column) to number would hold: unset entries read as zero, the last set wins, and conversions and arithmetic lose, duplicate or move nothing. Products equal the dense product, and operands are unchanged.",
 ["inputs", "histories"], "all dimensions, sparsity patterns (empty rows, full rows, empty matrices), values and operation sequences",
 "Tests reach the sparse types only through assembly of a few regular meshes, always with the same insertion order.",
 [MD+"CSR.h", MD+"LILCSR.h"], [("sorted per-row lists with ordered insertion", MD+"LILCSR.h"), ("prefix-sum row pointers and search within a row", MD+"CSR.h")],
 "history monitor: each operation checked online against a std::map model, under ASan+UBSan", "Held on the generated histories only.")

prop("P05", "Parallel execution is race-free and gives the serial answer",
 "For every thread count and schedule, the parallel parts of the library access no memory location concurrently without synchronisation when at least one access writes, and every sparse product, solver and complete analysis returns the same answer as a single-threaded run up to rounding. Threads that work on separate objects (matrices, solvers, assembly, optimisers, filters, meshers) do not influence each other.",
 ["schedules", "inputs", "configurations"], "all interleavings, thread counts 1..n and matrix sizes",
 "The test suite pins one OpenMP thread.",
 [MD+"CSR.h", SV+"CG.h"], [("OpenMP parallel-for over rows with private accumulators", MD+"CSR.h")],
 "ThreadSanitizer on an instrumented OpenMP runtime with injected scheduling delays, plus thread-count differential monitor", "Interleavings are sampled; a race is reported when both accesses execute in a sampled run (happens-before based).")

prop("P06", "Iterative linear solvers return true solutions or say they failed",
 "For every conforming system, a Krylov solver (conjugate gradient and BiCGSTAB families, with any preconditioner) that does not report non-convergence returns a vector whose true relative residual meets the requested tolerance (up to rounding), for any iteration limit. For well-conditioned systems of any size and scale (symmetric positive definite for the conjugate gradient family and relaxation, diagonally dominant non-symmetric too for the BiCGSTAB family with a generic right-hand side) every solver does converge within the iterations it is allowed. Neither the matrix nor the right-hand side is changed, a zero right-hand side yields the zero vector, and the answer does not depend on earlier solves.",
 ["inputs", "histories"], "all conforming systems, right-hand sides, tolerances and iteration limits; conjugate gradient variants on SPD systems, BiCGSTAB variants on non-symmetric ones",
 "Each test solves one fixed system; a solver that stops early still exits 0.",
 [SV+"CG.h"], [("Krylov recurrences with residual-ratio stopping test", SV+"CG.h"), ("relaxation sweeps with update-size stopping test", SV+"CG.h")],
 "residual monitor on the returned vector plus a monitor of the printed non-convergence report, randomized systems", "Residual tolerance is loosened by the rounding gap between recurrence and true residual.")

prop("P07", "Preconditioners are exact incomplete factorisations and diagonal scalings",
 "For every sparse matrix with non-zero pivots, zero fill-in factorisation yields triangular factors with the pattern of the matrix whose product reproduces the matrix on that pattern; applying the preconditioner solves with exactly those factors, and for matrices without fill-in (tridiagonal, triangular, diagonal) it is the exact inverse. Diagonal extraction returns the matrix diagonal, applying the scaling divides by it, and every preconditioned solver returns the solution of the original system. The matrix is not changed.",
 ["inputs"], "all sparse patterns and values with non-zero pivots",
 "Tests only see the final field of a converged solve; a wrong preconditioner merely changes the iteration count.",
 [SV+"CG.h"], [("row-wise incomplete elimination restricted to the pattern", SV+"CG.h"), ("forward and backward substitution", SV+"CG.h")],
 "runtime oracle: factors and applied preconditioner compared with a dense model factorisation", "Held on generated matrices.")

prop("P08", "Eigenvalue solvers return true eigenpairs",
 "For every real symmetric matrix, and symmetric pencil with positive definite mass matrix, with separated eigenvalues, the eigenvalue solvers run with as many steps as unknowns return the whole spectrum with vectors satisfying the eigen-equation of the paired value; with fewer steps all returned values lie within the range of the spectrum and, for the shifted solvers, the value next to the shift is a true eigenpair of the given problem. Tridiagonal bisection finds every requested eigenvalue and inverse iteration its unit eigenvector.",
 ["inputs"], "symmetric matrices, pencils, numbers of requested pairs and shifts",
 "Two test programs print eigenvalues of one fixed matrix without comparison.",
 [SV+"Lanczos.h"], [("three-term recurrence with re-orthogonalisation", SV+"Lanczos.h"), ("Sturm-sequence bisection and inverse power iteration", SV+"Lanczos.h")],
 "residual and spectrum monitor against a dense Jacobi reference", "Lanczos may lawfully skip eigenvalues orthogonal to its start vector; multiplicities are excluded.")

prop("P09", "Shape functions are nodal interpolants with consistent derivatives",
 "Every element shape-function family equals one at its own node and zero at the others, sums to one and reproduces every linear field at every point of the element, and quadratic families reproduce their complete quadratic polynomials. The reported derivatives are the exact derivatives of the reported values at every point.",
 ["inputs", "configurations"], "all families, all local coordinates inside and outside the element",
 "Samples evaluate shape functions only at fixed integration points of the families they use; several families are in no compared sample.",
 [CT+"ShapeFunction.h"], [("explicit polynomial formulas per family", CT+"ShapeFunction.h")],
 "point-sampled monitor: nodal, partition-of-unity, polynomial-reproduction and complex-step-free derivative oracles", "Held on sampled points; polynomials of low degree are determined by far fewer points than are sampled.")

prop("P10", "Quadrature rules are exact to their advertised degree",
 "Every integration rule has weights that add up to the measure of its reference element, points inside (or on) it, and integrates every polynomial up to the degree of the rule exactly; one-dimensional rules with n Gauss points are exact to degree 2n-1 and tensor and simplex rules to their corresponding degree.",
 ["inputs", "configurations"], "all rules and all polynomials up to the degree of each rule",
 "Samples that use a rule integrate only the particular integrands of their element on regular meshes.",
 [CT+"GaussIntegration.h", CT+"NewtonCotesIntegration.h"], [("tabulated points and weights", CT+"GaussIntegration.h")],
 "exhaustive monomial oracle plus random polynomials over every rule", "The finite set of rules and monomials is enumerated completely.")

prop("P11", "Assembly is the exact sum of element contributions",
 "The assembled sparse matrix and load vector equal, entry for entry up to rounding, the sum of all element contributions at the global equation numbers of their degrees of freedom, with constrained degrees of freedom moved to the right-hand side with their prescribed values; boundary loads add at the loaded degree of freedom and nowhere else. The result does not depend on the order in which elements are assembled, for any numbering, number of unknowns per node, mixed fields and repeated assembly into the same objects.",
 ["inputs", "histories"], "all meshes, numberings, constraint sets, mixed-field layouts and assembly orders",
 "Samples assemble a handful of regular meshes with one ordering, and errors in mixed layouts are visible in none of the compared files.",
 [CT+"Assembling.h", MD+"LILCSR.h"], [("scatter of element matrices through node-to-equation maps", CT+"Assembling.h")],
 "reference-model monitor: dense summation of random element matrices with random maps", "Held on generated meshes and maps.")

prop("P12", "Boundary conditions constrain exactly the degrees of freedom they name",
 "After applying any set of prescribed values and periodic pairs (a slave node takes the equations of its master, chains being listed master first) and renumbering, every free degree of freedom has its own equation number in a gap-free range, prescribed ones have none and keep exactly their prescribed value, paired ones share one equation, and the reported number of equations is the number of distinct free unknowns. Distributing a solution vector writes each free degree of freedom its own unknown and leaves prescribed ones untouched; removing the conditions frees everything again.",
 ["inputs", "histories"], "all sets of constraints and pairs, orders of application, numbers of degrees of freedom per node",
 "Each sample has one fixed constraint set; a mistake in one rare combination (pair of fixed nodes, chain of pairs, no free unknowns) shows in none.",
 [CT+"BoundaryCondition.h", CT+"Assembling.h"], [("renumbering pass over the node-to-equation map", CT+"BoundaryCondition.h")],
 "history monitor: union-find model of constraints against observed numbering and scattered solution", "Held on generated histories.")

prop("P13", "Geometry and load integrals match the geometry of the mesh",
 "Element lengths, areas and volumes and integrals of a function over an element computed by the general routines equal the exact values for every non-degenerate element wherever the rule is exact for the integrand, the centre of an element is the average of its nodes, element values from nodal ones and nodal values from element ones are plain averages, and integrating a surface traction, pressure or body load over any element gives nodal forces whose resultant and moment are those of the distributed load.",
 ["inputs"], "all element families, distorted and curved geometries, load fields",
 "Samples check displacements of a regular mesh; a wrong resultant on skewed or curved edges is never visible.",
 [EQ+"General.h", EQ+"PlaneStrain.h", EQ+"Solid.h"], [("isoparametric Jacobian integration", EQ+"General.h")],
 "geometric oracle: closed-form areas, volumes, resultants and moments on random elements and meshes", "Held on generated geometries.")

prop("P14", "Elastic stiffness matrices are symmetric with exactly the rigid-body kernel",
 "For every valid material, every non-degenerate element geometry and every elastic element (plane strain including its reduced-integration and volumetric-locking variants, plane stress, solid, truss, beam, shell), the element stiffness is symmetric, positive semi-definite, and produces zero nodal force for every rigid translation and infinitesimal rotation. With full integration no other deformation is free of energy (except the drilling rotation of six-unknown shells). Weak-spring matrices are the given factor times the identity.",
 ["inputs"], "all materials, geometries, element families and integration rules",
 "Only end displacements of one mesh per element are compared, and shell, and most plane variants, are never compared.",
 [EQ+"PlaneStrain.h", EQ+"PlaneStress.h", EQ+"Solid.h", EQ+"Truss.h", EQ+"Beam.h", EQ+"Shell.h"], [("B^T D B integration", EQ+"PlaneStrain.h")],
 "algebraic monitor on element matrices: symmetry, eigenvalue sign, rigid-motion forces, rank", "Held on generated elements.")

prop("P15", "Elements reproduce constant strain exactly (patch test) and scale linearly",
 "On any distorted mesh patch, a linear displacement field gives zero net force at interior nodes and the boundary forces and strain energy of the exact constant stress of the material law, for plane strain, plane stress, solid, truss, beam and shell elements integrated with a sufficient rule (incompatible-mode elements on parallelograms). Stiffness is proportional to modulus and thickness or cross-section, and obeys the constitutive law for every admissible Poisson ratio.",
 ["inputs"], "all linear fields, distorted patches, materials",
 "Regular meshes hide errors that appear only on distorted ones; the compared fields have tolerance and fixed parameters.",
 [EQ+"PlaneStrain.h", EQ+"PlaneStress.h", EQ+"Solid.h", EQ+"Truss.h", EQ+"Beam.h"], [("constitutive matrices and isoparametric B matrices", EQ+"PlaneStrain.h")],
 "patch-test monitor: element energy and nodal forces against closed-form constant-stress values", "Held on generated patches.")

prop("P16", "Element results do not depend on node numbering or coordinate frame",
 "Permuting an element's nodes by a symmetry of its reference shape only permutes its matrices; translating the geometry leaves them unchanged and rotating it transforms them by that rotation, for all elastic, thermal and flow element matrices with isotropic data.",
 ["inputs"], "all geometries, rotations, translations and symmetric renumberings",
 "Every sample fixes one frame and one node order.",
 [EQ+"PlaneStrain.h", EQ+"PlaneStress.h", EQ+"Solid.h", EQ+"Truss.h", EQ+"Beam.h", EQ+"Shell.h", EQ+"HeatTransfer.h", EQ+"Stokes.h"], [("isoparametric mapping", CT+"ShapeFunction.h")],
 "metamorphic monitor: element matrices recomputed in transformed frames and orders", "Held on generated transformations.")

prop("P17", "Mass and capacity matrices carry exactly the mass of the element",
 "Consistent and lumped mass and capacity matrices of elastic, thermal, transport and flow elements are symmetric positive (semi-)definite, their entries for each unknown sum to density times measure (times thickness), entries coupling different unknowns vanish, and lumped matrices are diagonal with the same total.",
 ["inputs"], "all geometries, densities, thicknesses and families",
 "No compared sample checks a total; a wrong factor rescales time or frequency, which only one uncompared sample uses.",
 [EQ+"PlaneStrain.h", EQ+"Solid.h", EQ+"HeatTransfer.h", EQ+"Stokes.h", EQ+"Advection.h", EQ+"NavierStokes.h"], [("N^T N integration", EQ+"PlaneStrain.h")],
 "conservation monitor: row sums and totals against exact measure", "Held on generated elements.")

prop("P18", "Nonlinear elements: tangent is the derivative of the internal force",
 "For every geometry, displacement state and material, the tangent stiffness of the finite-deformation elements is the derivative of their internal force, both linearise to the small-strain element at zero displacement, and a superposed rigid motion of any size changes no strain energy and only rotates the forces. An undeformed or rigidly moved body has zero internal force. The tangent of a follower pressure is the derivative of the pressure load, summed over a closed boundary.",
 ["inputs"], "all displacement states with positive volume, materials, thicknesses",
 "Newton iterations converge to the same answer with a wrong tangent, only slower; rigid rotations occur in no sample.",
 [EQ+"PlaneStrain.h", EQ+"Solid.h"], [("total and updated Lagrange formulations", EQ+"Solid.h")],
 "directional-derivative and objectivity monitor on element residual and tangent", "Finite-difference accuracy bounds the tangent comparison.")

prop("P19", "Scalar transport elements conserve and reproduce exact fields",
 "For every geometry and coefficient, diffusion-type matrices are symmetric positive semi-definite with zero flux for constant fields and the exact flux and energy of linear fields; advection matrices annihilate constants and reproduce the exact directional derivative of linear fields, stabilised variants add only terms that vanish for the exact solution and shrink to the plain form when stabilisation does not apply.",
 ["inputs"], "all geometries, coefficients, velocity fields and families",
 "Each compared sample uses one mesh and one velocity.",
 [EQ+"HeatTransfer.h", EQ+"Advection.h", EQ+"ReactionDiffusion.h"], [("Galerkin and SUPG integrals", EQ+"Advection.h")],
 "closed-form field monitor: element matrices applied to constant and linear fields", "Held on generated elements.")

prop("P20", "Flow elements satisfy the discrete Stokes and Navier-Stokes identities",
 "For every geometry and state, the viscous part of the flow matrices is symmetric and free of force for rigid motions, pressure-velocity coupling blocks are transposes of each other up to sign and measure the exact divergence, hydrostatic pressure does no work on divergence-free linear fields, the operators of the fractional-step scheme are the advection, diffusion, divergence, gradient and Laplacian operators they stand for, stabilisation terms vanish for the exact solution, the Newton tangent of the nonlinear flow residual is its derivative, and the adjoint momentum operator is the transpose of that tangent.",
 ["inputs"], "all geometries, velocity and pressure states, viscosities and families",
 "Only one flow sample runs in the tests, without comparison.",
 [EQ+"Stokes.h", EQ+"NavierStokes.h"], [("mixed velocity-pressure integrals", EQ+"Stokes.h")],
 "identity and directional-derivative monitor on element matrices", "Held on generated elements.")

prop("P21", "Homogenisation of a uniform cell returns the material itself",
 "For every unit-cell mesh, periodic pairing and homogeneous material the homogenised elasticity matrix equals the material's own, for every two-phase cell it is symmetric and lies between the Reuss and Voigt bounds, and layered cells give the exact laminate values.",
 ["inputs"], "all cell meshes, phase layouts and moduli",
 "One fixed cell is compared.",
 [EQ+"Homogenization.h", CT+"BoundaryCondition.h"], [("characteristic displacement load and energy integral", EQ+"Homogenization.h")],
 "end-to-end monitor against closed-form mixture and laminate bounds", "Held on generated cells.")

prop("P22", "End-to-end solves reproduce exact solutions",
 "For any mesh produced by the library's generators, under any affine map and numbering, and any boundary data taken from a field the elements can represent (linear displacement, linear temperature with or without time steps, linear advected field, linear Stokes flow, shear Navier-Stokes flow, linear finite deformation), the pipeline of mesh, element matrices, boundary conditions, assembly, solver and scatter returns that field at every node, whichever solver is used. For arbitrary loads and constraints it returns the solution of the discrete problem, reactions balance the loads, and the vibration analysis returns the lowest eigenpair. A cantilever of beam elements anywhere in space takes exactly the displacements and rotations that statics gives at its nodes, with support reactions in balance, and a flat shell reproduces prescribed membrane strain, curvature and rigid motion.",
 ["inputs", "configurations"], "all generated meshes, boundary data, material data, element and solver choices",
 "Samples run one configuration and compare against an earlier run, not against truth.",
 [CT+"Assembling.h", CT+"BoundaryCondition.h", SV+"CG.h", EQ+"PlaneStrain.h", EQ+"HeatTransfer.h", EQ+"Beam.h", EQ+"Shell.h", ME+"SquareMesh.h"], [("the documented solution pipeline", CT+"Assembling.h")],
 "end-to-end exact-solution monitor over randomized configurations", "Held on generated boundary value problems.")

prop("P23", "Optimiser updates respect bounds and move limits and reach known optima",
 "Every update of the optimisers keeps every design variable finite, within its bounds and within its move limit, for any history of objective and constraint values; on convex separable problems with a known constrained optimum (compliance against weight and weight against compliance types) repeated updates converge to that optimum and satisfy the constraints. Two optimiser objects never influence each other.",
 ["inputs", "histories"], "all problem data, starting points, bounds and update histories",
 "The test programs run three toy problems and print; the density samples compare one trajectory.",
 [OS+"MMA.h", OS+"CONLIN.h", OS+"OC.h"], [("moving-asymptote subproblem with interior-point solve", OS+"MMA.h"), ("bisection on the multiplier", OS+"OC.h")],
 "history monitor on successive iterates against bounds and analytic optima", "Convergence is checked as bounded progress: within a fixed number of updates.")

prop("P24", "Each approximate subproblem is solved to optimality",
 "Every update of MMA and CONLIN returns the minimiser of the convex separable approximation built from the supplied values and gradients with the documented asymptote, move-limit and constraint-relaxation rules, for any number of constraints, active sets and history; equivalently the returned point satisfies the optimality conditions of that approximation. The optimality-criteria update is the bounded and move-limited fixed-point update for a multiplier that satisfies the constraint to the bisection accuracy.",
 ["inputs", "histories"], "all values, gradients, histories and parameter settings",
 "A slightly wrong subproblem still drives the toy problems to their optimum.",
 [OS+"MMA.h", OS+"CONLIN.h", OS+"OC.h"], [("primal-dual interior point iteration", OS+"MMA.h"), ("asymptote update from the sign of successive moves", OS+"MMA.h")],
 "shadow-state monitor: asymptotes tracked online, dual optimality of the returned point checked by an independent solver", "Tolerance reflects the interior-point barrier used by the code.")

prop("P25", "Filters average, preserve bounds and differentiate consistently",
 "For every neighbourhood structure and positive weights, filtered variables are weighted averages of their neighbours: constants stay constant, results stay within the neighbours' range, and the projection is monotone and maps bounds to bounds for every sharpness. The filtered sensitivity is the exact derivative of any function of the filtered variables with respect to the design variables.",
 ["inputs", "histories"], "all neighbourhoods, weights, designs, sensitivities and sharpness values",
 "Density samples use one regular mesh, where weights are nearly uniform.",
 [OF+"DensityFilter.h", OF+"HeavisideFilter.h", OF+"SensitivityFilter.h"], [("normalised neighbour sums and smooth projection", OF+"HeavisideFilter.h")],
 "averaging oracle and directional-derivative monitor on random neighbourhood graphs", "Held on generated graphs.")

prop("P26", "Convergence is reported exactly when the objective has settled",
 "Each optimiser's convergence test reports convergence if and only if the change between the objective value handed to it and that of the previous update, relative to the magnitude of their sum, is below its tolerance, for objectives of any sign and magnitude and any history, and never before the first update.",
 ["inputs", "histories"], "all sequences of objective values",
 "Tests never look at when the loop stops.",
 [OS+"MMA.h", OS+"CONLIN.h", OS+"OC.h"], [("comparison with the stored previous objective", OS+"MMA.h")],
 "trace monitor over random and adversarial objective sequences", "Sequences within rounding of the threshold are not judged.")

prop("P27", "Mesh generators tile their domain with valid, conforming elements",
 "For all sizes, divisions and gradings, every structured mesh generator returns nodes at the positions of its grid without duplicates, elements with valid distinct node numbers, positive orientation and areas adding up exactly to the domain, neighbouring elements sharing whole edges, every node used, boundary edge lists covering the boundary (the outer boundary for the graded square ring) exactly once, and quadratic meshes that extend the linear ones by midside nodes on the middle of their edges. Ground-structure generators connect every pair of grid points within the length limit exactly once.",
 ["inputs"], "all dimensions, division counts, ratios and radii",
 "The mesher test writes one mesh of each kind without comparing it.",
 [ME+"SquareMesh.h", ME+"AnnulusMesh.h", ME+"SquareAnnulusMesh.h", ME+"SquareCircleAnnulusMesh.h", ME+"GrandStructure.h"], [("index arithmetic over structured grids", ME+"SquareMesh.h")],
 "structural-invariant monitor on every generated mesh: Euler, area, orientation, conformity, boundary cover", "Held on generated parameters.")

prop("P28", "Boundary selection picks exactly the entities that satisfy the criterion",
 "The constraint-list, element and edge selectors of the mesh generators return every node that satisfies the caller's predicate, every element all of whose corner nodes do and every boundary edge both of whose ends do, each requested degree of freedom of a node exactly once with the value zero, and nothing else.",
 ["inputs"], "all meshes, predicates and degree-of-freedom sets",
 "Samples select straight edges of regular meshes.",
 [ME+"SquareMesh.h", ME+"AnnulusMesh.h", ME+"SquareAnnulusMesh.h", ME+"SquareCircleAnnulusMesh.h", ME+"Delaunay.h", ME+"GrandStructure.h"], [("coordinate recomputation per node inside the selector", ME+"SquareMesh.h")],
 "set-equality monitor: selector output against predicate evaluated on the generated nodes", "Predicates are given a margin so that nodes within rounding of their threshold are not judged.")

prop("P29", "Unstructured triangulations are valid meshes of the region within the size limit",
 "For any simple polygonal outlines (clockwise, one or several separate ones) with any number of well separated polygonal holes inside (counterclockwise), at any scale and with any corner as the first one, the triangulator returns positively oriented, non-overlapping, conforming triangles that cover the region exactly and nothing outside it, keep the given points as the first nodes in their order, and list every boundary edge exactly once along the outline; no boundary edge is longer than the size limit, no interior edge longer than one and a half times it, and the number of triangles stays within a constant multiple of what the size limit needs. The same input gives the same mesh.",
 ["inputs"], "all polygons, holes and size limits",
 "One fixed polygon is triangulated by a test without looking at the result, one more by the heat samples.",
 [ME+"Delaunay.h"], [("incremental insertion with edge flips, boundary recovery and outside removal", ME+"Delaunay.h")],
 "geometric-invariant monitor on every triangulation", "Corners keep a distance of at least one hundredth of the size of the region from sides they do not belong to.")

prop("P30", "Files round-trip: what is written or read is what was given",
 "Meshes, scalar and vector fields written to a result file appear in it completely, in order, in valid legacy format with correct counts, and reading it (or a model written by another program) back yields the same nodes, elements and fields to the written precision, in whichever order and however often the sections are asked for; a field that is not there gives nothing. Reading model and condition tables from CSV appends exactly the tabulated nodes, elements, prescribed values, loads and pairs and sets exactly the tabulated initial values, with free and missing entries skipped; a file that does not exist is reported and changes nothing.",
 ["inputs"], "all meshes, fields, element mixes, row counts and table contents",
 "Samples compare the value arrays of a few regular meshes; import is covered by a program that does not compile.",
 [EX+"ExportToVTK.h", IM+"ImportFromVTK.h", IM+"ImportFromVTK2.h", IM+"ImportFromCSV.h"], [("line-oriented writers and readers", EX+"ExportToVTK.h")],
 "independent file parser as oracle plus import round-trip monitor", "Held on generated files.")

prop("P31", "Design analyses give exact derivatives and reach the best design",
 "For any mesh, supports, loads, material and design, the chain density filter, material interpolation, element matrices, assembly, solve, reactions, element sensitivities and filter adjoint returns the compliance and weight of that design and their exact derivatives with respect to every design variable, for elastic bodies, heat conduction and trusses, with and without filters and whichever solver is used. Optimisation loops built from it keep every design finite and within its bounds, end within the weight limit, and on compliance problems that are convex reach the least compliance.",
 ["inputs", "configurations", "histories"], "all meshes, boundary conditions, materials, filters, designs, optimisers and starting points",
 "The density samples follow one trajectory each and compare it with an earlier run; a wrong derivative still descends.",
 [OF+"DensityFilter.h", OF+"HeavisideFilter.h", OS+"MMA.h", OS+"CONLIN.h", OS+"OC.h", CT+"Assembling.h", EQ+"Truss.h"], [("the chain of the optimisation samples", CT+"Assembling.h"), ("the optimiser loop", OS+"MMA.h")],
 "end-to-end monitor: independent design model, difference quotients, equilibrium, and certified optimality gap of recorded design histories", "The best design of a history is judged against a dual bound, within a fixed number of updates.")

prop("P32", "Time marching and load stepping keep what the equations keep",
 "Marching the element matrices as the shipped programs do: periodic transport keeps the total amount, keeps a uniform field, advances plane waves on regular grids by their amplification factor, keeps the energy of pure advection under the midpoint rule and never raises it otherwise; reaction-diffusion changes the amount only by what reacts; the fractional-step flow solver keeps uniform and shear flows and computes each step exactly; unsteady Stokes flow between walls at rest stays divergence-free and never gains kinetic energy; finite-deformation analyses under small enough dead loads converge, are independent of the number of load steps, balance forces and moments in the deformed position, and return when unloaded.",
 ["inputs", "histories"], "all meshes, initial states, step sizes, numbers of steps, schemes and materials",
 "The dynamic samples run one history and compare pictures of it; single element matrices say nothing about a history.",
 [EQ+"Advection.h", EQ+"ReactionDiffusion.h", EQ+"NavierStokes.h", EQ+"Stokes.h", EQ+"PlaneStrain.h", EQ+"Solid.h", CT+"Assembling.h"], [("theta-scheme marching of assembled element matrices", EQ+"Advection.h"), ("projection steps", EQ+"NavierStokes.h"), ("Newton load steps", EQ+"Solid.h")],
 "history monitor on conserved, steady and dissipated quantities of recorded time and load histories, plus an independent step computation", "Held on generated histories of at most 25 steps.")

CLAIMED = None
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"] or ["return values and outputs of the public functions in the anchor files"], "hook_needed": None}}) + "\n")
    sys.path.insert(0, HERE)
    import vrun
    checks, na = [], []
    for p in P:
        if p["id"] in vrun.PLAN:
            checks.append({"property": p["id"], "quick_cmd": "python3 vrun.py %s quick" % p["id"], "thorough_cmd": "python3 vrun.py %s thorough" % p["id"],
              "technique": p["technique"], "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 vrun.py setup", "checks": checks, "not_applicable": na,
         "notes": "Checks compile the drivers in /verif/drivers against /repo's headers on every run; see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
