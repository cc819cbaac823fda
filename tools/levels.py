CK = ("The checkpoint state machine (files, handles, typed entries, stored bases) is model-checked exhaustively on a small instance; every transition of a bounded instance plus long random "
      "walks over all value kinds are replayed on the real class and every recorded step is judged by TLC against the specification. Trusts HDF5, the driver's token/value mapping and the bounds.")
NOTE["C01"] = ("replay of all transitions of the bounded model and trace validation of open state and leaked file objects", CK)
NOTE["C02"] = ("replay and trace validation of fetched values, bit for bit, for every kind and precision", CK)
NOTE["C03"] = ("replay and trace validation of construction, permission and misuse outcomes and final content", CK)
NOTE["C04"] = ("replay and trace validation of basis stores and fetches over enumerated configurations and random histories", CK)
FEN = ("The finite-element bookkeeping (numbering, boundaries, refinement) is model-checked exhaustively on small instances; generated histories over all primitive families, orders, "
       "end conditions and grids run on the real class and every recorded answer is judged by TLC. Floating-point values are reduced to exact verdicts with stated tolerances by the driver; inputs are bounded samples.")
NOTE["F01"] = ("trace validation of index ranges, counts and end behaviour over enumerated families, orders and end conditions", FEN)
NOTE["F02"] = ("replay of refinement histories generated from the specification", FEN)
NOTE["F03"] = ("trace validation of point location with integer-coded positions", FEN)
NOTE["F04"] = ("trace validation of the nodal and continuity pattern evaluated at element boundaries", FEN)
NOTE["F05"] = ("trace validation of assembled matrices with integer-valued element contributions and the support pattern", FEN)
NOTE["G01"] = ("trace validation of generated grids over random parameter combinations", "The grid specification is checked on a small instance; random requests over all kinds, models and parameters run on the real generator and the reported boundaries are judged by TLC. Monotonicity and endpoint comparisons are exact up to rounding.")
TD = ("The two-dimensional index structure (channels x radial functions, symmetry blocks, mirror partners, couplings) is model-checked exhaustively for small channel lists; random channel lists, settings, "
      "charges and radial bases run on the real classes and every recorded answer is judged by TLC. Matrix entries count as zero below a relative 1e-10.")
NOTE["B01"] = ("trace validation of symmetry blocks, labels and mirrors", TD)
NOTE["B02"] = ("trace validation of index lists, padding and stripping with integer-valued matrices", TD)
NOTE["B03"] = ("trace validation of generated channel lists, exhaustive over small limits", TD)
NOTE["Y02"] = ("trace validation of the block sparsity of operator matrices against the selection rules", TD)
SC = ("Electron counting and the density/Fock bookkeeping of the drivers are specified as functions and a small state machine (electron conservation, symmetry, mirror evenness model-checked). Random block partitions with empty, "
      "interleaved and mirrored blocks run through the real driver building blocks with integer data, compared exactly by TLC; eigenproblems use planted spectra. OpenOrbitalOptimizer itself is replaced by its type aliases.")
NOTE["E01"] = ("exhaustive replay over a bounded range of integer requests plus random large ones, judged by TLC", SC)
NOTE["E02"] = ("exact trace validation of integer densities, Fock blocks, metadata, load/save round trips", SC)
NOTE["E03"] = ("trace validation of blocked eigenproblems with planted spectra and of orthogonalisers of real bases", SC)

NOTE["P01"] = ("trace validation of the option parser over random declarations and command lines", "The parser is specified character by character (long, short, combined, =, separate values, positional, quoting) and its spelling laws are model-checked over all short argument lists of a pool; random declarations and command lines run on the real parser, and every outcome, value and positional list is judged by TLC. Values come from a table of strings; consecutive blanks in the one-string form are excluded.")
NOTE["Y01"] = ("trace validation of coupling lookups against exact rationals computed in TLA+", "The specification computes the integral of three spherical harmonics exactly (sign and rational square) from binomials, its symmetries are model-checked, and every lookup of random tables and windows (plus all lookups of small tables) in three precisions is judged by TLC, to 1e-8 in the square. l up to 6. wignernj is replaced by a stand-in.")
NOTE["T01"] = ("trace validation of preparation histories: every answer is recognised among reference results", "The preparation history is a small state machine, model-checked; random histories run on atomic, diatomic and averaged bases and each result is identified with the operator whose freshly prepared reference it equals; TLC compares with the state. Small bases, three parameters per screened operator.")
NOTE["T02"] = ("exact trace validation of reordered blocks", "The permutation and its order three are model-checked over all small sizes; real blocks of integers in three precisions, including empty, unit and inconsistent sizes, are compared element by element by TLC.")
NOTE["T03"] = ("trace validation of electrostatic identities and brute-force kernels", "Residuals of exact identities (reciprocity, one-electron cancellation, closed shells, Gauss law, screening order) and of brute-force double integrals are recorded from the real bases for random densities and judged by TLC against bounds; the error-function kernel to 1e-3 because the library integrates its cusp by plain quadrature.")

NOTE["X01"] = ("trace validation of resolution and classification against the functional library's own catalogue", "The catalogue is read from the library and loaded into the specification; resolution of strings is specified character by character and its spelling laws model-checked; every functional in several spellings, random pairs and junk, and every number up to 1000 run on the real code and every outcome is judged by TLC. Numbers followed by other characters are left open.")
NOTE["L01"] = ("trace validation of lookups against the periodic table, the aufbau rule and the published table", "The periodic table, the aufbau order and the published GSZ parameters are written in the specification and their laws model-checked; all words of up to two letters in several cases, all numbers around the tables, and random queries run on the real code and are judged by TLC. The wave-function database runs on stand-in data (the generated table is not in the repository).")

DF = ("The specification fixes which basis tables each functional needs, which requests are refused and what evaluations leave behind (model-checked); generated evaluation histories and random densities run on the real grid classes, "
      "and derivative, symmetry, additivity and integral residuals are reduced to bounds judged by TLC. Ten functionals of four kinds; small bases; libxc as installed.")
NOTE["D01"] = ("trace validation of evaluation histories and derivative residuals on the real grids", DF)
NOTE["D02"] = ("trace validation of integral identities and cross-grid agreement", DF)
NOTE["S01"] = ("trace validation against exact rational spectra and expectation values",
  "The specification states hydrogenic levels, expectation values, Slater integrals and selection rules as exact rationals (model-checked against the virial theorem, Kramers' relation, sum rules and degeneracies) and keeps two-centre systems met so far, since rescaled or exchanged nuclei must reproduce them; the real bases' eigenproblems are solved for generated systems and judged by TLC to 1e-4 relative. n up to 3, |m| up to 2.")
NOTE["M01"] = ("trace validation against exact rational charges and expectation values",
  "The specification keeps a nucleus as an object whose size changes, with its charge inside a radius, kinks and expectation values as exact rationals, and confinement integrals with shifts (laws model-checked: bounded, rising, continuous, ordered). Generated object histories and confinement requests run on the real classes over random element grids and are judged by TLC to 1e-8 (1e-4 for the quadratic singular confinement, where the library's quadrature order is capped).")
NOTE["M02"] = ("trace validation against exact polynomial densities and screenings",
  "An atom is built up electron by electron from polynomial orbitals; every observable is then a polynomial whose integer or rational coefficients the specification computes exactly (Poisson's equation, positivity, spin sums, charge conservation model-checked). Generated histories run on averaged atoms over six primitive families and on tabulated atoms (stand-in table), the sampled observables are fitted and TLC compares every coefficient; gradient-corrected screenings are compared with differentiated densities to 2e-5.")
NOTE["F06"] = ("trace validation of evaluations against the derivatives of the interpolating polynomial", "The specification decides what may be asked (derivative and quotient orders per family, origin, end conditions), keeps the table of quadrature values, and model-checks the calculus of the quotient on integer polynomials; generated histories run on the real classes in three precisions and TLC judges every recorded deviation (1e-6 of the function concerned).")
NOTE["F07"] = ("trace validation of cross-basis overlaps against span containment decided by the specification", "The specification decides from families, degrees, grids, end conditions and channels whether the span of one basis lies in another; TLC judges shapes, transposition, angular coupling, per-channel projection residuals (zero exactly when contained) and triangle identities recorded from real bases.")
NOTE["T04"] = ("trace validation of two-electron operators of one density in nested bases", "The specification decides which bases are nested and which tables are prepared; TLC judges the law A_a(P) = C^T A_c(C P C^T) C for every operator, the factorised integrals against their tolerance, and refusals. Spheroidal and error-function operators come from finite quadratures and are judged to 3e-5 and 5e-4.")
NOTE["N01"] = ("trace validation against exact rational integrals",
  "The specification keeps a workspace of grids and orbital bases and computes every one-electron matrix, orbital value and Slater integral of polynomial orbitals, and the integrals of Slater and Gaussian functions, as exact rationals (symmetry, definiteness, reciprocity, self-interaction model-checked). Generated workspaces over six primitive families run on the real classes and TLC compares every matrix element (to 1e-6 or better); screened operators are compared with brute-force integration. Orbitals of degree three, multipoles up to 4.")
ORC = "The specification holds the exact rational couplings of cos and P2 between spherical harmonics (sum rules, tracelessness, symmetry and bounds model-checked over l<=6), the selection rules, basis sizes and permitted requests; generated bases run on the real classes and TLC judges each recorded matrix. "
NOTE["Y03"] = ("trace validation of one-electron matrices against direct integration and exact angular factors", ORC + "The driver integrates the operators over the functions in spherical or spheroidal coordinates by its own Gauss rules and harmonics; every block must agree to 2e-9 of its largest element, angular factors to 3e-8. Radial functions are those of the finite-element basis (F01-F05). l up to 6.")
NOTE["E04"] = ("trace validation of complete program runs in histories generated from the specification", "The specification remembers the energies of earlier runs and the checkpoints they saved, knows which descriptions name the same system, which energies are exact, and which requests must be refused; TLC judges every run of the real programs (built against a stand-in of the missing SCF solver library, so the SCF iteration itself is not under test).")
NOTE["T05"] = ("trace validation of two-electron matrices against nested direct integration", ORC + "The driver integrates Laplace, Neumann, Yukawa and error-function kernels by nested Gauss rules for its own tables and contracts them with the density; blocks must agree to 1e-7 (spheroidal 1e-6, error function 2e-4). l up to 3 (averaged atoms 4).")
