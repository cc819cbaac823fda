#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability). Run: tools/props.py > properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CK="src/general/checkpoint.cpp"; CKH="src/general/checkpoint.h"
p("C01","Checkpoint operations leave the file open or closed as they found it",
 "Every checkpoint operation (store, fetch, query, delete, basis store and fetch), whether it succeeds or fails, leaves an open checkpoint file open and a closed one closed. A failed operation therefore never blocks a later explicit open, close, or truncating re-creation of the same file in the same process.",
 ["histories","fault_sequences"],"all sequences of open/close/store/fetch/query/delete/basis operations on a checkpoint, including failing ones (missing entry, wrong type, wrong shape, read-only handle), over all element types",
 "No stable test opens a checkpoint at all; the property quantifies over operation histories with failures.",
 [CK,CKH],[("automatic open/close around each access",CK+" write/read/exist/remove"),("explicit open()/close()",CK+" open, close")],
 [("opend","whether the handle currently has the file open",CKH)],["return/exception of every public call","is_open()"])
p("C02","A checkpoint is a typed, last-write-wins store with exact round trips",
 "Fetching an entry returns bit for bit the value and shape most recently stored under that name (scalars, integers, booleans, strings, vectors, matrices and integer matrices, in every supported precision), also from another handle after the file was closed and re-opened. Deleting or overwriting one entry, even with a value of another type or size, never disturbs any other entry; fetching a missing entry, or one whose stored class or dimensionality does not match the request, raises an error instead of returning data.",
 ["histories","inputs"],"all sequences of stores, overwrites, deletions, queries and fetches over any names, kinds, precisions, shapes (including empty and non-square) and values, across close/re-open",
 "No stable test stores or fetches anything.",
 [CK,CKH],[("typed HDF5 store/fetch with class and dimension checks",CK+" write/read overloads"),("remove-before-write",CK+" write")],None,["fetched values, errors, exist()"])
p("C03","Checkpoint access modes and misuse are honoured",
 "A handle opened for reading never changes the file and refuses stores and deletions with an error; a handle opened for writing creates the file when it is missing and discards existing content exactly when truncation was requested. Opening a missing file for reading, opening an already open handle and closing a closed handle are errors, and none of these errors alters stored data.",
 ["histories","configurations"],"all sequences of constructing read/write/truncating handles on existing or missing files interleaved with data operations and handle misuse",
 "No stable test constructs a checkpoint; modes interact with history (what was stored before).",
 [CK,CKH],[("constructor mode selection",CK+" Checkpoint::Checkpoint"),("write permission check",CK+" CHECK_WRITE")],None,["exceptions; entries visible to a fresh read handle"])
p("C04","A stored basis reloads as the same basis and only as the same kind",
 "Storing an atomic or a diatomic basis in a checkpoint and fetching it back gives a basis with the same charges, bond length, elements, quadrature, polynomial family, boundary conditions, nuclear model and angular channels, so that every matrix built from it is identical. Fetching a basis of the other kind, or from a file without a basis, is an error.",
 ["inputs","configurations"],"all basis configurations (nuclear charges, off-centre charges, element boundaries, primitive family and order, quadrature size, finite-nucleus model and radius, derivative boundary condition, angular channels) of both kinds",
 "No stable test stores a basis.",
 [CK,"src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp"],[("basis store/fetch",CK+" write/read(TwoDBasis)"),("kind identifier",CK)],None,["accessors and matrices of the reloaded basis"])
FE="libhelfem/src/FiniteElementBasis.cpp"
p("F01","Finite-element functions are numbered contiguously with shared boundaries",
 "For every primitive family, order and element grid, the global functions are numbered 0..N-1 without gaps; consecutive elements share exactly the family's overlap functions (1, 2, 3 or 4) and non-consecutive elements share none beyond those. The function value and/or derivatives are removed at the left and right ends exactly when the corresponding boundary condition is requested, and never otherwise.",
 ["inputs","configurations"],"all supported primitive families and node counts, all element grids, all 16 combinations of end conditions on value and derivative",
 "The stable tests never build a finite-element basis.",
 [FE,"libhelfem/include/FiniteElementBasis.h","libhelfem/include/HIPBasis.h","libhelfem/include/LIPBasis.h","libhelfem/include/HIP2Basis.h","libhelfem/include/HIP3Basis.h","libhelfem/include/LegendreBasis.h"],
 [("element index ranges",FE+" get_idx"),("dropping primitives at the ends","*Basis.h drop_first/drop_last")],None,["get_nbf, get_idx, get_noverlap, enabled, eval at the ends"])
p("F02","Element refinement depends only on the final set of boundaries",
 "Adding element boundaries one at a time, in any order and with repetitions, gives a basis identical to one built directly on the sorted set of boundaries. Adding an existing boundary changes nothing, and existing boundaries are never moved or lost.",
 ["histories"],"all sequences of boundary insertions on all starting grids, for all primitive families and end conditions",
 "The stable tests never refine a grid; the property is about histories.",
 [FE,"libhelfem/include/RadialBasis.h"],[("boundary insertion",FE+" add_boundary")],None,["get_bval, get_nbf, get_idx"])
p("F03","Every point of the domain is located in an element that contains it",
 "For any grid and any point between the first and last boundary, the element found contains the point, and a point strictly inside an element is found in exactly that element; mapping between reference and physical coordinates is a mutually inverse increasing map onto the element. Evaluation points outside the element and element numbers out of range are refused with an error.",
 ["inputs"],"all element grids (uniform, extremely graded, single element), points including boundaries, neighbours of boundaries and out-of-range values",
 "The stable tests never locate a point.",
 [FE],[("bisection",FE+" find_element"),("coordinate map",FE+" eval_coord/eval_prim")],None,["find_element, element_begin/end/length, eval_coord, eval_prim"])
p("F04","Basis functions are nodal and as smooth across elements as promised",
 "At every element boundary exactly one remaining global function has unit value and the others vanish there, and for the Hermite families likewise for the derivatives up to the family's order; values and those derivatives of every global function agree from both sides of every interior boundary, whatever the two element lengths. The requested end conditions hold: removed values or derivatives are zero for all remaining functions.",
 ["inputs","configurations"],"all primitive families, orders, element grids with arbitrary length ratios, and end conditions",
 "The stable tests never evaluate an assembled finite-element function.",
 [FE,"libhelfem/include/LIPBasis.h","libhelfem/include/HIPBasis.h","libhelfem/include/HIP2Basis.h","libhelfem/include/HIP3Basis.h"],[("derivative scaling by element length",FE+" eval_dnf"),("primitive evaluation","*Basis_eval.h")],None,["eval_f/eval_df/eval_d2f/.. of all functions at both sides of each boundary"])
p("F05","Global matrices are exactly the sum of the element contributions",
 "Every global one-electron matrix entry equals the sum, over the elements on which both functions live, of that element's contribution, and is zero when no element carries both functions. The result does not depend on the number of threads, and symmetric integrands give symmetric matrices.",
 ["inputs","schedules"],"all grids, primitive families, end conditions, operators and thread counts",
 "The stable tests never assemble a matrix.",
 [FE,"libhelfem/src/RadialBasis.cpp"],[("element assembly",FE+" matrix_element/vector_element")],None,["matrix_element, vector_element, overlap, kinetic"])
p("F06","Values, derivatives and radial functions of a basis agree with each other",
 "In every element and at every point (element ends and the origin included) the n-th derivative that is evaluated is the derivative of the (n-1)-th, for every family, order, end condition and derivative order the family provides; orders beyond that are errors. The radial functions R = B/r and their first and second derivatives equal the quotient everywhere, at the origin by continuation; asking for the quotient by continuation where it does not exist (element that does not start at the origin, value function kept there) is an error. Filling the table of values at quadrature points, in any order and any number of times, changes no answer. Quadrature points and weights of an element are the reference rule mapped to it. Orbitals evaluated at a point and at the nucleus equal the sum over basis functions, and vanish beyond the last boundary. Double, extended and quadruple precision agree.",
 ["inputs","histories","configurations"],"all families, orders, grids, end conditions, derivative orders, points, orders of filling and asking",
 "The stable tests never evaluate a basis function in an element; density functionals, kinetic energies and the cusp conditions all rest on these evaluations.",
 [FE,"libhelfem/src/RadialBasis.cpp","libhelfem/include/LIPBasis.h","libhelfem/include/HIPBasis.h","libhelfem/include/HIP2Basis.h","libhelfem/include/HIP3Basis.h","libhelfem/include/LegendreBasis.h"],[("derivatives","eval_prim_dnf of the families, "+FE+" eval_dnf"),("quotient by r","eval_over_r of the families"),("radial functions","libhelfem/src/RadialBasis.cpp get_bf/get_df/get_lf, fill_quadrature_cache, eval_orbs, nuclear_*")],None,["eval_dnf, eval_over_r, get_bf/df/lf, get_wrad, get_r, eval_orbs, nuclear_density"])
p("F07","Two bases see the same functions: overlaps and projections across bases",
 "The overlap between two bases (radial, atomic, spherically averaged or diatomic; any families, grids and channel lists) has one row per function of the first and one column per function of the second, turns into its transpose when the bases are exchanged, equals the ordinary overlap when both are the same, and couples only channels the angular part allows. A function of the first basis is reproduced exactly by its projection onto the second when, and only when, the second basis contains it (its channel, every element boundary, at least its polynomial degree and no more smoothness, compatible end conditions). Whenever a third basis contains both, overlaps and cross-basis radial matrix elements (powers of r, derivatives) equal those computed through the third basis.",
 ["inputs","configurations"],"all pairs and triples of bases: families, orders, element grids of equal or different extent, end conditions, channel lists",
 "The stable tests never build two bases; restarting from an orbital file in another basis relies on it for every pair.",
 ["libhelfem/src/RadialBasis.cpp","src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/sadatom/basis.cpp"],[("cross-basis overlap","overlap(rhs) and radial_integral(rhs,...) of FEMRadialBasis and the TwoDBasis classes")],None,["overlap matrices, cross-basis radial_integral"])
p("G01","Generated grids span exactly the requested interval",
 "Every element grid that is generated (linear, quadratic, polynomial, exponential, combined; normal, finite-nucleus or off-centre-nucleus; with or without a confinement boundary) starts at zero, ends at the requested practical infinity, is strictly increasing, has the requested number of elements (plus the documented extra ones of the nuclear region for finite and off-centre nuclei), and contains the requested interior boundaries (nuclear radius or position, confinement shift). Unknown grid kinds and nuclear models, and inadmissible parameter combinations, are errors.",
 ["inputs","configurations"],"all grid kinds, element counts, exponents, radii, nuclear models and charges, confinement positions",
 "The stable tests never build a grid.",
 ["libhelfem/src/grid.cpp","src/atomic/basis.cpp"],[("grid generation","libhelfem/src/grid.cpp get_grid"),("composite grids","src/atomic/basis.cpp form_grid, finite_nuclear_grid, offcenter_nuclear_grid")],None,["returned boundary list"])
p("B01","Symmetry blocks partition the basis and labels follow the blocks",
 "For each symmetry setting the index blocks are pairwise disjoint, and together they cover every basis function exactly once (for the reduced +|m| setting, the blocks together with their mirror partners do). Each block holds exactly the functions with the m, (l,m), parity or |m| that its label, at the same position in the label list, names; unknown settings are errors.",
 ["inputs","configurations"],"all atomic and diatomic angular channel lists, radial sizes and symmetry settings",
 "The stable tests never build a two-dimensional basis.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/general/angular_index_helpers.h"],[("block index construction","get_sym_idx/get_sym_labels/get_sym_mirror_idx")],None,["get_sym_idx, get_sym_labels, get_sym_mirror_idx, m_indices, lm_indices"])
p("B02","Element-local and boundary-stripped diatomic indexing is consistent",
 "For any angular channel list the functions of a diatomic basis are exactly the products of radial functions and channels, except that channels with nonzero m lack the first radial function. Padding a matrix with the missing functions and stripping it again returns the original, padded rows and columns are zero, wrongly sized input is an error, and the per-element index lists name exactly the functions living on that element.",
 ["inputs","configurations"],"all channel lists, radial sizes, elements and m values; all square matrices",
 "The stable tests never build a diatomic basis.",
 ["src/diatomic/basis.cpp","src/atomic/TwoDBasis.cpp"],[("index maps","pure_indices, expand_boundaries, remove_boundaries, bf_list, bf_list_dummy, dummy_idx_to_real_idx")],None,["Nbf, Ndummy, index lists, padded matrices"])
p("B03","Generated angular channel lists are complete and without repetition",
 "The atomic channel list for limits on l and |m| contains every (l, m) with |m| <= l within the limits exactly once, and the diatomic list built from one limit on l per |m| contains every (l, +m) and (l, -m) within its limit exactly once and nothing else. Channels of +m and -m appear in the same order of l.",
 ["inputs"],"all limits on l and m, all lists of per-|m| limits (including limits below |m|, i.e. empty ones)",
 "The stable tests never generate a channel list.",
 ["src/atomic/basis.cpp","src/diatomic/basis.cpp"],[("list generation","atomic::basis::angular_basis, diatomic::basis::lm_to_l_m")],None,["returned l and m vectors"])
p("E01","Electron and spin counting is consistent or refused",
 "From nuclear charge, total charge, multiplicity and/or explicit spin counts, the number of alpha and beta electrons that results always sums to the neutral count minus the charge and differs by the multiplicity minus one, or equals the explicit counts; negative counts, parity mismatches and contradictory requests are errors. Restricted treatment is chosen only when allowed.",
 ["inputs"],"all integers for charges, multiplicities, explicit electron counts and restriction settings",
 "The stable tests never count electrons.",
 ["src/general/scf_helpers.cpp","src/general/scf_driver_common.h"],[("count parsing","parse_nela_nelb, derive_nela_nelb_restricted")],None,["resulting counts, errors"])
p("E02","Density and Fock block bookkeeping conserves electrons and symmetry",
 "Occupied orbital blocks assembled into a full density matrix, and full matrices cut into symmetry blocks, put every block at its own rows and columns and nowhere else; the number of electrons of the density equals the sum of the occupations, split over spins as the treatment demands and evenly over mirror partners. Maximum occupations, particle numbers and labels per block follow the spin treatment and degeneracy.",
 ["inputs","configurations"],"all block partitions, spin treatments, mirror settings, occupations and magnetic fields",
 "The self-consistent-field drivers are not exercised by any stable test.",
 ["src/general/scf_driver_common.h"],[("driver building blocks","accumulate_density_block, assemble_fock_blocks, assemble_final_density, fill_block_from_density, build_ooo_block_metadata")],None,["returned matrices and metadata"])
p("E03","Block-wise diagonalisation equals diagonalisation within symmetry blocks",
 "Solving an eigenproblem by symmetry blocks returns all eigenpairs, each orbital nonzero only inside one block, orbitals orthonormal in the given metric, and energies sorted in ascending order with the orbitals in the same order. The orthogonaliser built per block makes the metric the identity and never mixes blocks.",
 ["inputs","configurations"],"all block partitions (contiguous or interleaved), all symmetric matrices of that block structure, all overlap metrics",
 "The stable tests never diagonalise.",
 ["src/general/scf_helpers.cpp","src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp"],[("blocked eigensolver","scf_helpers.cpp eig_gsym_sub"),("blocked orthogonaliser","form_Sinvh / Sinvh")],None,["returned eigenvalues and vectors"])
p("Y01","Angular coupling tables respect selection rules and their window",
 "A coupling coefficient looked up in a precomputed table equals the exact integral of three spherical harmonics for every in-range argument, is zero for every argument violating a selection rule or out of range, and an azimuthal number outside the table's declared window is an error instead of a wrong number. A windowed table agrees with the full table wherever both are defined.",
 ["inputs","configurations"],"all angular-momentum limits, windows and quantum numbers, in range and out of range",
 "The coupling code is not compiled into any stable test.",
 ["src/general/gaunt.cpp","src/general/gaunt.h"],[("table with canonicalised lookup","gaunt.cpp coeff")],None,["coeff, mod_coeff and coupling lookups"])
p("Y02","One-electron operators couple only the channels their symmetry allows",
 "In the atomic and diatomic bases, the blocks of the overlap, kinetic, nuclear attraction, electric multipole and magnetic-field matrices between angular channels are nonzero exactly for the channel pairs allowed by the operator's selection rules, every matrix is symmetric with one row per basis function, and apart from the magnetic field the blocks do not depend on the sign of m.",
 ["inputs","configurations"],"all channel lists, nuclear charge combinations, off-centre charges and radial bases",
 "No stable test builds an operator in the two-dimensional bases.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp"],[("channel loops in operator builders","overlap, kinetic, nuclear, dipole_z, quadrupole_zz, Bz_field")],None,["block sparsity of returned matrices"])
p("T01","Two-electron operators follow the preparation history",
 "Coulomb and exchange matrices are refused until the two-electron integrals have been prepared, range-separated exchange is refused until a screened operator has been prepared, and afterwards they reflect exactly the most recently prepared operator and its parameter whatever was prepared before. Results are linear in the density, independent of repetition and of thread count, and zero for zero density.",
 ["histories","schedules"],"all sequences of prepare/use calls with full, Yukawa and erfc operators and any parameters, on atomic, diatomic and spherically averaged bases",
 "No stable test prepares two-electron integrals; the property is about call histories.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/sadatom/basis.cpp"],[("integral caches","compute_tei, compute_yukawa, compute_erfc, coulomb, exchange, rs_exchange")],None,["exceptions and matrices of each call"])
p("T02","Exchange reordering of two-electron integrals is the exact permutation",
 "Reordering a block of two-electron integrals for exchange moves the element (ij|kl) to position (jk;il) for every combination of element sizes, including unequal and unit sizes, and three such reorderings with correspondingly rotated sizes restore the original block. Inconsistent sizes are errors.",
 ["inputs"],"all block sizes and contents",
 "The stable tests never touch two-electron integrals.",
 ["libhelfem/src/utils.cpp"],[("index permutation","utils.cpp exchange_tei")],None,["returned matrix"])
p("T03","Coulomb and exchange energies obey the laws of electrostatics",
 "For every basis and density the Coulomb and exchange matrices are symmetric and reciprocal (the energy of A in the field of B equals that of B in the field of A), a single electron's Coulomb and exchange energies cancel exactly, closed shells give spherically symmetric results that agree between the atomic and the spherically averaged basis, and a spherical charge acts outside its extent like a point charge. Screened exchange equals the double integral over the screened interaction, lies strictly between zero and full exchange, decreases as the screening grows, and tends to full exchange as the screening vanishes; in diatomic bases declaring a density symmetric in the sign of m does not change its exchange.",
 ["inputs","configurations"],"all densities, element grids, primitive families, channel lists and screening parameters, on atomic, diatomic and spherically averaged bases",
 "No stable test builds a two-electron matrix; the laws hold for every density and basis.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/sadatom/basis.cpp","libhelfem/src/RadialBasis.cpp","libhelfem/src/erfc_expn.cpp","libhelfem/src/quadrature.cpp","src/diatomic/quadrature.cpp"],[("contraction of factorised in-element and disjoint integrals","coulomb, exchange, rs_exchange; libhelfemqc/include/CoulombExchangeFE.h")],None,["returned matrices and their traces with densities"])
p("T04","Two-electron operators do not depend on how space is divided into elements",
 "The Coulomb, exchange and screened exchange operators (and the single-multipole radial ones, bare or Yukawa screened) of a density of one basis are the same matrices whether that basis computes them or a larger one that contains it: with more or other elements, a higher degree, another family, or further channels. In-element integrals are symmetric under all exchanges of their indices; their factorised forms reproduce them to the requested tolerance with at most full rank, and operators assembled from factors equal those assembled from the integrals. Density-fitting factors of an atomic basis are symmetric, one set per multipole, reproduce the radial integrals to the requested tolerance, and are refused before the integrals are prepared.",
 ["inputs","configurations","histories"],"all pairs of nested bases (radial, atomic, spherically averaged, diatomic), densities, multipoles, screening parameters and tolerances",
 "No stable test builds a two-electron integral; agreement between element divisions holds for every grid and density.",
 ["libhelfem/src/RadialBasis.cpp","libhelfemqc/include/CoulombExchangeFE.h","libhelfem/src/quadrature.cpp","src/atomic/TwoDBasis.cpp","src/sadatom/basis.cpp","src/diatomic/basis.cpp"],[("in-element and disjoint contributions","CoulombExchangeFE.h; twoe_integral, twoe_integral_cholesky, radial_df_factors")],None,["coulomb, exchange, rs_exchange, assemble_J/K, radial_df_factors"])
p("P01","Command-line options mean the same in every accepted spelling",
 "Options given as --name=value, --name value or their short forms, in any order and mixed with positional arguments, yield the same values; unspecified options keep their defaults, the last repetition wins, and everything not an option is returned as positional argument in order. Unknown options, missing or malformed values, and missing required options are reported as errors.",
 ["inputs"],"all option declarations and argument vectors",
 "The stable tests never parse a command line.",
 ["src/general/cmdline.h"],[("parser","cmdline.h parser::parse")],None,["get, exist, rest, parse result, error list"])
p("X01","Functional names and identifiers are resolved and classified consistently",
 "An exchange-correlation specification resolves every accepted spelling (numeric identifiers, library names, pairs separated by a dash, Hartree-Fock and none keywords) to the same functionals, and refuses unknown ones. Classification (gradient, kinetic-energy and Laplacian needs, exact-exchange fraction, range separation) agrees with the functional library for every functional. Functional parameters given inline or in a file are read as the same numbers.",
 ["inputs"],"all functional identifiers known to the library and all specification strings",
 "The stable tests never resolve a functional.",
 ["src/general/dftfuncs.cpp"],[("name resolution and classification","dftfuncs.cpp")],None,["returned identifiers, flags and errors"])
p("L01","Element symbols, numbers and tabulated models are looked up in range",
 "Every element symbol, in any case, and every atomic number resolves to the same element and back, unknown symbols are refused, and each tabulated atomic model is defined for exactly its tabulated elements and refuses others (or shows no charge) instead of reading beyond its table. Model charges fall from the nuclear charge at the origin to the ion's charge far away, and orbital counts follow the aufbau order.",
 ["inputs"],"all strings and integers",
 "The stable tests never look up an element.",
 ["src/general/elements.cpp","src/general/gsz.cpp","src/general/sap.cpp","src/general/atomdb.cpp","src/general/model_potential.cpp"],[("lookups","elements.cpp get_Z, gsz.cpp GSZ_parameters, sap.cpp sap_effective_charge")],None,["returned numbers and errors"])
p("D01","Exchange-correlation potentials are the derivatives of the energy",
 "On every quadrature grid (atomic, spherically averaged, diatomic full and pure-m) the Fock matrix of a functional is the derivative of its energy with respect to the density matrix, symmetric, additive over exchange and correlation, and the restricted result equals the unrestricted one for equal spins, also with the spins swapped or one spin without electrons. Results depend neither on earlier evaluations nor on the thread count, and a wrong number of functional parameters or an unsupported functional is refused.",
 ["inputs","histories","configurations"],"all functionals (local, gradient, kinetic-energy and Laplacian dependent), densities, bases and sequences of evaluations",
 "No stable test evaluates a functional on a grid; a wrong factor shows only in derivatives of energies.",
 ["src/atomic/dftgrid.cpp","src/sadatom/dftgrid.cpp","src/diatomic/dftgrid.cpp","src/diatomic/dftgrid_purem.cpp"],[("grid workers","eval_Fxc, DFTGridWorker")],None,["returned Fock matrices, energies and exceptions"])
p("D02","Quadrature grids integrate the density they are given and agree",
 "The number of electrons and the kinetic energy integrated on a quadrature grid equal the traces of the density matrix with the overlap and kinetic matrices, a one-electron density's von Weizsacker energy is its kinetic energy, and the density's Laplacian integrates to zero. The pure-m grid agrees with the full diatomic grid, and the averaged atom with the full atom for spherical densities.",
 ["inputs","configurations"],"all densities, bases, angular and radial rules of sufficient order",
 "No stable test integrates a density.",
 ["src/atomic/dftgrid.cpp","src/sadatom/dftgrid.cpp","src/diatomic/dftgrid.cpp","src/diatomic/dftgrid_purem.cpp"],[("grid workers","compute_bf, update_density, compute_Nel, compute_Ekin")],None,["returned electron counts and energies"])
p("S01","One-electron problems reproduce the exact spectra and expectation values",
 "Every atomic, diatomic and spherically averaged basis with a sufficient grid reproduces, for any nuclear charge, the exact levels and degeneracies of one electron, the expectation values of kinetic, nuclear, dipole, quadrupole and magnetic-field operators, and known levels of the hydrogen molecule ion, also when the charged centre is displaced or the nuclei are exchanged or rescaled. Finite nuclei bind less than a point nucleus, a regularised nucleus keeps the ground-state energy, and off-centre charges of the atomic basis act at their positions with any model of the central nucleus.",
 ["inputs","configurations"],"all nuclear charges and models, primitive families, channel lists, distances and displaced charges",
 "The stable tests solve no eigenvalue problem in these bases; a wrong factor in one operator passes them.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/sadatom/basis.cpp","libhelfem/src/RadialBasis.cpp","src/general/model_potential.cpp"],[("one-electron operators","overlap, kinetic, nuclear, dipole_z, quadrupole_zz, Bz_field, Rmatrices, slater_F")],None,["eigenvalues, eigenvectors and operator matrices"])
p("M01","Nuclear models and confinement potentials act as documented",
 "Every nuclear model (point, Gaussian, uniform sphere, hollow shell, regularised) shows the full nuclear charge outside its extent and the documented part of it inside, rises with the distance, splits integrals at its kinks only, follows a change of its size, and gives exact expectation values on any element grid; a root-mean-square radius set is the one of its charge. Tabulated models (Thomas-Fermi, GSZ, SAP, tabulated atoms) fall from the nuclear charge to the ion's. Confinement potentials (polynomial, exponential, barrier, singular) have exact expectation values for any shift, also inside an element, and refuse senseless parameters.",
 ["inputs","configurations","histories"],"all models, charges, sizes, confinement kinds, exponents, radii and shifts, element grids and primitive families",
 "No stable test evaluates a model potential or a confinement matrix.",
 ["src/general/model_potential.cpp","src/general/gsz.cpp","src/general/sap.cpp","libhelfem/src/ModelPotential.cpp","libhelfem/src/RadialBasis.cpp"],[("model potentials","ModelPotential V, breakpoints, set_R"),("confinement","FEMRadialBasisT::confinement_potential")],None,["potential values, breakpoints, matrices, exceptions"])
p("M02","Averaged and tabulated atoms report consistent densities and screenings",
 "For any occupied orbitals, the density, its gradient and Laplacian, the kinetic energy density, the radial orbitals and their derivatives, the density at the nucleus, the enclosed charge and the Coulomb screening of averaged and tabulated atoms are those of the orbitals at every radius, and all electrons are found inside the grid and screen the nucleus outside it. The exchange-correlation screening is the functional derivative of the energy (local and gradient-corrected, per spin, restricted equal to unrestricted for equal spins), and effective charges combine them; functionals needing the kinetic energy are refused. Characteristic radii are where the density has its maximum or threshold value, or where the charge outside is the requested one.",
 ["inputs","configurations","histories"],"all occupations, orbitals, element grids, primitive families, functionals and radii",
 "No stable test evaluates an atomic density or screening.",
 ["src/general/atomdb.cpp","src/sadatom/basis.cpp"],[("observables","atomdb::Atom; sadatom TwoDBasis electron_density*, kinetic_energy_density, coulomb_screening, xc_screening, vdw_radius, electron_count_radius")],None,["returned vectors and numbers, exceptions"])
p("N01","Numerical-orbital bases give the integrals of their orbitals",
 "A numerical-orbital basis over any finite-element basis has the overlap, kinetic, centrifugal and nuclear matrices, orbital values and Coulomb and exchange operators (bare for every multipole, or Yukawa screened) of exactly its own orbitals, whatever elements and primitives lie underneath, also between two bases sharing the underlying elements and for asymmetric densities. Projected Slater and Gaussian functions and their contractions have their exact analytic integrals. Missing or mismatched underlying bases, coefficients, densities, screenings or malformed contractions are refused, and orbitals extracted per angular momentum are the requested lowest ones.",
 ["inputs","configurations","histories"],"all orbital coefficients, element grids, primitive families, multipoles, densities and exponents",
 "The stable tests compare a handful of fixed orbitals.",
 ["libhelfemqc/include/NAORadialBasis.h","libhelfemqc/include/CoulombExchangeFE.h","libhelfemqc/include/STO.h","libhelfemqc/include/GTO.h","src/sadatom/basis.cpp","libhelfem/src/RadialBasis.cpp"],[("numerical orbitals","NAORadialBasis, make_nao_sto, make_nao_gto, extract_naos_per_l"),("multipole assembly","assemble_J/K_FE_one_multipole")],None,["returned matrices, vectors and exceptions"])
p("Y03","One-electron matrices are the integrals of the three-dimensional functions",
 "The overlap, kinetic, nuclear attraction, dipole, quadrupole and magnetic-field matrices of atomic, diatomic and spherically averaged bases equal, block by block and for any channels, charges and fields, the integrals of the operators between the functions the bases stand for (a radial finite-element function times a spherical harmonic). Angular factors of dipole and quadrupole matrices are the exact algebraic ones with their signs.",
 ["inputs","configurations"],"all channel lists, charges and distances, magnetic fields, element grids, primitive families",
 "No stable test compares one of these matrices with an integral of its own.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/sadatom/basis.cpp","src/general/gaunt.cpp"],[("one-electron matrices","overlap, kinetic, nuclear, dipole_z, quadrupole_zz, Bz_field"),("angular factors","gaunt::Gaunt::*_coupling")],None,["returned matrices"])
p("T05","Two-electron matrices are the integrals of the three-dimensional functions",
 "For any real symmetric density, also one mixing channels of different l and m, the Coulomb and exchange matrices of atomic, diatomic and spherically averaged bases, and the Yukawa or error-function screened exchange of atomic and averaged bases, equal the two-electron integrals over the functions the bases stand for, for any channels, element grid and primitive family, also when a diatomic density is declared symmetric in the sign of m.",
 ["inputs","configurations"],"all densities, channel lists, half distances, screening lengths, element grids, primitive families",
 "No stable test evaluates a two-electron matrix by an independent route.",
 ["src/atomic/TwoDBasis.cpp","src/diatomic/basis.cpp","src/sadatom/basis.cpp","src/diatomic/quadrature.cpp","libhelfemqc/include/CoulombExchangeFE.h","libhelfem/src/quadrature.cpp"],[("two-electron matrices","compute_tei, compute_yukawa, compute_erfc, coulomb, exchange, rs_exchange"),("spheroidal kernel","diatomic quadrature twoe_integral, Plm_integral, Qlm_integral")],None,["returned matrices"])
p("E04","Complete runs report the requested system's energy and can be resumed",
 "A complete run of the atomic, diatomic or spherically averaged program reports energy parts (kinetic, nuclear, Coulomb, exchange-correlation, exact exchange, field, confinement, nuclear repulsion) that add up to its total, and reaches the exact or literature energy of one-electron atoms, hydrogenic excited shells, two-centre ions and small atoms with Hartree-Fock and LDA, with the first-order field effects and the virial theorem. The energy is the same whatever way the run is asked for it: symmetry setting, restricted or not, guess, threads, units, orientation, sign of m, charge and multiplicity or electron counts, element set or program. A run that loads a checkpoint of the same system (diatomic and atomic also from a coarser symmetry, averaged also between restricted and unrestricted) starts at the saved energy and leaves the loaded file as it was. Requests that cannot be honoured (undefined or inconsistent electron counts, unknown guess or functional, too few quadrature points, malformed occupations, unreadable or mismatched checkpoints, off-centre charges without a distance) end with an error, no energies and no checkpoint.",
 ["histories","inputs","configurations"],"all small systems and sequences of runs with any presentation, saving and loading between them",
 "No stable test runs a program.",
 ["src/atomic/main.cpp","src/diatomic/main.cpp","src/sadatom/main.cpp","src/general/scf_driver_common.h"],[("drivers","main of the three programs"),("density conversion","scf_driver_common.h load/save and block wiring")],None,["printed energies, exit status, checkpoint files"])
if __name__=="__main__":
    for x in P:
        assert len(x["title"])<=80,x["id"]
        print(json.dumps(x))
