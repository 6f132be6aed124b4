"""Properties C01..C11: symmetry operations, settings, plane waves, traces."""
SG, KP, GV = "irrep/spacegroup.py", "irrep/kpoint.py", "irrep/gvectors.py"
T = "symbolic execution of the imported source (own numpy-level executor) + z3, counterexamples replayed on the real code"
P = {}

P["C01"] = dict(
    title="Geometry, spin rotation and translation of a symmetry operation",
    statement="For every crystallographic rotation expressed in any lattice and any orientation of the crystal, the order, the inversion flag, the axis and "
              "angle and the Cartesian matrix attributed to the operation describe that same rotation, and its spinor matrix is a special unitary lift of it "
              "(U sigma.v U+ = sigma.(R v)). The translation is reported modulo the lattice without changing the operation.",
    over=["inputs", "configurations"],
    text="all rotations of the crystallographic point groups, all lattice parameters compatible with them, all orientations of the crystal, all translations, "
         "any order/sign/phase of the eigenvectors delivered by the linear-algebra library",
    why="The tests compare final output of a few materials; the sign of the axis and the eigenvector order depend on the library and on the orientation of the crystal, "
        "which the tests sample at a handful of points.",
    files=[SG], mech=[("SymmetryOperation constructor, get_order, axis and angle, spinor rotation", SG + ":SymmetryOperation"),
                      ("translation modulo lattice", SG + ":SymmetryOperation.get_transl_mod1")],
    note="Every path over all lattice parameters, orientations and translations in the bounds; numpy.linalg.eig and expm are replaced by their defining equations.")
P["C03"] = dict(
    title="Operations referred to the reference cell act as the same isometry",
    statement="The rotation and translation of an operation after the change to the reference cell describe the same isometry of space as in the DFT cell: transforming "
              "a point and then changing the cell equals changing the cell and then applying the converted operation, modulo the lattice where stated. Rotations converted "
              "to the reference cell are integer matrices, or the conversion is refused.",
    over=["inputs", "configurations"],
    text="all transformation matrices between cells in the listed centrings, all origin shifts, all operations, all points",
    why="Tests use the few settings of the example materials; a wrong sign or transposed matrix is invisible for symmetric settings.",
    files=[SG], mech=[("rotation_refUC / translation_refUC", SG + ":SymmetryOperation")],
    note="All shifts, translations and points; the cell matrices are the listed families.")
P["C04"] = dict(
    title="Operations are matched one to one with those of the tables",
    statement="Each operation of the crystal receives the index of the table operation with the same rotation and the same translation modulo the lattice, whatever the order "
              "in which the structure code lists them, and the list is then ordered as in the table. A crystal whose operations do not coincide with the table's is refused.",
    over=["inputs", "configurations"],
    text="all orders of the operations, all origin shifts, all lattice translations between the two lists, all sub-threshold noise, all deviations above the threshold",
    why="Tests see one order of operations per material; permutations, lattice translations and near-threshold noise are a continuum.",
    files=[SG], mech=[("match_symmetries", SG + ":SpaceGroup.match_symmetries"), ("sorting in the constructor", SG + ":SpaceGroup.__init__")],
    note="spglib's answer is an input; the table rows are symbolic.")
P["C05"] = dict(
    title="Choice of the transformation to the reference cell",
    statement="A transformation given by the user is used as given and only the missing part is completed; when the cell is searched automatically, the accepted "
              "transformation maps every operation of the crystal onto one of the tables, and when none does the program stops with an error instead of continuing.",
    over=["inputs", "configurations"],
    text="all combinations of user-given/absent matrix and shift and search flag with arbitrary values; all origins of the standard setting; all translations of table operations",
    why="Tests run the default or one explicit setting per material, not every origin or mismatch.",
    files=[SG], mech=[("determine_basis_transf", SG + ":SpaceGroup.determine_basis_transf")],
    note="All origins and values; the listed table groups and centrings.")
P["C06"] = dict(
    title="Signs of the spinor rotations follow the tables",
    statement="When the spinor matrices of the table equal those of the crystal up to one common change of spin basis and a sign per operation, those signs are found, for any "
              "spin basis; otherwise the mismatch is reported as an error. The common change of spin basis never alters a sign.",
    over=["inputs"],
    text="all SU(2) changes of basis, sign patterns as listed, all common phases of the minimiser's result",
    why="Tests have the basis of the table rotated in one way per material.",
    files=[SG], mech=[("match_symmetries (spinor signs)", SG + ":SpaceGroup.match_symmetries"), ("find_spinor/U search", SG + ":SpaceGroup")],
    note="The minimiser is replaced by its contract (returns a point and the objective there).")
P["C09"] = dict(
    title="A symmetry operation permutes the plane waves of a k-point",
    statement="For an operation of the little group, every plane wave is sent to the plane wave whose wave vector is the rotated one, and the assignment is a permutation inside "
              "each shell of equal energy. An operation that does not leave the k-point invariant, or a set of waves that is not closed, is refused with an error.",
    over=["inputs"],
    text="all invariant k-points on the symmetry lines (continuous parameter, with noise), all operations of the families, all non-invariant k-points",
    why="Tests use the k-points of the examples, which are mostly symmetric under sign changes of the coordinates.",
    files=[GV], mech=[("transformed_g", GV + ":transformed_g")],
    note="Whole parameter range of k solved; plane-wave sets of a few orbits.")
P["C10"] = dict(
    title="Traces of operations equal the matrix elements of Bloch states",
    statement="The trace returned for a state and an operation {A|T} is the diagonal matrix element of the operation that rotates the spatial part by A, translates by T and "
              "rotates the spin by its spinor matrix, for arbitrary coefficients.",
    over=["inputs"],
    text="all coefficients, all translations, all spinor matrices, all k-points on the invariant lines",
    why="Tests compare a few materials, where states at high-symmetry points hide wrong phases (k.T in multiples of 1/2).",
    files=[GV], mech=[("symm_eigenvalues", GV + ":symm_eigenvalues")],
    note="Exact identity in all coefficients and the translation for the listed operations.")
P["C11"] = dict(
    title="Matrix of an operation between Bloch states",
    statement="The matrix of an operation in a set of Bloch states equals <psi_m|{A|T} psi_n> from the definition for arbitrary coefficients, so its diagonal agrees with the traces "
              "used for the irreps.",
    over=["inputs"],
    text="all coefficients, translations, spinor matrices and k-points on invariant lines",
    why="Only the separation by eigenvalues of inversion-like operations is exercised; phases that cancel there are not seen.",
    files=[GV], mech=[("symm_matrix", GV + ":symm_matrix")],
    note="Exact identity in all coefficients and the translation for the listed operations.")
