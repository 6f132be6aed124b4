"""Properties C28..C34: reading the calculation and the options."""
UT, RF, BS, KP, CLI = "irrep/utility.py", "irrep/readfiles.py", "irrep/bandstructure.py", "irrep/kpoint.py", "irrep/cli.py"
P = {}
P["C33"] = dict(
    title="Numbers, lists, ranges and flags are read and printed faithfully",
    statement="Lists of numbers and ranges give every number, both ends included, in order; complex numbers keep both parts with signs; Fortran and Python flags are understood. Numbers are printed with "
              "the requested decimals, leaving out exactly the negligible parts. Roundness and equality of k-points modulo reciprocal vectors hold exactly up to the threshold.",
    over=["inputs"],
    text="all numbers, in the listed forms of text",
    why="Tests use few values and no ranges or complex multiplicities.",
    files=[UT, KP], mech=[("str2list, str2list_space, compstr, str2bool, split", UT), ("short, str_, format_matrix, log_message", UT), ("is_round", UT), ("Kpoint.k_close_mod1", KP)],
    note="Up to 4 items per list; texts composed of listed forms.")
P["C28"] = dict(
    title="VASP files are read faithfully",
    statement="POSCAR gives scaled lattice vectors as rows, direct coordinates of every atom (also from cartesian ones) and its kind, skipping optional lines. WAVECAR gives the numbers of k-points and bands, cutoff, "
              "lattice, and for any k-point in any order its coordinates, energies and coefficients. Unsupported files are refused.",
    over=["inputs", "configurations"],
    text="all numbers in the files; every combination of optional lines; listed sizes",
    why="The tests read two calculations.",
    files=[RF], mech=[("ParserVasp.parse_poscar", RF), ("WAVECARFILE.record, ParserVasp.parse_header, parse_kpoint", RF)],
    note="Up to 3 atoms, 3 k-points, 3 bands, 4 plane waves.")
P["C29"] = dict(
    title="Abinit WFK files are read faithfully",
    statement="The header gives the number of bands and plane waves of each k-point, lattice, cutoff and Fermi energy in eV, spinor flag, kinds and positions of the atoms. Any k-point, in any order, gives its energies in "
              "eV, plane waves and coefficients. Unsupported calculations are refused.",
    over=["inputs", "configurations"],
    text="all numbers in the files; both versions of the header; every order of k-points",
    why="The tests read two calculations, all k-points in order.",
    files=[RF], mech=[("ParserAbinit.parse_header, parse_kpoint", RF)],
    note="Up to 3 k-points, atoms, bands and plane waves.")
P["C30"] = dict(
    title="Quantum Espresso files are read faithfully",
    statement="The xml file gives spin polarisation, cutoff and Fermi energy in eV, numbers of k-points and bands, lattice in angstrom, direct positions and kinds of atoms. The wave functions give for each k-point and "
              "spin its direct coordinates, energies in eV, plane waves and coefficients.",
    over=["inputs", "configurations"],
    text="all numbers in the files; scalar, spinor and both spins of a spin-polarised calculation",
    why="The tests read one calculation with spinors.",
    files=[RF], mech=[("ParserEspresso.parse_header, parse_lattice, parse_kpoint", RF)],
    note="Up to 3 k-points, atoms, bands and plane waves.")
P["C31"] = dict(
    title="Wannier90 files are read faithfully",
    statement="The .win file gives numbers of k-points and bands, spinor flag, Fermi energy, lattice in angstrom, direct positions, kinds of atoms and k-points, for every form of the parameters. Energies are those of the "
              "band and k-point, coefficients the Fourier components of the states, spin up before down. Inconsistent files are refused.",
    over=["inputs", "configurations"],
    text="all numbers in the files; listed forms of the input",
    why="The tests read two calculations.",
    files=[RF], mech=[("ParserW90.parse_header, parse_lattice, get_param", RF), ("ParserW90.parse_energies", RF), ("ParserW90.parse_grid, parse_kpoint", RF)],
    note="Up to 3 k-points, atoms, bands; grids up to 12 points.")
P["C32"] = dict(
    title="From the files of any code to the bands: window, k-points, cutoff, Fermi energy",
    statement="For every code, a band structure holds exactly the bands of the window and the k-points asked for, in order, each with its energies from the Fermi energy, next band, plane waves below the cutoff and "
              "normalised coefficients. The cell, atoms, spinor flag and thresholds given reach the space group, and reciprocal vectors are dual to the lattice; empty windows and inconsistent input are refused.",
    over=["inputs", "configurations"],
    text="all energies, cutoffs (between shells), Fermi energies, thresholds, coefficients of two states, cells; all windows; listed selections; the four codes, scalar, spinor and spin-polarised",
    why="Tests always read one window per calculation and compare printed irreps.",
    files=[BS, RF, KP], mech=[("BandStructure.__init__", BS), ("Kpoint.__init__", KP), ("Parser*", RF)],
    note="Up to 3 k-points, 3 bands, 7 plane waves. SpaceGroup replaced by a recorder. Known finding: coarse UNK grids.")
P["C34"] = dict(
    title="The command line and configuration file do what their options say",
    statement="Every option of the command line or configuration file reaches the calculation with the value given, others keep documented defaults, invalid ones are refused. A run writes the files asked for: JSON with the chosen "
              "operations and k-points, irreps.dat only with names, one subspace (and plot) per combination of eigenvalues of the separating operations, prefix.sym, and phases of every subspace.",
    over=["inputs", "configurations"],
    text="all numbers in the options; energies and Fermi energy of complete runs; listed combinations of options",
    why="Tests run one command line per calculation and compare the irreps only.",
    files=[CLI, BS], mech=[("cli", CLI), ("LoadContextFromConfig.invoke", CLI), ("BandStructure.__init__, Separate, json, write_*", BS)],
    note="Runs on a VASP calculation with 1 or 2 k-points and 3 bands; four operations; click executed, JSON text written by monty outside.")
