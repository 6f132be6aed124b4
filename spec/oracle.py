"""what each property is compared with (used for DESIGN.md)"""
P = {}
ORACLE = {
"C01": "defining equations only: order = smallest n with R^n = 1, axis fixed by the proper part, U unitary with determinant one and U (sigma.v) U+ = sigma.(Rv) for symbolic v; translation equal modulo the lattice. LAPACK's eig and expm are replaced by their contracts (any order, sign and phase of the eigenvectors).",
"C02": "numbers recovered from the printed text (each printed number is an exact symbolic token) compared with the isometry in both cells; k-point formulas evaluated for symbolic k.",
"C03": "commuting square: P^-1 (R x + t - w) evaluated independently for a symbolic point x.",
"C04": "the permutation used to build the table is known to the harness; result must be that permutation; any deviation above the threshold must raise.",
"C05": "the transformation given, or, for automatic search, every operation converted with the accepted transformation must equal the table's modulo its lattice.",
"C06": "sign_j chosen by the harness; result equal up to one global conjugation of the choice allowed by the minimiser; impossible patterns must raise.",
"C07": "independent enumeration of the integer vectors of the shells with |k+G|^2 below the cutoff, for symbolic k and cutoff.",
"C08": "set, order and coefficient of each wave by its own integer vector.",
"C09": "image of every wave computed from the definition k' + G' = R^-T (k+G); permutation must be a bijection, no partner must raise.",
"C10": "sum over the definition <psi| {R|t} |psi> written out with symbolic coefficients, phases as points of the unit circle.",
"C11": "as C10 for all pairs of states; block form against the slices of the full matrix.",
"C12": "little group by exact invariance modulo reciprocal vectors, levels by gaps of consecutive energies, traces as sums over states.",
"C13": "character of the table of the matching operation times the factor of the difference of translations and sign, written independently.",
"C14": "multiplicities by construction: traces are sums n_i chi_i + noise.",
"C15": "the values the harness wrote in the file; text form parsed again gives the same object.",
"C16": "numbers recovered from the table on the terminal against levels, traces, irreps.",
"C17": "counts of states with parity -1 by k-point; Z4 = half the count modulo 4.",
"C18": "min / max written with symbolic disjunctions over the k-points.",
"C19": "states of known eigenvalues by construction (unitary mixtures of waves with known phases); separation must return exactly them.",
"C20": "per-k-point sets of eigenvalues by construction; subspaces must be their union.",
"C21": "weights sum over the waves whose k+G folds on the primitive k-point.",
"C22": "overlap by the definition over common plane waves; Zak phase and centres from determinants / eigenvalues of the product, gauge-independent.",
"C23": "lengths with the reciprocal metric; file parsed back.",
"C24": "file parsed back against operations, levels and traces.",
"C25": "round trip: parse_sym_file(write_sym_file(x)) = x modulo the lattice, plus the documented layout.",
"C26": "parsed back by the reader of the tables (C15).",
"C27": "entries of the dictionaries against the object.",
"C28": "the numbers the harness put in virtual POSCAR text and WAVECAR cells (offset -> value).",
"C29": "the numbers put in virtual Fortran records (layout of WFK, both versions of the header).",
"C30": "the numbers put in the virtual xml file and wfc records.",
"C31": "the numbers put in .win, .eig and UNK files; coefficients put in as Fourier sums on the grid.",
"C32": "one dataset written as the files of each code; the band structure must hold it whatever the code.",
"C33": "values known by construction of the text; text known to be the printed number.",
"C35": "density at every point of the grid by direct summation of the plane waves.",
"C34": "recorded arguments of BandStructure; contents of the written files against the dataset.",
}
COST = {}
