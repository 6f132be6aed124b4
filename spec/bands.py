"""Properties C17..C20: gaps, invariants, separation by eigenvalues."""
from .core import GV, KP, SG
BS = "irrep/bandstructure.py"
P = {}
P["C17"] = dict(
    title="Inversion-odd totals and the Z2 / Z4 numbers",
    statement="The total of inversion-odd states is the sum over the k-points that have inversion in their little group, each k-point being reported with its own number or as not "
              "invariant. Terminal and JSON output give the number of states (Kramers pairs for spinors), and Z2 and Z4 are that total of pairs modulo 2 and modulo 4.",
    over=["inputs", "configurations"],
    text="all numbers of odd states at every k-point, all combinations of k-points with and without inversion, scalar and spinor",
    why="Reference outputs contain a few small numbers; zero, large numbers and k-points without inversion among others do not occur together.",
    files=[BS], mech=[("BandStructure.num_bandinvs, write_characters, json", BS)],
    note="Numbers of odd states symbolic up to 40 per k-point; up to 4 (6) k-points.")
P["C18"] = dict(
    title="Direct and indirect gaps",
    statement="The direct gap is the smallest difference, over the k-points, between the first band above the set and the highest level of the set; the indirect gap is the lowest band "
              "above at any k-point minus the highest level at any k-point, also when negative. Terminal and JSON report these numbers, and no finite gap is given without a band above.",
    over=["inputs"],
    text="all energies at all k-points, insulating and metallic, with and without a band above",
    why="Reference outputs fix a few insulators.",
    files=[BS], mech=[("gap_direct, gap_indirect", BS), ("write_characters, json", BS)],
    note="All energies symbolic; up to 3 (5) k-points.")
P["C19"] = dict(
    title="Separation of the states of a k-point by an operation",
    statement="Separating by an operation gives, for every eigenvalue (or pair of conjugated eigenvalues when Kramers pairs are grouped), a subspace in which each level of the original "
              "has as many states as the eigenvalue has there: normalised combinations of the states of that level that the operation multiplies by it. All states are distributed, the "
              "original is unchanged and non-unitary eigenvalues are reported.",
    over=["inputs", "configurations"],
    text="all operations acting within the levels (given by any unitary of the listed parametrisation), all energies, noise of the matrix elements",
    why="No test runs -isymsep.",
    files=[KP], mech=[("Separate / copy_sub", KP + ":Kpoint.Separate"), ("symm_matrix", GV + ":symm_matrix")],
    note="Rotation matrices and eigenvalues of the parametrised families; diagonalisation replaced by its specification.")
P["C20"] = dict(
    title="Separation of the whole band structure by an operation",
    statement="Separation of the band structure gives one band structure per eigenvalue of the operation, containing for each k-point that has states with the eigenvalue exactly the "
              "subspace of that eigenvalue, in the order of the k-points, whatever numerical noise the eigenvalues have. The identity, or a single eigenvalue, gives all the states.",
    over=["inputs", "configurations"],
    text="all noise of the eigenvalues at every k-point (also across the branch cut of the argument), k-points with any subset of the eigenvalues in any order",
    why="No test runs -isymsep.",
    files=[BS], mech=[("BandStructure.Separate", BS + ":BandStructure.Separate")],
    note="Operations of order 1..6; noise symbolic; 2-3 (4) k-points.")
P["C21"] = dict(
    title="Unfolding to the primitive cell keeps the weight of the folded k-point",
    statement="Unfolding a k-point of a supercell to a k-point of the primitive cell gives each level its energy and the spectral weight of its states on the plane waves of the primitive "
              "k-point (with the spin expectation values for spinors). A k-point that does not fold on the supercell k-point is refused.",
    over=["inputs", "configurations"],
    text="all k-points of the primitive zone, listed supercells, all states of the parametrised family, all energies",
    why="No test calls unfold.",
    files=[KP], mech=[("unfold, get_rho_spin", KP + ":Kpoint.unfold")],
    note="Supercells of 1..4 (6) cells; 3 bands on 6 plane waves.")
P["C22"] = dict(
    title="Overlaps, Zak phases and Wannier charge centres",
    statement="The overlap of two k-points is the scalar product of the periodic parts of the states, plane wave by plane wave. Zak phases are the phases of the product along the closed path of "
              "the determinants of the lowest bands, with the gaps of the same sets; charge centres are the phases of the eigenvalues of the product of unitary parts.",
    over=["inputs"],
    text="all coefficients, k-points and reciprocal shifts of the overlaps; all overlaps along the path",
    why="No test runs -ZAK or -WCC.",
    files=[KP, BS], mech=[("Kpoint.overlap", KP + ":Kpoint.overlap"), ("zakphase, wcc", BS)],
    note="Up to 3 (4) k-points and 3 bands; the singular value decomposition is replaced by its specification.")
P["C23"] = dict(
    title="Length along the k-path and the file of the bands",
    statement="Consecutive k-points are separated along the path by their distance in the reciprocal lattice (of the primitive cell when a supercell is given), jumps above the threshold counting "
              "zero. The plot file has for each band one line per k-point with this position and the energy of the band.",
    over=["inputs"],
    text="all k-points, reciprocal lattices of the listed families, thresholds, energies",
    why="Tests do not read the plot file and compare one short path.",
    files=[BS], mech=[("KPOINTSline, write_plotfile", BS + ":BandStructure.KPOINTSline")],
    note="Paths of up to 4 (5) k-points.")
P["C24"] = dict(
    title="trace.txt describes the operations and the traces of every level",
    statement="The file holds the number of bands, the spin flag, every operation in the DFT cell (rotation, translation, spin matrix), the k-points and, for each, its little group and for every "
              "level the first band, dimension, mean energy and traces in the DFT cell. Band structures with different numbers of bands are refused.",
    over=["inputs", "configurations"],
    text="all translations, spin matrices, k-points, energies and traces; levels of any grouping; little groups and indices in any order",
    why="Reference files hold one little group per test and integer traces.",
    files=[BS, KP, SG], mech=[("BandStructure.write_trace", BS + ":BandStructure.write_trace"), ("Kpoint.write_trace", KP), ("SymmetryOperation.str2", SG)],
    note="Up to 4 operations, 3 k-points, 3 bands.")
P["C35"] = dict(
    title="Average of functions of the position over the density of the bands",
    statement="For functions of the fractional position (or of some coordinates only), getloc returns one row per function and one column per band: the average over the uniform grid of 2*max|g|+1 points per axis of the function "
              "times the density of the band (both spinor components). A constant function gives the constant times the norm of the band.",
    over=["inputs"],
    text="all coefficients of the bands, all values of the function on the grid",
    why="No test calls getloc.",
    files=[KP], mech=[("Kpoint.getloc, getloc1", KP + ":Kpoint.getloc1")],
    note="Listed sets of up to 4 (5) plane waves with indices up to 1 (2).")
