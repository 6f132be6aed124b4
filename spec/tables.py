"""Properties C13..: tables and irreps."""
from .core import GV, KP, SG
IT = "irreptables/irreptables/__init__.py"
P = {}
P["C13"] = dict(
    title="Characters of the tables transferred to the crystal",
    statement="For a k-point label, the characters of exactly the irreps of that label are returned, each the tabulated one times the sign of the spinor matrix and the phase "
              "exp(2 pi i k.(t_table - t_crystal)) of the difference in translation in the reference cell. A label whose coordinates differ from the k-point (modulo reciprocal "
              "lattice vectors of the DFT cell), or that does not exist, is refused.",
    over=["inputs", "configurations"],
    text="all translations, origin shifts, signs, characters, all k-points (equivalent or not) for the listed cells and groups",
    why="In the tests the crystal and the table have identical translations or k at zone boundaries; phases with a generic difference in translation do not occur.",
    files=[SG], mech=[("get_irreps_from_table", SG + ":SpaceGroup.get_irreps_from_table")],
    note="All continuous data symbolic; cells, groups and labels listed.")
P["C14"] = dict(
    title="Irreps and multiplicities of the levels",
    statement="The irreps listed for a level are exactly those contained in its representation, each with the number of times it occurs, whatever phases (non-symmorphic factors) the "
              "traces and the table share and within numerical noise. Without a table every level is listed as unidentified, and a table lacking an operation of the little group is refused.",
    over=["inputs"],
    text="all combinations of irreps in a level, all common phases, all noise below the threshold",
    why="Tests contain only levels of one irrep with clean traces.",
    files=[KP], mech=[("identify_irreps", KP + ":Kpoint.identify_irreps")],
    note="All multiplicities up to 2 for the listed groups, noise and phases symbolic.")
P["C15"] = dict(
    title="Format of the irrep tables is read and written faithfully",
    statement="Reading a table gives the operations, k-points and irreps with exactly the numbers of the file: rotations, translations, spinor matrices and characters as modulus and "
              "phase in units of pi, attached to the operations listed for the k-point. A table of another group or kind of wave function is refused, and the text form of operations, "
              "k-points and irreps is read back as the same object.",
    over=["inputs", "configurations"],
    text="all numbers, all lists and ranges of operations, real and complex characters, all layouts of the bounds",
    why="Tests load two shipped tables and never write one.",
    files=[IT, "irrep/utility.py"], mech=[("SymopTable / KPoint / Irrep / IrrepTable", IT)],
    note="All numbers of the file symbolic; layouts listed.")
