"""Properties of the files and texts written for the user."""
from .core import GV, KP, SG
BS = "irrep/bandstructure.py"
P = {}
P["C02"] = dict(
    title="Printed description of the crystal and its operations",
    statement="The crystal is described by its vectors and atomic positions in the DFT and reference cells, and the transformation between them. Every selected operation is printed with the "
              "matrices, translations (between 0 and 1), spin matrices, action on k-points, axis, angle and inversion of the same isometry in both cells.",
    over=["inputs", "configurations"],
    text="all translations, shifts, positions and lattice parameters; listed operations and transformations",
    why="Tests do not look at the terminal output.",
    files=[SG], mech=[("SymmetryOperation.show", SG + ":SymmetryOperation.show"), ("SpaceGroup.show", SG + ":SpaceGroup.show")],
    note="One operation per kind and family (all in thorough), 4 transformations.")
P["C16"] = dict(
    title="Terminal table of levels, irreps and traces, and irreps.dat",
    statement="The table of a k-point holds its index, coordinates in both cells and number of states, and for each level mean energy, degeneracy, irreps with multiplicities and the traces of the "
              "operations of its little group in both cells. Imaginary parts are left out only when negligible. irreps.dat has energy and irreps of every level.",
    over=["inputs", "configurations"],
    text="all energies, coordinates, traces (imaginary parts of one trace per cell) and multiplicities",
    why="Tests do not look at the terminal output or irreps.dat.",
    files=[KP, BS], mech=[("Kpoint.write_characters, write_irrepsfile", KP + ":Kpoint.write_characters"), ("write_irrepsfile", BS)],
    note="Up to 3 levels and 4 operations.")
P["C25"] = dict(
    title="Operations written to prefix.sym are those read back",
    statement="The file has for every operation the cartesian rotation and minus the cartesian translation in units of alat. Reading it with the same alat gives the same operations, in the same "
              "order, in place of those of spglib. Files whose rotations do not preserve the lattice, or without alat, are refused.",
    over=["inputs", "configurations"],
    text="all lattices of the listed families, translations and alat; every kind of operation",
    why="Tests write and read the file of one crystal without translations.",
    files=[SG], mech=[("write_sym_file, str_sym", SG), ("read_sym_file, cart_to_crystal", SG), ("SpaceGroup._findsym", SG)],
    note="Files of 2 to 4 operations; spglib replaced by a data set.")
P["C27"] = dict(
    title="JSON output holds the results of the calculation",
    statement="The dictionary written to JSON has for each k-point, in order, operations, energies, dimensions, irreps, traces in both cells and its label and position on the path; gaps; and each "
              "selected operation in both cells. The flags of equal traces and equal cells say whether both agree.",
    over=["inputs", "configurations"],
    text="all energies, traces, multiplicities, translations, shifts; any selection of the listed ones",
    why="Reference files sample a few values; differences between cells below and above the threshold do not occur.",
    files=[KP, BS, SG], mech=[("Kpoint.json", KP), ("BandStructure.json", BS), ("SpaceGroup.json, json_dict", SG)],
    note="Up to 3 k-points and 4 operations.")
P["C26"] = dict(
    title="irreptable-template writes the operations in the format of the tables",
    statement="The text has a header with the space group, spinor flag and number of operations, then one line per operation with rotation and translation in the reference cell, and the moduli and phases "
              "(units of pi) of its spin matrix. Read as a table it gives the same operations.",
    over=["inputs", "configurations"],
    text="all translations, shifts and moduli and phases of spin matrices; every kind of operation",
    why="No test writes a template.",
    files=[SG], mech=[("SpaceGroup.str", SG), ("SymmetryOperation.str", SG)],
    note="Groups of 1 to 4 operations.")
