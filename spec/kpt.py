"""Properties C07, C08, C12..: plane waves, k-points."""
from .core import GV, KP, SG
P = {}
P["C07"] = dict(
    title="Plane waves below the cutoff are complete, ordered and grouped by energy",
    statement="For every cell, k-point and cutoff, the generated list contains every plane wave with kinetic energy below the cutoff, in the order in which WAVECAR stores the "
              "coefficients, together with the ascending-energy permutation and the bounds of each shell of equal energy restricted to the reduced cutoff. A count that "
              "differs from the one of the file is refused.",
    over=["inputs", "configurations"],
    text="all cutoffs, all reduced cutoffs, all k-points on the listed lines, all orders of degenerate waves delivered by the sort",
    why="Tests compare final traces of a few files with one cutoff each; boundary cases (last point of the grid, equal energies) depend on continuous parameters.",
    files=[GV], mech=[("calc_gvectors", GV + ":calc_gvectors")],
    note="All cutoffs and points of the lines within lists of up to seven shells; lattices listed.")
P["C08"] = dict(
    title="Reduction of plane waves and coefficients to the cutoff",
    statement="For lists of plane waves in any order, the reduced set is exactly the waves within the reduced cutoff in ascending kinetic energy, each coefficient stays attached to "
              "its plane wave (both spinor components), and the shell bounds delimit the waves of equal energy. A list containing a wave above the DFT cutoff is refused.",
    over=["inputs", "configurations"],
    text="all cutoffs, all k-points of the lines, all coefficients, any order in the file, any order of degenerate waves",
    why="Tests have one cutoff per material; mixing of coefficients between equal-energy waves is not visible for most of them.",
    files=[GV], mech=[("sortIG", GV + ":sortIG")],
    note="Lists of up to 9 waves; everything else symbolic.")
P["C12"] = dict(
    title="k-point: little group, levels, traces, change of setting, parity count",
    statement="A k-point keeps exactly the (requested) operations that leave k invariant modulo a reciprocal lattice vector, ordered by index; its levels are the runs of states "
              "closer than the threshold, with mean energy and the sum of the traces of their states. Traces referred to another cell carry the sign of the operation and the "
              "phase of the difference in translation with the table at k of the reference cell, and the count is that of states odd under inversion through the origin.",
    over=["inputs", "configurations"],
    text="all k-points of planes/lines of each group, all energies and thresholds, all traces, all translations, signs, cells and origin shifts",
    why="Tests run complete calculations of a few materials at high-symmetry points, mostly in the standard setting, where phases are trivial and thresholds far away.",
    files=[KP], mech=[("constructor", KP + ":Kpoint.__init__"), ("traces of levels", KP + ":Kpoint.calculate_traces")],
    note="Everything symbolic within a few states and groups of up to 12 operations.")
