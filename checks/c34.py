"""C34 -- the command line (irrep/cli.py): options, configuration file, files written, separation, plots."""
from fractions import Fraction as F
import inspect
from .common import *
from .geom import *
from .bands import all_after
from . import c32

ID = "C34"
BOUNDS = ("every option of the command line with any number (texts of listed forms), alone and together, in both forms (-opt=value, -opt value); configuration files with the same options, keys in any case, values as "
          "numbers or text; complete runs on VASP calculations of a cubic cell with 1 or 2 k-points, 3 bands, inversion, twofold rotation, any energies, with and without names of k-points, selections of operations, "
          "separation by up to two operations, Zak phases, Wannier centres and plots.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "parsing of the command line by the library click (executed), writing of JSON by monty (outside)",
               "SpaceGroup replaced by one of four operations; traces of the tables replaced by given ones"]
NUM = {"-Ecut": "Ecut", "-degenThresh": "degen_thresh", "-trans_thresh": "trans_thresh", "-alat": "alat", "-correct_Ecut0": "correct_Ecut0"}
TXT = {"-fWAV": "fWAV", "-fPOS": "fPOS", "-fWFK": "fWFK", "-prefix": "prefix", "-from_sym_file": "from_sym_file"}
DEF = dict(fWAV="WAVECAR", fPOS="POSCAR", fWFK=None, prefix=None, from_sym_file=None, Ecut=None, alat=None, code="vasp", onlysym=False, kplist=None, refUC=None, shiftUC=None, search_cell=False,
           calculate_traces=True, spin_channel=None)


def tasks(tier):
    o = dict(budget=120, max_paths=400)
    out = [dict(name=n, body=n, params={}, opts=o) for n in ("numbers", "texts", "bands", "lists", "cell", "flags", "defaults", "invalid", "config", "config_over")]
    for c in ("vasp",) if tier == "quick" else ("vasp", "vasp-spinor"):
        out.append(dict(name="run-" + c, body="run", params=dict(code=c, nk=2), opts=o))
        out.append(dict(name="names-" + c, body="names", params=dict(code=c, nk=2), opts=o))
        out.append(dict(name="plot-" + c, body="plot", params=dict(code=c, nk=2), opts=o))
        out.append(dict(name="symfile-" + c, body="symfile", params=dict(code=c, nk=1), opts=o))
    out.append(dict(name="cutoff", body="cutoff", params=dict(code="vasp", nk=1), opts=o))
    for seps in ("2", "3", "2,3", "2-3", "3,2"):
        out.append(dict(name="separate-" + seps, body="separate", params=dict(code="vasp", nk=2, ks=[0, 0], seps=seps), opts=o))
    out.append(dict(name="zak", body="loops", params=dict(code="vasp", nk=1, flag="-ZAK"), opts=o))
    out.append(dict(name="wcc", body="loops", params=dict(code="vasp", nk=1, flag="-WCC"), opts=o))
    return out


class Stop(Exception):
    pass


def cli(S, M, args):
    return S.call(M.cli.cli.main, args=args, standalone_mode=False)


def record(S, M, args):
    """arguments that reach BandStructure"""
    seen = []
    sig = inspect.signature(M.bandstructure.BandStructure.__init__)

    def f(*a, **k):
        b = sig.bind(None, *a, **k)
        b.apply_defaults()
        seen.append(dict(b.arguments))
        raise Stop()
    S.patch("cli.BandStructure", f)
    r = cli(S, M, args)
    S.check("bands asked for once", len(seen) == 1 and r.raised(Stop), r.err)
    return seen[0] if len(seen) == 1 else None


def opt(S, name, text):
    return [name + "=" + text] if S.pick("form of " + name, [0, 1]) == 0 else [name, text]


def others(S, a, *names):
    S.check("other options keep their defaults", all(a[k] is v or a[k] == v for k, v in DEF.items() if k not in names), {k: a[k] for k in DEF})


def numbers(S, M, p):
    x = {o: S.real(o[1:], -100, 100) if o != "-alat" else S.real("alat", 1, 20) for o in NUM}
    x["-EF"] = S.real("EF", -100, 100)
    which = S.pick("options", [["-Ecut"], ["-degenThresh"], ["-trans_thresh"], ["-alat"], ["-correct_Ecut0"], ["-EF"], list(x)])
    a = record(S, M, sum((opt(S, o, S.fmt(x[o])) if len(which) == 1 else [o + "=" + S.fmt(x[o])] for o in which), []))
    if a is None:
        return
    for o in which:
        if o == "-EF":
            S.check("Fermi energy given", S.textnum(a["EF"].strip(), x[o]) if isinstance(a["EF"], str) else S.eq(a["EF"], x[o]), a["EF"])
        else:
            S.check("number of option " + o, S.eq(a[NUM[o]], x[o]))
    others(S, a, *[NUM.get(o) for o in which])


def texts(S, M, p):
    which = S.pick("options", [["-fWAV"], ["-fPOS"], ["-fWFK"], ["-prefix"], ["-from_sym_file"], list(TXT), ["-code"], ["-EF"]])
    val = {o: "dir/x_%d" % i for i, o in enumerate(TXT)}
    val["-code"] = S.pick("code", ["vasp", "abinit", "espresso", "wannier90"])
    val["-EF"] = "auto"
    a = record(S, M, sum((opt(S, o, val[o]) if len(which) == 1 else [o + "=" + val[o]] for o in which), []))
    if a is None:
        return
    names = dict(TXT, **{"-code": "code", "-EF": "EF"})
    S.check("texts given", all(a[names[o]] == val[o] for o in which), [a[names[o]] for o in which])
    others(S, a, *[names[o] for o in which])


def bands(S, M, p):
    i, j = S.int("first", -3, 500), S.int("last", -3, 500)
    a = record(S, M, opt(S, "-IBstart", S.fmt(i)) + opt(S, "-IBend", S.fmt(j)))
    if a is None:
        return
    S.check("window of bands", S.And(S.eq(a["IBstart"], i), S.eq(a["IBend"], j)))
    others(S, a)


def lists(S, M, p):
    t, want = S.pick("k-points", [("3", [3]), ("2,1", [2, 1]), ("1-4", [1, 2, 3, 4]), ("1,3-5,9", [1, 3, 4, 5, 9]), ("10-11,2", [10, 11, 2])])
    sep = S.pick("separation", [None, "2"])
    a = record(S, M, opt(S, "-kpoints", t) + (["-isymsep=" + sep] if sep else []))
    if a is None:
        return
    S.check("k-points of the list, in order", [int(v) for v in a["kplist"]] == want, a["kplist"])
    S.check("wave functions kept to separate them", not sep or bool(a["save_wf"]))
    others(S, a, "kplist")


def cell(S, M, p):
    u, s = [S.real("u%d" % i, -3, 3) for i in range(9)], [S.real("s%d" % i, -2, 2) for i in range(3)]
    which = S.pick("given", ["both", "cell", "shift"])
    a = record(S, M, (opt(S, "-refUC", ",".join(S.fmt(v) for v in u)) if which != "shift" else []) + (opt(S, "-shiftUC", ",".join(S.fmt(v) for v in s)) if which != "cell" else []))
    if a is None:
        return
    S.check("transformation given", a["refUC"] is None if which == "shift" else S.np.shape(a["refUC"]) == (3, 3) and S.eq(a["refUC"], S.array([u[:3], u[3:6], u[6:]])))
    S.check("shift given", a["shiftUC"] is None if which == "cell" else S.np.shape(a["shiftUC"]) == (3,) and S.eq(a["shiftUC"], S.array(s)))
    others(S, a, "refUC", "shiftUC")


def flags(S, M, p):
    f = S.pick("flags", [["-spinor"], ["-onlysym"], ["-searchcell"], ["-kpnames=GM,X"], ["-ZAK"], ["-WCC"], ["-plotbands"], ["-groupKramers"], ["-spinor", "-onlysym", "-searchcell"], ["-v"], ["-v", "-v"]])
    a = record(S, M, f)
    if a is None:
        return
    S.check("spinors, only symmetries", bool(a["spinor"]) == ("-spinor" in f) and bool(a["onlysym"]) == ("-onlysym" in f), (a["spinor"], a["onlysym"]))
    S.check("conventional cell searched for if asked, or to name irreps", bool(a["search_cell"]) == ("-searchcell" in f or "-kpnames=GM,X" in f), a["search_cell"])
    S.check("wave functions kept if needed", bool(a["save_wf"]) if f[0] in ("-ZAK", "-WCC") else True)
    S.check("verbosity", a["v"] == (2 if len(f) == 2 else 1), a["v"])
    others(S, a, "onlysym", "search_cell")


def defaults(S, M, p):
    a = record(S, M, [])
    if a is None:
        return
    others(S, a)
    S.check("documented thresholds", S.And(S.eq(a["degen_thresh"], F(1, 10**4)), S.eq(a["trans_thresh"], F(1, 10**5)), S.eq(a["correct_Ecut0"], 0)))
    S.check("all the bands", S.And(S.le(a["IBstart"], 0), S.le(a["IBend"], 0)))
    S.check("Fermi energy zero", S.textnum(a["EF"], S.rat(0)) if isinstance(a["EF"], str) else S.eq(a["EF"], 0))
    S.check("scalar", not a["spinor"])


def invalid(S, M, p):
    called = []
    S.patch("cli.BandStructure", lambda *a, **k: called.append(1))
    bad = S.pick("option", [["-code=siesta"], ["-Ecut=ten"], ["-IBstart=1.5"], ["-IBend="], ["-nonsense"], ["-refUC=1,0,0,0,1,0,0,0"], ["-refUC=1,0,0,0,1,0,0,0,x"], ["-shiftUC=1,0"], ["-kpoints=a"], ["-kpoints=1,"]])
    r = cli(S, M, bad)
    S.check("refused before any calculation", not r.ok and not called, r.err)


def put_config(S, M, data):
    S.patch("cli.loadfn", lambda fn, *a, **k: dict(data) if fn in ("in.yml", "in.json") else None)


def config(S, M, p):
    x = {o: S.real(o[1:], -100, 100) if o != "-alat" else S.real("alat", 1, 20) for o in NUM}
    ef = S.real("EF", -100, 100)
    i = S.int("IBend", 0, 50)
    case = S.pick("case", [str, str.lower, str.upper])
    text = S.pick("values", [0, 1])
    d = {case(o[1:]): S.fmt(v) if text else v for o, v in x.items()}
    d[case("EF")] = S.fmt(ef) if text else ef
    d[case("IBend")] = S.fmt(i) if text else i
    d[case("kpoints")] = S.pick("k-points", ["2,3", "4-5", 7])
    d[case("refUC")] = "0,1,0,1,0,0,0,0,-1"
    d[case("spinor")] = True
    d[case("code")] = "abinit"
    d[case("fWFK")] = "a_WFK"
    put_config(S, M, d)
    a = record(S, M, ["-config=" + S.pick("file", ["in.yml", "in.json"])])
    if a is None:
        return
    for o, v in x.items():
        S.check("number of option " + o, S.eq(a[NUM[o]], v))
    S.check("Fermi energy", S.textnum(a["EF"], ef) if isinstance(a["EF"], str) else False, a["EF"])
    S.check("last band", S.eq(a["IBend"], i))
    S.check("k-points", [int(v) for v in a["kplist"]] == {"2,3": [2, 3], "4-5": [4, 5], 7: [7]}[d[case("kpoints")]], a["kplist"])
    S.check("cell", S.eq(a["refUC"], S.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])))
    S.check("others", bool(a["spinor"]) and a["code"] == "abinit" and a["fWFK"] == "a_WFK" and not a["onlysym"] and a["fWAV"] == "WAVECAR")


def config_over(S, M, p):
    """options of the command line that the file does not mention"""
    x, y = S.real("x", 1, 100), S.real("y", 1, 100)
    put_config(S, M, {"Ecut": x, "unrelated": 3})
    a = record(S, M, ["-config=in.yml", "-degenThresh=" + S.fmt(y), "-IBstart=4", "-spinor"])
    if a is None:
        return
    S.check("value of the file", S.eq(a["Ecut"], x))
    S.check("options of the command line", S.And(S.eq(a["degen_thresh"], y), S.eq(a["IBstart"], 4)) and bool(a["spinor"]))


# ------------------------------------------------------------ complete runs
OPS = [I3, [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]]]
# states (inversion, twofold rotation): coefficients of pairs of plane waves
ST = [[{(0, 0, 0): 1, (1, 0, 0): F(1, 2), (-1, 0, 0): F(1, 2)}, {(0, 1, 0): 1, (0, -1, 0): -1}, {(0, 0, 1): 2, (0, 0, -1): -2}],
      [{(0, 0, 0): 1, (-1, 0, 0): 1}, {(0, 0, 0): 3, (-1, 0, 0): -3}, {(0, 0, 0): 1, (-1, 0, 0): -1}]]
PAR = [[(1, 1), (-1, -1), (-1, 1)], [(1, 1), (-1, -1), (-1, -1)]]
ST2, PAR2 = [ST[0], [ST[0][2], ST[0][0], ST[0][1]]], [PAR[0], [PAR[0][2], PAR[0][0], PAR[0][1]]]


def calc(S, M, p, one_channel=False):
    sp = p["code"].endswith("spinor")

    def states(ik, b, gs):
        c = [S.rat(F((ST2 if "ks" in p else ST)[ik][b].get(g, 0))) + 0 * S.I for g in gs]
        return c + [0 * v for v in c] if sp else c
    D = c32.dataset(S, p, states=states)
    ops = [make_op(S, M, r, ind=i + 1, spinor=sp, L=S.array(D["A"]), t=[S.real("t%d" % i, 0, F(9, 10)) if i else S.rat(0), S.rat(0), S.rat(0)] if p.get("t") else None) for i, r in enumerate(OPS)]
    sg = make_sg(S, M, ops, spinor=sp, name="P112/m", number=10, L=S.array(D["A"]), positions=S.array(D["x"]), typat=[1, 2])
    S.patch("bandstructure.SpaceGroup", lambda *a, **k: sg)
    D["ops"], D["sg"] = ops, sg
    if S.symbolic:
        def eig(a):
            if tuple(a.shape) != (1, 1):
                raise Exception("the states of different energies were mixed")
            return S.array([a[0, 0]]), S.array([[1]])
        S.hook("eig", eig)
    return D


def base_args(D):
    return ["-spinor"] if D["spinor"] else []


def plain(o):
    """arrays as the library monty writes them -> lists"""
    if isinstance(o, dict):
        return o["data"] if o.get("@module") == "numpy" else {k: plain(v) for k, v in o.items()}
    return [plain(v) for v in o] if isinstance(o, (list, tuple)) else o


def load_json(S):
    return plain(S.read_file("irrep-output.json"))


def energies_ok(S, js, D, sel, ef=0, label="energies of the bands"):
    """sel: list of (k-point, bands)"""
    kp = js["k points"]
    S.check("one entry per k-point", len(kp) == len(sel), len(kp))
    if len(kp) != len(sel):
        return
    for x, (ik, bs) in zip(kp, sel):
        S.check(label, len(x["energies_raw"]) == len(bs) and S.And(*[S.eq(e, D["e"][ik][b] - ef) for e, b in zip(x["energies_raw"], bs)]), (x["energies_raw"], [D["e"][ik][b] for b in bs]))


def run(S, M, p):
    D = calc(S, M, p)
    ef = S.real("EF", -5, 5)
    hi = S.pick("last band", [2, 3])
    ks = S.pick("k-points", [None, "2", "2,1"])
    sy = S.pick("symmetries", [None, "2", "1,3"])
    r = cli(S, M, base_args(D) + ["-EF=" + S.fmt(ef), "-IBend=%d" % hi] + (["-kpoints=" + ks] if ks else []) + (["-symmetries=" + sy] if sy else []))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    js = load_json(S)
    S.check("JSON written, not separated", js is not None and js["separated by symmetry"] is False and len(js["characters and irreps"]) == 1)
    if js is None or len(js["characters and irreps"]) != 1:
        return
    want = [1, 2, 3, 4] if sy is None else [int(v) for v in sy.split(",")]
    S.check("operations selected in the JSON", sorted(int(v) for v in js["spacegroup"]["symmetries"]) == want, list(js["spacegroup"]["symmetries"]))
    sel = [(i, list(range(hi))) for i in ({None: [0, 1], "2": [1], "2,1": [1, 0]}[ks])]
    energies_ok(S, js["characters and irreps"][0]["subspace"], D, sel, ef)
    out = S.stdout()
    heads = [l.split() for l in out.splitlines()]
    S.check("operations selected are printed", [int(h[1]) for h in heads if len(h) == 2 and h[0] == "###" and h[1].isdigit()] == want, want)
    S.check("template of the table, trace.txt written, irreps.dat not", S.exists("irreptable-template") and S.exists("trace.txt") and not S.exists("irreps.dat") and not S.exists("bands-tognuplot.dat"))
    tr = S.read_file("trace.txt")
    if tr:
        rows = [l.split() for l in tr.splitlines()]
        S.check("trace.txt: number of bands and operations", int(rows[0][0]) == hi and int(rows[2][0]) == 4, rows[:3])
    S.check("template: the operations", S.read_file("irreptable-template") == S.call(D["sg"].str).val)


def names(S, M, p):
    D = calc(S, M, p)
    asked = []

    def table(name, k, v=0):
        asked.append((name, k))
        return {"%s+" % name: {1: 1, 2: 1, 3: 1, 4: 1}, "%s-" % name: {1: 1, 2: -1, 3: -1, 4: 1}, "%so" % name: {1: 1, 2: -1, 3: 1, 4: -1}, "%sx" % name: {1: 1, 2: 1, 3: -1, 4: -1}}
    D["sg"].get_irreps_from_table = table
    ks, nm, want = S.pick("k-points", [("1,2", "GM,X", [("GM", 0), ("X", 1)]), ("2,1", "X,GM", [("X", 1), ("GM", 0)]), ("2", "Y", [("Y", 1)]), ("1", "Lmb", [("Lmb", 0)])])
    sep = S.pick("separation", [None, "2"])
    r = cli(S, M, base_args(D) + ["-kpoints=" + ks, "-kpnames=" + nm] + (["-isymsep=" + sep] if sep else []))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    S.check("table of each name, at its k-point", len(asked) == len(want) and all(a == b for (a, _), (b, _) in zip(asked, want)) and
            S.And(*[S.eq(k, S.array(D["k"][i])) for (_, k), (_, i) in zip(asked, want)]), asked)
    js = load_json(S)
    lab = {(1, 1): "+", (-1, -1): "-", (-1, 1): "o"}
    kp = js["characters and irreps"][0]["subspace"]["k points"]
    if not sep:
        S.check("one entry per k-point", len(kp) == len(want))
    if len(kp) != len(want) and not sep:
        return
    for x, (n, ik) in zip(kp, want) if not sep else ():
        # levels that are not degenerate hold one state each
        S.check("name of each k-point in the JSON", x["kpname"] == n, x["kpname"])
        for q, irr in enumerate(x["irreps"]):
            S.check("irrep of each level", irr is not None and set(irr) == {n + lab[PAR[ik][q]]} and S.eq(irr[n + lab[PAR[ik][q]]][0], 1), irr)
    t = S.read_file("irreps.dat")
    S.check("irreps.dat written", t is not None)
    if t is not None:
        rows = [l.split() for l in t.splitlines() if l.strip()]
        S.check("irreps.dat: one line per level with its irrep", [x[-1].split("(")[0] for x in rows if len(x) >= 2 and "=" not in " ".join(x)] == [n + lab[PAR[ik][b]] for n, ik in want for b in range(3)], rows)


def separate(S, M, p):
    D = calc(S, M, p)
    plot = bool(S.pick("plot", [0, 1]))
    th = S.real("degenThresh", F(1, 1000), F(1, 2))
    asked = []
    real = M.bandstructure.BandStructure.Separate

    def sep(self, *a, **k):
        asked.append(inspect.signature(real).bind(self, *a, **k).arguments)
        return real(self, *a, **k)
    S.patch("bandstructure.BandStructure.Separate", sep)
    r = cli(S, M, base_args(D) + ["-isymsep=" + p["seps"], "-degenThresh=" + S.fmt(th)] + (["-plotbands", "-suffix=zz"] if plot else []) + S.pick("symmetries", [[], ["-symmetries=1"]]))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    seps = [2, 3] if p["seps"] == "2-3" else [int(v) for v in p["seps"].split(",")]
    js = load_json(S)
    S.check("operations of the separation in the JSON", js["separated by symmetry"] is True and [int(v) for v in js["separating symmetries"]] == seps, js["separating symmetries"])
    S.check("separated with the threshold given", len(asked) > 0 and S.And(*[S.eq(a["degen_thresh"], th) for a in asked if "degen_thresh" in a]) and all("degen_thresh" in a for a in asked))
    key = [[tuple(par[s - 2] for s in seps) for par in PAR2[ik]] for ik in range(2)]
    allk = sorted({v for row in key for v in row})
    subs = js["characters and irreps"]
    got = [tuple(round(float(v)) for v in x["symmetry eigenvalues"]) for x in subs]
    S.check("one subspace per combination of eigenvalues", sorted(got) == allk, got)
    if sorted(got) != allk:
        return
    for x, kk in zip(subs, got):
        sel = [(ik, [b for b in range(3) if key[ik][b] == kk]) for ik in range(2)]
        energies_ok(S, x["subspace"], D, [s for s in sel if s[1]], label="energies of the states with these eigenvalues")
    files = ["bands-zz-" + "-".join("%d:%s" % (s, v) for s, v in zip(seps, kk)) for kk in allk]
    if plot:
        for kk in allk:
            sel = [(ik, [b for b in range(3) if key[ik][b] == kk]) for ik in range(2)]
            if all(s[1] for s in sel):
                t = find_plot(S, M, seps, kk)
                S.check("one plot per subspace", t is not None)
                if t is not None:
                    plot_ok(S, t, D, sel)
    else:
        S.check("no plot", find_plot(S, M, seps, allk[0]) is None)


def find_plot(S, M, seps, kk):
    n = "bands-zz-" + "-".join("%d:%s" % (s, S.call(M.utility.short, float(v)).val) for s, v in zip(seps, kk)) + ".dat"
    return S.read_file(n)


def plot_ok(S, t, D, sel):
    rows = [l.split() for l in t.split("\n")[1:] if l.strip()]
    nk = len(sel)
    nb = len(sel[0][1])
    e = [x[1] for x in rows]
    # every state of every k-point appears once
    for i, (ik, bs) in enumerate(sel):
        col = e[i::nk]
        for j, b in enumerate(bs):
            S.check("plot: energies of the states", j < len(col) and S.textnum(col[j], D["e"][ik][b]), rows)


def plot(S, M, p):
    D = calc(S, M, p)
    suf = S.pick("suffix", [None, "abc"])
    r = cli(S, M, base_args(D) + ["-plotbands"] + (["-suffix=" + suf] if suf else []))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    t = S.read_file("bands-%s.dat" % (suf or "tognuplot"))
    S.check("plot written", t is not None)
    if t is not None:
        plot_ok(S, t, D, [(0, [0, 1, 2]), (1, [0, 1, 2])])


def symfile(S, M, p):
    only = S.pick("only symmetries", [0, 1])
    D = calc(S, M, dict(p, t=only))
    al = S.real("alat", 1, 20)
    p = dict(p, sy=S.pick("symmetries", [0, 1]))
    r = cli(S, M, base_args(D) + ["-writesym", "-prefix=dd", "-alat=" + S.fmt(al)] + (["-onlysym"] if only else []) + (["-symmetries=2"] if p["sy"] else []))
    S.check("runs, or ends after the symmetries", r.raised(SystemExit) if only else r.ok, r.err)
    if only:
        S.check("ends without error", r.exc is not None and r.exc.code in (None, 0)) if hasattr(r, "exc") else None
        S.check("no other file", not any(S.exists(n) for n in ("irrep-output.json", "trace.txt", "irreptable-template")))
    sy = p.get("sy")
    if sy:
        S.check("operations selected are printed", [int(h[1]) for h in (l.split() for l in S.stdout().splitlines()) if len(h) == 2 and h[0] == "###" and h[1].isdigit()] == [2])
    t = S.read_file("dd.sym")
    S.check("prefix.sym written", t is not None)
    if t is None:
        return
    S.call(D["sg"].write_sym_file, "ref.sym", al)
    a, b = t.split(), S.read_file("ref.sym").split()
    S.check("the operations, with the lattice parameter given (file of C25)", len(a) == len(b) and S.And(*[S.eq(S.value(x)[0], S.value(y)[0]) for x, y in zip(a, b)]), a)


def cutoff(S, M, p):
    D = calc(S, M, p)
    d = S.real("d", F(-1, 10), F(1, 10))
    got = []
    real = M.bandstructure.calc_gvectors
    S.patch("bandstructure.calc_gvectors", lambda *a, **k: got.append(inspect.signature(real).bind(*a, **k).arguments) or real(*a, **k))
    S.assume(S.And(D["ecut0"] + d > F(13, 2), D["ecut0"] + d < F(73, 10)))
    r = cli(S, M, ["-correct_Ecut0=" + S.fmt(d)])
    S.check("runs", r.ok and len(got) == 1, r.err)
    if got:
        S.check("cutoff of the plane waves of VASP corrected", S.eq(got[0]["Ecut"], D["ecut0"] + d))


def loops(S, M, p):
    """phases printed: those of C22, of every subspace"""
    D = calc(S, M, p)
    sep = S.pick("separation", [None, "2"])
    z = [S.real("z%d" % i, 0, 6) for i in range(6)]
    seen, shown = [], []

    def zak(self):
        S.check("levels of the subspace are printed with its phases", shown[-1:] == [[int(k.num_bands) for k in self.kpoints]])
        n = len(seen)
        seen.append([int(x) for k in self.kpoints for x in [k.num_bands]])
        nb = seen[-1][0]
        return tuple(S.array([z[(n + j + m) % 6] for j in range(nb)]) for m in range(4))

    def wcc(self):
        n = len(seen)
        seen.append([int(x) for k in self.kpoints for x in [k.num_bands]])
        return S.array([z[n] / 10, z[n + 1] / 10])
    S.patch("bandstructure.BandStructure.zakphase", zak)
    S.patch("bandstructure.BandStructure.wcc", wcc)
    wc = M.bandstructure.BandStructure.write_characters
    S.patch("bandstructure.BandStructure.write_characters", lambda self: (shown.append([int(k.num_bands) for k in self.kpoints]), wc(self))[1])
    r = cli(S, M, base_args(D) + [p["flag"]] + (["-isymsep=" + sep] if sep else []))
    S.check("ends after printing them", r.raised(SystemExit), r.err)
    if not r.raised(SystemExit):
        return
    S.check("every subspace", sorted(seen) == ([[1], [2]] if sep else [[3]]), seen)
    out = S.stdout()
    S.check("the JSON is written before", S.exists("irrep-output.json"))
    if p["flag"] == "-ZAK":
        rows = [l.split() for l in out.splitlines() if "gapwidth" in l]
        S.check("one line per band of each subspace", [int(x[0]) for x in rows] == [j + 1 for x in seen for j in range(x[0])], rows)
        if len(rows) == 3:
            k = 0
            for n, x in enumerate(seen):
                for j in range(x[0]):
                    w = rows[k]
                    k += 1
                    S.check("Zak phase in units of pi, gaps", S.And(S.textnum(w[1], z[(n + j) % 6] / S.pi), *[S.textnum(t, z[(n + j + m) % 6]) for m, t in ((1, w[5]), (2, w[8]), (3, w[-1]))]), w)
    else:
        S.check("sum of the centres modulo 1", len(all_after(out, "sumWCC=")) == len(seen))
        for n, t in enumerate(all_after(out, "sumWCC=")[:len(seen)]):
            x = (z[n] + z[n + 1]) / 10
            S.check("sum of the centres modulo 1", S.Or(S.textnum(t.strip(), x), S.textnum(t.strip(), x - 1), S.textnum(t.strip(), x - 2)), t)
            v = S.value(t.strip())[0]
            S.check("sum of the centres between 0 and 1", S.And(S.le(0, v), S.le(v, 1)), t)
