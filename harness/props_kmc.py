"""C20-C23, C32: kinetic Monte Carlo inputs and analyses (KMCLib is replaced by a
recording stand-in)."""
import copy
import os
import subprocess
import tempfile

from common import *

LIMITS = {}


class Inter(object):
    """What an analysis asks of the interactions object."""

    def __init__(self, picked):
        self.picked = picked

    def pickedIndex(self):
        return self.picked

    def processAvailableSites(self):
        return []

    def processRates(self):
        return []


class Conf(object):
    def __init__(self, types):
        self._t = types

    def types(self):
        return self._t


class Fake(object):
    """Stand-in model: only the attributes the analyses read."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def run_file(fn):
    g = {}
    with open(fn) as f:
        exec(f.read(), g)
    return g


# ------------------------------------------------------------------ C20
def gen_C20(rng):
    import props_rates
    if rng.random() < .3:
        while True:
            c = props_rates.gen_C10(rng)
            if c["kind"] == "rates" and c["area"] > 0:
                break
        c = {k: c[k] for k in ("rxns", "T", "defs", "area", "ratio")}
        c["algo"] = "CT"
        c["energies"] = closed_energies(rng, len(c["rxns"]))
    else:
        c = gen_model_case(rng, nmax=4, dups=False)
    for d in c["defs"].values():
        if "pressure" in d and d["pressure"] == 0.0:
            d["pressure"] = .5
    els = ["V", "O", "O_s", "C", "CO"][:rng.randint(2, 5)]
    c["els"] = els
    pool = [[0.0, 0.0, 0.0], [.5, 0.0, 0.0], [0.0, .5, 0.0], [-.5, 0.0, 0.0], [0.0, -.5, 0.0],
            [1.0, 1.0, 0.0]]
    pd = []
    for _ in range(rng.randint(1, 5)):
        n = rng.randint(1, 3)
        d = dict(reaction=rxn_text(rng.choice(c["rxns"])),
                 coordinates_group=[rng.sample(pool, n) for _ in range(rng.randint(1, 3))],
                 elements_before=[rng.choice(els + ["*"]) for _ in range(n)],
                 elements_after=[rng.choice(els + ["*"]) for _ in range(n)],
                 basis_sites=rng.sample(range(6), rng.randint(1, 3)))
        if rng.random() < .4:
            d["fast"] = rng.random() < .7
        if rng.random() < .35:
            d["redist"] = rng.random() < .8
            d["redist_species"] = rng.choice([None, [els[0]]])
        pd.append(d)
    c["pd"] = pd
    c["bad"] = rng.choice([None, None, None, "reaction", "before", "after"])
    c["badat"] = rng.randrange(len(pd))
    return c


def kmc_model(case, **extra):
    from scaks.models.kmc_model import KMCModel
    setup = dict(rxn_expressions=[rxn_text(r) for r in case["rxns"]],
                 species_definitions=json.loads(json.dumps(case["defs"])),
                 temperature=case["T"], parser="KMCParser", solver="KMCSolver",
                 corrector="ThermodynamicCorrector", rate_algo=case.get("algo", "TST"),
                 unitcell_area=case.get("area", 9e-20),
                 active_ratio=case.get("ratio", 1.0))
    setup.update(extra)
    m = KMCModel(setup_dict=setup, logger_level=50, file_handler_level=50,
                 console_handler_level=50)
    quiet_logs()
    return m


def _write(fn, text):
    with open(fn, "w") as f:
        f.write(text)


def check_C20(case):
    e = case["energies"]
    _write("rel_energy.py", "Ga = %r\ndG = %r\n" % (e["Ga"], e["dG"]))
    pd = copy.deepcopy(case["pd"])
    bad = case["bad"]
    if bad == "reaction":
        r = pd[case["badat"]]["reaction"]
        known = [rxn_text(x) for x in case["rxns"]]
        pd[case["badat"]]["reaction"] = r.replace("->", "-> ", 1) + " "
        if pd[case["badat"]]["reaction"] in known:
            return False
    elif bad:
        pd[case["badat"]]["elements_" + bad][-1] = "Zz"
    _write("kmc_processes.py", "processes = %r\n" % (pd,))
    for fn in ("kmc_configuration.py", "kmc_sites.py"):
        if os.path.exists(fn):
            os.remove(fn)
    m = kmc_model(case, possible_element_types=list(case["els"]), empty_type="V",
                  possible_site_types=["P"])
    m.parser.parse_data()
    if bad:
        got = raises(("SetupError",), m.solver.get_processes)
        require(got is not None, "unknown %s accepted: {}" % bad, pd[case["badat"]])
        return True
    ps = m.solver.get_processes()
    want, labels = [], []
    for d in case["pd"]:
        i = [rxn_text(x) for x in case["rxns"]].index(d["reaction"])
        f, r = expected_rates(case, i)
        for b in d["basis_sites"]:
            for co in d["coordinates_group"]:
                want.append((co, d["elements_before"], d["elements_after"], b, f, d))
                if not d.get("fast"):
                    labels.append(d["reaction"] + "(->)")
                if not d.get("redist"):
                    want.append((co, d["elements_after"], d["elements_before"], b, r, d))
                    if not d.get("fast"):
                        labels.append(d["reaction"] + "(<-)")
    require(len(ps) == len(want), "{} processes for {} expected", len(ps), len(want))
    for k, (p, w) in enumerate(zip(ps, want)):
        kw = p.kwargs
        require([list(x) for x in kw["coordinates"]] == w[0] and
                list(kw["elements_before"]) == w[1] and list(kw["elements_after"]) == w[2] and
                list(kw["basis_sites"]) == [w[3]] and
                bool(kw.get("fast", False)) == bool(w[5].get("fast")),
                "process {} is {} instead of {}", k, kw, w)
        if w[5].get("redist"):
            require(kw.get("redist"), "redistribution flag of process {}: {}", k, kw)
            require(kw.get("redist_species") == w[5].get("redist_species"),
                    "redistribution species of process {}", k)
        require(close(kw["rate_constant"], w[4], 1e-9), "rate of process {} is {} instead of {}",
                k, kw["rate_constant"], w[4])
    require(list(m.solver.process_mapping) == labels, "labels {} expected {}",
            m.solver.process_mapping, labels)
    return True


def expected_rates(case, i):
    import props_rates
    rx = case["rxns"][i]
    rel = relative(case["energies"]["Ga"], case["energies"]["dG"])
    Gaf, Gar, dG = rel["Gaf"][i], rel["Gar"][i], rel["dG"][i]
    if case["algo"] == "TST":
        out = []
        for G, st in ((Gaf, rx[0]), (Gar, rx[-1])):
            k = kTST(G, case["T"])
            for f in st:
                if f[3] == "g":
                    k *= case["defs"][f_site_text(f)]["pressure"]**f[0]
            out.append(k)
        return out
    return props_rates.ct_pair(case, rx, Gaf, Gar, dG, True)[:2]


# ------------------------------------------------------------------ C21
TYPES = ["V", "O", "C", "CO", "O_s", "X Y", "#", "Vv", "H2O"]


def _lattice_case(rng):
    nb = rng.randint(1, 4)
    ncell = rng.choice([1, 2, rng.randint(1, 30), rng.randint(30, 200)])
    possible = rng.sample(TYPES, rng.randint(1, min(6, len(TYPES))))
    c = dict(nb=nb, ncell=ncell, possible=possible,
             ratios=[rng.choice([1.0, .5, .25, 0.0, rng.uniform(.01, 1)]) for _ in range(nb)],
             empty=rng.choice(possible))
    if rng.random() < .5:
        c["ratios"] = [1.0/nb]*nb
    return c


def gen_C21(rng):
    c = _lattice_case(rng)
    ns = c["nb"]*c["ncell"]
    c["mode"] = rng.choice(["func", "func", "plugin", "plugin"])
    extra = TYPES if rng.random() < .5 else c["possible"]
    if c["mode"] == "func":
        c["types"] = [rng.choice(extra) for _ in range(ns)]
        c["ask"] = rng.sample(c["possible"], rng.randint(0, len(c["possible"])))
        return c
    if ns > 60:
        c["ncell"] = max(1, 60//c["nb"])
        ns = c["nb"]*c["ncell"]
    n = rng.randint(0, 8) if rng.random() < .97 else rng.randint(20, 600)
    c["buffer"] = rng.choice([1, 2, 3, n + 1, n, 500]) or 1
    t, st = 0.0, 0
    steps = []
    for i in range(n + 1):
        steps.append([st, t, [rng.choice(c["possible"]) for _ in range(ns)]])
        st += rng.randint(1, 5)
        t += rng.choice([rng.uniform(0, 1), 1e-9, 1e4])
    c["steps"] = steps
    return c


def cov_oracle(types, ask, ratios):
    nb, ncell = len(ratios), len(types)//len(ratios)
    return [sum(r for i, t in enumerate(types) if t == a for r in (ratios[i % nb],))/ncell
            for a in ask]


_cpp = []


def cpp_driver():
    """The C++ implementation of the current tree behind a small main()."""
    if _cpp:
        return _cpp[0]
    src = os.path.join(REPO, "c++")
    d = tempfile.mkdtemp(prefix="cpp_", dir=os.getcwd())
    drv = os.path.join(d, "drv.cpp")
    _write(drv, r'''
#include "kmc_functions.h"
#include <iostream>
#include <cstdio>
static std::string rd() { std::string s; std::getline(std::cin, s); return s; }
int main() {
  for (;;) {
    std::string h = rd();
    if (h.empty()) return 0;
    int n, m, k; sscanf(h.c_str(), "%d %d %d", &n, &m, &k);
    std::vector<std::string> t, p; std::vector<double> r;
    for (int i = 0; i < n; ++i) t.push_back(rd());
    for (int i = 0; i < m; ++i) p.push_back(rd());
    for (int i = 0; i < k; ++i) r.push_back(strtod(rd().c_str(), 0));
    std::vector<double> c = collect_coverages(t, p, r);
    printf("%zu", c.size());
    for (double x : c) printf(" %.17g", x);
    printf("\n"); fflush(stdout);
  }
}
''')
    exe = os.path.join(d, "drv")
    srcs = [os.path.join(src, "src", f) for f in sorted(os.listdir(os.path.join(src, "src")))
            if f.endswith(".cpp")]
    cmd = ["g++", "-std=c++14", "-O1", "-I", os.path.join(src, "include"), "-include", "cstdlib",
           drv] + srcs + ["-o", exe]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        _cpp.append(None)
        return None
    _cpp.append(subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    return _cpp[0]


def cpp_coverages(types, ask, ratios):
    p = cpp_driver()
    if p is None:
        return None
    p.stdin.write("%d %d %d\n" % (len(types), len(ask), len(ratios)))
    p.stdin.write("".join(x + "\n" for x in list(types) + list(ask)))
    p.stdin.write("".join("%.17g\n" % x for x in ratios))
    p.stdin.flush()
    v = p.stdout.readline().split()
    require(v and int(v[0]) == len(v) - 1, "C++ collect_coverages died")
    return [float(x) for x in v[1:]]


def check_C21(case):
    from scaks.solvers.kmc_plugins.kmc_functions import collect_coverages
    if case["mode"] == "func":
        types, ask, ratios = case["types"], case["ask"], case["ratios"]
        want = cov_oracle(types, ask, ratios)
        before = copy.deepcopy((types, ask, ratios))
        for what, have in (("Python", collect_coverages(types, ask, ratios)),
                           ("C++", cpp_coverages(types, ask, ratios))):
            if have is None:
                continue
            require(len(have) == len(want), "{}: {} coverages for {} types", what, len(have),
                    len(want))
            for a, h, w in zip(ask, have, want):
                require(close(h, w, 1e-9, 1e-12), "{} coverage of {} is {} instead of {}",
                        what, a, h, w)
        require(before == (types, ask, ratios), "arguments changed")
        return True
    from scaks.solvers.kmc_plugins import CoveragesAnalysis
    m = Fake(coverage_ratios=list(case["ratios"]), possible_element_types=list(case["possible"]),
             empty_type=case["empty"])
    a = CoveragesAnalysis(m, filename="cov_out.py", buffer_size=case["buffer"])
    for k, (st, t, types) in enumerate(case["steps"]):
        (a.setup if k == 0 else a.registerStep)(st, t, Conf(list(types)), Inter(0))
    a.finalize()
    try:
        g = run_file("cov_out.py")
    except Exception as e:                                    # noqa
        raise Bad("the written file does not evaluate: %r\n%s" % (
            e, open("cov_out.py").read()[-1500:]))
    steps = case["steps"]
    require(list(g["times"]) == [s[1] for s in steps], "times {} expected {}", g["times"],
            [s[1] for s in steps])
    require(list(g["steps"]) == [s[0] for s in steps], "steps {} expected {}", g["steps"],
            [s[0] for s in steps])
    require(list(g["possible_types"]) == case["possible"], "types {}", g["possible_types"])
    cov = g["coverages"]
    require(len(cov) == len(case["possible"]), "{} coverage rows", len(cov))
    for i, name in enumerate(case["possible"]):
        others = [x for x in case["possible"] if x != case["empty"]]
        for k, s in enumerate(steps):
            require(len(cov[i]) == len(steps), "{} coverages of {} for {} steps", len(cov[i]),
                    name, len(steps))
            if name == case["empty"]:
                w = 1.0 - sum(cov_oracle(s[2], others, case["ratios"]))
            else:
                w = cov_oracle(s[2], [name], case["ratios"])[0]
            require(close(cov[i][k], w, 1e-9, 1e-12), "coverage of {} at step {} is {} instead "
                    "of {}", name, k, cov[i][k], w)
    return True


# ------------------------------------------------------------------ C22, C23
def _labels(rng):
    base = ["CO_g + *_t -> CO_t", "O2_g + 2*_b -> 2O_b", "CO_b + O_b <-> CO-O_2b -> CO2_g + 2*_b"]
    n = rng.randint(1, 6)
    return [rng.choice(base) + rng.choice(["(->)", "(<-)"]) for _ in range(n)]


def gen_C22(rng):
    lab = _labels(rng)
    extra = rng.choice([0, 0, 0, 2])                # fast processes have no label
    n = rng.choice([2, 3, rng.randint(2, 40)])
    if rng.random() < .02:
        n = rng.randint(200, 1500)
    t, st, steps = 0.0, 0, []
    inc = rng.choice([1, 1, 3, 10, 50, 100, 250, 1000] + [i for i in literals()[0] if 1 < i < 10**6]*2)
    for i in range(n):
        st += inc
        t += rng.choice([rng.uniform(1e-9, 1), 10.0, 1e-7])
        steps.append([st, t, rng.randrange(len(lab))])
    return dict(labels=lab, extra=extra, steps=steps,
                start=rng.choice([0, 0, 1, rng.randint(0, n*inc), steps[-1][0],
                                  rng.choice(steps)[0]]),
                reps=[rng.randint(1, 4) for _ in range(3)], nb=rng.randint(1, 4))


def _kmc_fake(case, **kw):
    lab = list(case["labels"])
    sol = Fake(process_mapping=lab)
    return Fake(processes=[None]*(len(lab) + case.get("extra", 0)), process_mapping=lab,
                solver=sol, repetitions=tuple(case["reps"]),
                basis_sites=[[0.0, 0.0, 0.0]]*case["nb"], **kw)


def check_C22(case):
    from scaks.solvers.kmc_plugins import FrequencyAnalysis
    m = _kmc_fake(case, tof_start=case["start"])
    a = FrequencyAnalysis(m, filename="freq_out.py")
    a.setup(0, 0.0, None, Inter(0))
    counted = [s for s in case["steps"] if s[0] >= case["start"]]
    for st, t, p in case["steps"]:
        a.registerStep(st, t, None, Inter(p))
    if len(counted) < 2:
        return False
    a.finalize()
    g = run_file("freq_out.py")
    occ = [0]*(len(case["labels"]) + case["extra"])
    rx = {k: 0 for k in case["labels"]}
    srx = dict(rx)
    for st, t, p in case["steps"]:
        occ[p] += 1
        rx[case["labels"][p]] += 1
        if st >= case["start"]:
            srx[case["labels"][p]] += 1
    require(list(g["process_occurencies"]) == occ, "occurrences {} expected {}",
            g["process_occurencies"], occ)
    require(g["reaction_occurencies"] == rx, "per label {} expected {}",
            g["reaction_occurencies"], rx)
    require(g["steady_reaction_occurencies"] == srx, "from the start step {} expected {}",
            g["steady_reaction_occurencies"], srx)
    ns = case["reps"][0]*case["reps"][1]*case["reps"][2]*case["nb"]
    dt = counted[-1][1] - counted[0][1]
    require(sorted(g["reaction_rates"]) == sorted(srx), "rates of {}", g["reaction_rates"])
    for k, v in srx.items():
        require(close(g["reaction_rates"][k], v/(ns*dt), 1e-9), "rate of {} is {} instead of {}",
                k, g["reaction_rates"][k], v/(ns*dt))
    return True


def gen_C23(rng):
    lab = _labels(rng)
    n = rng.choice([rng.randint(0, 12), rng.randint(5, 40)])
    if rng.random() < .02:
        n = rng.randint(400, 1500)
    iv = rng.choice([10, 1.0, .5, rng.uniform(.01, 3), 0.0, 2])
    t, steps = 0.0, []
    for i in range(n):
        t += rng.choice([iv, iv/2., iv*2, rng.uniform(0, 1.5)*(iv or 1), 1e-9, .25])
        steps.append([i + 1, t, rng.randrange(len(lab))])
    return dict(labels=lab, extra=rng.choice([0, 0, 1]), steps=steps, interval=iv,
                buffer=rng.choice([1, 2, 3, 500]), reps=[rng.randint(1, 4) for _ in range(3)],
                nb=rng.randint(1, 4))


def check_C23(case):
    from scaks.solvers.kmc_plugins import TOFAnalysis
    m = _kmc_fake(case, tof_interval=case["interval"], tof_start=0)
    a = TOFAnalysis(m, filename="tof_out.py", buffer_size=case["buffer"])
    a.setup(0, 0.0, None, Inter(0))
    for st, t, p in case["steps"]:
        a.registerStep(st, t, None, Inter(p))
    a.finalize()
    g = run_file("tof_out.py")
    ns = case["reps"][0]*case["reps"][1]*case["reps"][2]*case["nb"]
    npr = len(case["labels"]) + case["extra"]
    t0, cnt, times, tofs = 0.0, [0]*npr, [], []
    for st, t, p in case["steps"]:
        cnt[p] += 1
        if t - t0 > case["interval"]:
            times.append(t0)
            tofs.append([c/(ns*(t - t0)) for c in cnt])
            t0, cnt = t, [0]*npr
    require(list(g["processes"]) == case["labels"], "processes {}", g["processes"])
    require(list(g["times"]) == times, "window starts {} expected {}", g["times"], times)
    require(len(g["tofs"]) == len(tofs), "{} windows expected {}", len(g["tofs"]), len(tofs))
    for h, w in zip(g["tofs"], tofs):
        require(len(h) == npr and all(close(x, y, 1e-9) for x, y in zip(h, w)),
                "window {} expected {}", h, w)
    return bool(times)


# ------------------------------------------------------------------ C32
def gen_C32(rng):
    nb = rng.randint(1, 4)
    reps = [rng.randint(1, 5) for _ in range(3)]
    ns = reps[0]*reps[1]*reps[2]*nb
    pst = rng.sample(["P", "t", "b", "hcp", "T"], rng.randint(1, 4))
    pet = rng.sample(["V", "O", "C", "CO", "O_s"], rng.randint(1, 4))
    c = dict(nb=nb, reps=reps, pst=pst, pet=pet,
             cell=[[rng.uniform(1, 4), 0.0, 0.0], [rng.uniform(0, 1), 3.0, 0.0], [0.0, 0.0, 3.0]],
             basis=[[round(i/nb, 3), 0.0, 0.25*i] for i in range(nb)],
             periodic=[rng.random() < .5 for _ in range(3)],
             empty=rng.choice(pet + pet + ["Q"]),
             sites=rng.choice(["none", "other", "ok", "ok", "long", "short", "type", "empty"]),
             conf=rng.choice(["none", "other", "ok"]), where=rng.random())
    c["site_types"] = [rng.choice(pst) for _ in range(ns)]
    c["types"] = [rng.choice(pet) for _ in range(ns)]
    return c


def check_C32(case):
    import numpy as np
    rx = [[[[1, "CO", 1, "g"], [1, "*", 1, "s"]], [[1, "CO", 1, "s"]]]]
    base = dict(rxns=rx, defs={"CO_g": {"pressure": 1.0}}, T=500.0)
    m = kmc_model(base, possible_element_types=list(case["pet"]), empty_type=case["empty"],
                  possible_site_types=list(case["pst"]), repetitions=tuple(case["reps"]),
                  basis_sites=case["basis"], cell_vectors=case["cell"],
                  periodic=tuple(case["periodic"]))
    ns = case["reps"][0]*case["reps"][1]*case["reps"][2]*case["nb"]
    st = list(case["site_types"])
    bad = False
    if case["sites"] == "long":
        st, bad = st + [case["pst"][0]], True
    elif case["sites"] == "short":
        st, bad = st[:-1], True
    elif case["sites"] == "empty":
        st, bad = [], True
    elif case["sites"] == "type":
        st[int(case["where"]*ns) % ns] = "ZZ"
        bad = True
    fn = "sites_in.py"
    if os.path.exists(fn):
        os.remove(fn)
    if case["sites"] == "other":
        _write(fn, "something = 1\n")
    elif case["sites"] != "none":
        _write(fn, "site_types = %r\n" % (st,))
    if bad:
        got = raises(("SetupError",), m.parser.construct_sitesmap, fn)
        require(got is not None, "site types accepted: {} for {} sites of {}", st, ns, case["pst"])
    else:
        sm = m.parser.construct_sitesmap(fn)
        want = st if case["sites"] == "ok" else [case["pst"][0]]*ns
        require(list(sm.kwargs["types"]) == want, "site types {} expected {}", sm.kwargs["types"],
                want)
        require(list(sm.kwargs["possible_types"]) == case["pst"], "possible site types {}",
                sm.kwargs["possible_types"])
        check_lattice(sm.kwargs["lattice"], case)
    fn = "conf_in.py"
    if os.path.exists(fn):
        os.remove(fn)
    if case["conf"] == "other":
        _write(fn, "something = 1\n")
    elif case["conf"] == "ok":
        _write(fn, "types = %r\n" % (case["types"],))
    if case["empty"] not in case["pet"]:
        got = raises(("SetupError",), m.parser.parse_configuration, fn)
        require(got is not None, "empty type {} accepted among {}", case["empty"], case["pet"])
        return True
    cf = m.parser.parse_configuration(fn)
    want = case["types"] if case["conf"] == "ok" else [case["empty"]]*ns
    require(list(cf.kwargs["types"]) == want, "configuration {} expected {}",
            cf.kwargs["types"], want)
    require(list(cf.kwargs["possible_types"]) == case["pet"], "possible types {}",
            cf.kwargs["possible_types"])
    check_lattice(cf.kwargs["lattice"], case)
    return True


def check_lattice(lat, case):
    uc = lat.kwargs["unit_cell"].kwargs
    require([list(map(float, r)) for r in uc["cell_vectors"]] == case["cell"], "cell vectors {}",
            uc["cell_vectors"])
    require([list(map(float, r)) for r in uc["basis_points"]] == case["basis"], "basis points {}",
            uc["basis_points"])
    require(list(lat.kwargs["repetitions"]) == case["reps"], "repetitions {}",
            lat.kwargs["repetitions"])
    require(list(lat.kwargs["periodic"]) == case["periodic"], "periodic {}",
            lat.kwargs["periodic"])
