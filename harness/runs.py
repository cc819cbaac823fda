#!/usr/bin/env python3
"""Runs the real drivers as a user would: one process per command, in a scratch directory per case.
Each command is the JSON of one generated run (system, presentation); the command line is derived from it here,
and everything the program printed, left behind and returned becomes one event."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

R = {0: 0.0, 1: 1.0, 2: 1.4, 3: 2.0, 4: 2.5}
BOHR = 0.52917721092
BAS = {1: (4, 10, 4), 2: (4, 9, 5), 3: (5, 6, 5), 4: (8, 5, 5)}
DBAS = {1: (4, 10, 3), 2: (4, 9, 3), 3: (5, 6, 3), 4: (8, 5, 3)}         # the two-centre grid is denser
PARTS = {"kinetic": "t", "nuclear": "v", "Coulomb": "j", "XC": "c", "Exx": "x", "Eefield": "ef", "Emfield": "mf", "Econf": "cf", "Enucr": "nr", "total": "tot",
         "Ekin": "t", "Enuc": "v", "Ecoul": "j", "Exc": "c", "Etot": "tot"}
CONF = {0: [], 1: ["--iconf=1", "--conf_N=4", "--conf_R=5"], 2: ["--iconf=2", "--conf_N=1", "--conf_R=6"], 3: ["--iconf=3", "--conf_barrier=3", "--shift_conf=4"], 4: ["--iconf=4", "--conf_N=1", "--conf_barrier=2", "--shift_conf=3"]}


def args(o):
    s, p = o["s"], o["p"]
    z = s["z1"] + s["z2"] if s["k"] == "mo" else s["zc"]
    prog = p["prog"]
    a = []
    if prog == "dia":
        z1, z2 = (s["z1"], s["z2"]) if s["k"] == "mo" else ((s["zc"], 0) if p["ang"] == 0 else (0, s["zc"]))
        r = R[s["rb"]] if s["k"] == "mo" else 1.4
        if p["ang"] and s["k"] == "mo":
            a += ["--angstrom=1"]
            r *= BOHR
        a += ["--Z1=%s" % name(z1, p), "--Z2=%s" % name(z2, p), "--Rbond=%.12f" % r]
    else:
        a += ["--Z=%s" % name(s["zc"], p)]
        if s["k"] == "em":
            r = R[s["rb"]]
            if p["ang"]:
                a += ["--angstrom=1"]
                r *= BOHR
            a += ["--Zl=%s" % name(s["z1"], p), "--Zr=%s" % name(s["z2"], p)]
            if p["bad"] != "em_norm":
                a += ["--Rmid=%.12f" % r]
            if p["bad"] != "em_nelem0":
                a += ["--nelem0=2"]
    n = s["na"] + s["nb"]
    if p["bad"] == "nosplit":
        a += ["--Q=%d" % (z - n), "--restricted=0"]
    elif p["bad"] == "stripped":
        a += ["--Q=%d" % z]
    elif p["bad"] == "mult":
        a += ["--Q=%d" % (z - n), "--M=%d" % (s["na"] - s["nb"] + 2)]
    elif p["qm"]:
        a += ["--Q=%d" % (z - n), "--M=%d" % (s["na"] - s["nb"] + 1)]
    else:
        a += ["--nela=%d" % s["na"], "--nelb=%d" % s["nb"]]
    if p["restr"] >= 0 and p["bad"] != "nosplit":
        a += ["--restricted=%d" % p["restr"]]
    pb, nn, ne = (DBAS if prog == "dia" else BAS)[p["bas"]]
    a += ["--method=%s" % ("nosuch_functional" if p["bad"] == "method" else s["me"]), "--verbosity=1", "--primbas=%d" % pb, "--nnodes=%d" % nn, "--nelem=%d" % ne]
    a += ["--Rmax=%d" % (10 if s["qz"] else 20 if s["ez"] else 40), "--iguess=%d" % (9 if p["bad"] == "guess" else p["guess"])]
    if p["bad"] == "nquad":
        a += ["--nquad=3"]
    lm, mm = s["lm"] + p["lx"], s["mm"]
    if prog == "dia":
        a += ["--lmax=%d" % (lm + (4 if max(s["zc"], s["z1"], s["z2"]) < 3 and not s["lm"] else 3 if s["lm"] else 6)), "--mmax=%d" % mm]
        if p["pure"] >= 0:
            a += ["--purem=%d" % p["pure"]]
    else:
        a += ["--lmax=%d" % lm]
        if prog == "ato":
            a += ["--mmax=%d" % mm]
    if prog != "sad":
        a += ["--symmetry=%d" % p["sym"]]
        for f in ("ez", "qz", "bz"):
            if s[f]:
                a += ["--%s=%.10g" % ({"ez": "Ez", "qz": "Qzz", "bz": "Bz"}[f], s[f] * 1e-4)]
    a += CONF[s["cf"]]
    occ = None
    if s["oc"]:
        rows = [list(x) for x in s["oc"]]
        if prog == "sad":
            v = [[0] * (lm + 1), [0] * (lm + 1)]
            for x in rows:
                v[0][x[2]] += x[0]
                v[1][x[2]] += x[1]
            t = v[0] + v[1] if p["restr"] != 1 and not (p["restr"] == -1 and s["na"] == s["nb"]) else [x + y for x, y in zip(*v)]
            if p["bad"] == "occ_cols":
                t = t + [0]
            a += ["--occs=" + " ".join(str(x) for x in t)]
        else:
            a += ["--readocc=1"]
            if p["bad"] == "occ_sum":
                rows[0][0] += 1
                rows[0][1] += 1
            if p["bad"] == "occ_m":
                rows[0][3] = mm + 1
            w = p["sym"] == 2
            if p["bad"] == "occ_cols":
                occ = [x[:2] for x in rows]
            else:
                occ = [[x[0], x[1], x[2], x[3]] if w and prog == "ato" else [x[0], x[1], x[3], x[2]] if w and s["k"] == "mo" and x[2] else [x[0], x[1], x[3]] for x in rows]
    if p["save"]:
        a += ["--save=" + p["save"]]
    if p["load"]:
        a += ["--load=" + p["load"]]
    if p["pot"] and prog == "sad":
        a += ["--pot=lda_x"]
    return a, occ


SYM = ["", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne"]


def name(z, p):
    return SYM[z] if 0 < z <= 10 and p["qm"] else str(z)


def micro(x):
    v = float(x)
    return int(round(v * 1e6)) if abs(v) < 2e3 else 2000000000


def digest(f):
    return hashlib.sha256(open(f, "rb").read()).hexdigest() if f and os.path.exists(f) else ""


def parts(line):
    w = line.split()
    d = {k: 0 for k in ("t", "v", "j", "c", "x", "ef", "mf", "cf", "nr", "tot")}
    seen = set()
    for i in range(len(w) - 1):
        if w[i] in PARTS:
            d[PARTS[w[i]]] = micro(w[i + 1])
            seen.add(PARTS[w[i]])
    m = re.search(r"nel err ([^)]*)\)", line)
    d["ne"] = micro(m.group(1)) if m else 0
    return d, seen


def execute(o, d):
    a, occ = args(o)
    s, p = o["s"], o["p"]
    for f in os.listdir(d):
        if f.endswith(".dat"):
            os.remove(os.path.join(d, f))
    if occ is not None and p["bad"] != "occ_missing":
        with open(os.path.join(d, "occs.dat"), "w") as f:
            for r in occ:
                f.write(" ".join(str(x) for x in r) + "\n")
    path = lambda f: os.path.join(d, f) if f else ""
    before, sbefore = digest(path(p["load"])), digest(path(p["save"]))
    env = dict(os.environ, OMP_NUM_THREADS=str(p["thr"]), OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE")
    lim = 240
    t0 = time.time()
    try:
        q = subprocess.run([os.environ["VP_DRV_" + p["prog"].upper()]] + a, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim)
    except subprocess.TimeoutExpired:
        return {"e": "CRASH", "how": "timeout", "args": a}
    out = q.stdout.decode(errors="replace")
    lines = [l for l in out.splitlines() if re.match(r"(kinetic|Ekin) ", l)]
    ev = {"e": "run", "s": s, "p": p, "args": " ".join(a), "r": "ok" if q.returncode == 0 else "err", "rc": q.returncode, "n": len(lines)}
    if os.environ.get("VP_TIMES"):
        ev["sec"] = round(time.time() - t0, 1)
    if lines:
        ev["first"], ev["last"] = parts(lines[0])[0], parts(lines[-1])[0]
        ev["shown"] = sorted(parts(lines[-1])[1])
    ev["kept"] = not p["load"] or p["load"] == p["save"] or digest(path(p["load"])) == before
    ev["saved"] = bool(p["save"]) and digest(path(p["save"])) not in ("", sbefore)
    ev["there"] = bool(p["save"]) and digest(path(p["save"])) != ""
    if p["prog"] == "sad" and p["pot"] and q.returncode == 0:
        g = lambda pat: (lambda m: micro(m.group(1)) if m else 2000000000)(re.search(pat + r"\s+(\S+)", out))
        ev["nq"], ev["cq"], ev["cusp"] = g("Electron density by quadrature:"), g("yields Coulomb energy"), g("Cusp condition is")
        sym = SYM[s["zc"]]
        try:
            tab = [[float(y) for y in l.split()] for l in open(os.path.join(d, "result_%s.dat" % sym))]
            ev["zn"], ev["zf"] = micro(min(tab, key=lambda r: r[0])[8]), micro(max(tab, key=lambda r: r[0])[5])
        except Exception:
            ev["zn"] = ev["zf"] = 2000000000
    return ev


def main():
    case, d = None, None
    top = os.getcwd()
    print_ = lambda x: (sys.stdout.write(x + "\n"), sys.stdout.flush())
    for line in sys.stdin:
        line = line.rstrip("\n")
        if line == "CASE":
            if d:
                shutil.rmtree(d, ignore_errors=True)
                print_("@END")
            print_("@CASE")
            d = tempfile.mkdtemp(prefix="case", dir=top)
            print_(json.dumps({"e": "begin"}))
        elif line:
            print_(json.dumps(execute(json.loads(line), d)))
    if d:
        shutil.rmtree(d, ignore_errors=True)
        print_("@END")


main()
