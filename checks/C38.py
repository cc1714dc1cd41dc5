"""Batch scripts and small reports: jobs of image processing, fiducial centers, distances from centers."""
import json, os, stat, subprocess, sys, tempfile
import numpy as np
from vlib import core
from checks.C35 import call, data

STANDIN = """#!%s -ISE
import sys, json, os
open(os.environ["C38_LOG"], "a").write(json.dumps(sys.argv[1:]) + "\\n")
for k, a in enumerate(sys.argv):
    if a in ("-o", "--output-transform"):
        open(sys.argv[k + 1], "w").write("x\\n")
"""


def run(ck):
    ck.rule = "a case is one run of a script on generated files; distinct by the files"
    ck.assumptions = ["files of the list have distinct base names and names without blanks", "a stand-in for desi_fvc_proc records its command line, which is read with the parser of the repository; it always succeeds"]
    ck.parallel(chunk, [("batch", i, ck.n(2, 8)) for i in range(6)] + [("centers", i, ck.n(1, 4)) for i in range(2)] + [("distance", i, ck.n(2, 10)) for i in range(2)])
    for m, k in (("ends", 30), ("commands", 12), ("table", 20), ("job-size", 20), ("jobs-run", 20), ("not-again", 8), ("only-missing", 8), ("input-mode", 12), ("centers-rows", 2), ("centers-values", 100), ("distance", 100), ("distance-counts", 4)):
        ck.require(m, k)


def chunk(ck, item):
    what, i, n = item
    g = ck.rng(what, i)
    for j in range(n):
        with tempfile.TemporaryDirectory(prefix="c38_") as d:
            globals()[what](ck, g, d, i, j)


# ------------------------------------------------------------------------------------------------ batch
def images(g, d, n, name="fvc"):
    """files, and what has to be done for them: list of (file, extension or None, date)"""
    from astropy.io import fits
    files, todo = [], []
    for k in range(n):
        kind = g.choice(["single", "seq", "seq", "nodate", "missing", "broken", "primary", "compressed"], p=[.2, .2, .3, .06, .06, .06, .06, .06])
        sub = os.path.join(d, "night%d" % g.integers(2))
        os.makedirs(sub, exist_ok=True)
        suffix = str(g.choice([".fits", ".fits.fz", ".fits.gz"]))
        f = os.path.join(sub, "%s-%s%08d%s%s" % (name, "primary-" if kind == "primary" else "", 7 * k + int(g.integers(7)), g.choice(["", ".v2"]), suffix))
        files.append(f)
        day = "2020-0%d-%02d" % (g.integers(1, 10), g.integers(1, 29))
        stamp = lambda: "%sT%02d:%02d:%02d%s" % (day, g.integers(24), g.integers(60), g.integers(60), g.choice(["", ".250", ".123456"]))
        img = np.zeros((4, 4), np.int16)
        if kind == "missing":
            continue
        if kind == "broken":
            open(f, "wb").write(b"this is not an image")
            continue
        if kind in ("single", "nodate", "primary"):
            h = fits.PrimaryHDU(img)
            if kind != "nodate":
                s = stamp()
                if g.random() < .3:
                    h.header["DATE"] = s
                else:
                    h.header["DATE-OBS"] = s
                    if g.random() < .4:
                        h.header["DATE"] = stamp()
                if kind == "single":
                    todo.append((f, None, s.split(".")[0]))
            fits.HDUList([h]).writeto(f)
            continue
        hs = fits.HDUList([fits.PrimaryHDU()])
        if g.random() < .5:
            hs[0].header["DATE-OBS"] = stamp()          # of the primary header, which has no image
        m = int(g.integers(1, 6))
        for q in g.choice(9, m, replace=False):
            H = fits.CompImageHDU if kind == "compressed" else fits.ImageHDU
            h = H(np.zeros((4, 4), np.int16), name="F%04d" % q)
            s = stamp()
            dated = g.random() < .85
            if dated:
                h.header["DATE-OBS"] = s
                todo.append((f, "F%04d" % q, s.split(".")[0]))
            hs.append(h)
        if g.random() < .4:
            h = fits.ImageHDU(img, name=str(g.choice(["GUIDE", "COORDS"])))
            h.header["DATE-OBS"] = stamp()
            hs.insert(int(g.integers(1, len(hs) + 1)), h)
        if g.random() < .2:
            h = fits.ImageHDU(img)
            h.header["DATE-OBS"] = stamp()
            hs.append(h)
        hs.writeto(f)
    return files, todo


def outputs(out, f, ext, date):
    b = os.path.basename(f)
    for s in (".fits.fz", ".fits.gz", ".fits"):
        if b.endswith(s):
            b = b[:-len(s)]
            break
    b = "%s-%s-%s" % (b.replace(".", "-"), ext or "0", date)
    return os.path.join(out, b + ".csv"), os.path.join(out, "transfo", b + ".json")


def jobs(jobdir):
    return sorted(os.path.join(jobdir, f) for f in os.listdir(jobdir) if f.startswith("job-") and f.endswith(".sh"))


def execute(ck, d, jobdir, log):
    """run the jobs; commands they gave"""
    fake = os.path.join(d, "fake")
    if not os.path.isdir(fake):
        os.makedirs(fake)
        p = os.path.join(fake, "desi_fvc_proc")
        open(p, "w").write(STANDIN % sys.executable)
        os.chmod(p, 0o755)
    open(log, "w").close()
    for j in jobs(jobdir):
        e = dict(os.environ, PATH=fake + ":" + os.environ["PATH"], C38_LOG=log, PYTHONDONTWRITEBYTECODE="1")
        x = os.access(j, os.X_OK) and bool(os.stat(j).st_mode & 0o111)
        r = subprocess.run([j] if x else ["true"], env=e, cwd=d, capture_output=True, text=True, timeout=300)
        ck.ok("jobs-run", x and r.returncode == 0 and not r.stderr.strip(), job=j, executable=x, rc=r.returncode, err=r.stderr[-400:])
    from desimeter.processfvc import get_parser
    r = []
    for l in open(log):
        try:
            a = get_parser().parse_args(json.loads(l))
        except SystemExit:
            r.append(json.loads(l))     # refused: not a command of the image processing
            continue
        r.append([a.infile, a.extname, a.outfile, a.output_transform, bool(a.sequence), bool(a.nomatch), a.min_spots])
    return r


def batch(ck, g, d, i, j):
    from astropy.table import Table
    files, todo = images(g, d, int(g.integers(4, 11)))
    jobdir, out, lst, log = (os.path.join(d, x) for x in ("jobs", "out", "list.txt", "log"))
    open(lst, "w").write("\n".join(files) + "\n")
    n = int(g.integers(1, 8)) if g.random() < .8 else 500
    options, want = [], [False, False, None]
    if g.random() < .5:
        options, want = [(["--options", "--min-spots 12"], [False, False, 12]), (["--options", "--nomatch --min-spots 3"], [False, True, 3])][int(g.integers(2))]
    args = ["-i", lst, "-j", jobdir, "-o", out, "--ntasks-per-job", n] + options
    if n == 500 and g.random() < .5:
        args = args[:6] + options
    ck.case("batch", files=[os.path.relpath(f, d) for f in files], todo=[t[1:] for t in todo], ntasks=n, options=options)
    mode = {f: stat.S_IMODE(os.stat(f).st_mode) for f in files if os.path.exists(f)}
    if not call(ck, "write_fvc_image_processing_scripts", args, d):
        return

    def same_mode():
        ck.ok("input-mode", all(stat.S_IMODE(os.stat(f).st_mode) == m for f, m in mode.items()), args=args)

    def table(step):
        t = Table.read(os.path.join(out, "fvc-desimeter-and-dates.csv"), format="csv")
        got = [(str(a), str(b)) for a, b in zip(t["DATE"], t["FILE"])] if len(t) else []
        exp = [(c, outputs(out, a, b, c)[0]) for a, b, c in todo]
        ck.ok("table", got == exp, step=step, got=got[:6], expected=exp[:6], n=len(got), m=len(exp))

    def sizes(step, left):
        # a file is not spread over two jobs; a job that has its number of tasks takes no other file
        js = [open(q).read().count("desi_fvc_proc") for q in jobs(jobdir)]
        per, cur, exp = {}, 0, []
        for a, b, c in left:
            per[a] = per.get(a, 0) + 1
        for f in files:
            if "primary" in f:
                continue
            if cur >= n:
                exp.append(cur)
                cur = 0
            cur += per.get(f, 0)
        exp.append(cur)
        ck.ok("job-size", js[:len(exp)] == exp, step=step, ntasks=n, got=js, expected=exp)

    from desimeter.processfvc import get_parser
    DEFAULT = get_parser().get_default("extname")

    def commands(step, got, left):
        exp = sorted([a, DEFAULT if b is None else b, *outputs(out, a, b, c)] + want for a, b, c in left)
        now = sorted([q for q in got], key=str)
        ck.ok("commands" if step == "first" else "not-again" if not left else "only-missing", now == sorted(exp, key=str), step=step, args=args, got=now[:4], expected=exp[:4], n=len(now), m=len(exp))

    same_mode()
    table("first")
    sizes("first", todo)
    commands("first", execute(ck, d, jobdir, log), todo)
    # once more: the jobs know what is done
    commands("jobs again", execute(ck, d, jobdir, log), [])
    # written again: nothing is left to do
    if not call(ck, "write_fvc_image_processing_scripts", args, d):
        return
    table("again")
    # some of the products are lost: those, and only those, are made again by new jobs
    if todo:
        lost = [t for t in todo if g.random() < .4] or [todo[int(g.integers(len(todo)))]]
        for t in lost:
            o = outputs(out, *t)
            which = int(g.integers(3))
            for q in (0, 1):
                if which in (q, 2) and os.path.exists(o[q]):
                    os.remove(o[q])
        new = os.path.join(d, "jobs2")
        args[3] = jobdir = new
        if not call(ck, "write_fvc_image_processing_scripts", args, d):
            return
        table("lost")
        sizes("lost", lost)
        commands("lost", execute(ck, d, new, log), lost)
    same_mode()


# ------------------------------------------------------------------------------------------------ fiducial centers
def altered(g, d):
    """a data directory of its own with other petal coordinates and with rows in another order"""
    import shutil
    from astropy.table import Table
    src = os.path.dirname(data("fp-metrology.csv"))
    new = os.path.join(d, "data")
    os.makedirs(new)
    for f in os.listdir(src):
        if f != "fp-metrology.csv" and os.path.isfile(os.path.join(src, f)):
            os.symlink(os.path.join(src, f), os.path.join(new, f))
        elif os.path.isdir(os.path.join(src, f)):
            os.symlink(os.path.join(src, f), os.path.join(new, f))
    t = Table.read(os.path.join(src, "fp-metrology.csv"))
    for c in ("X_PTL", "Y_PTL", "Z_PTL"):
        t[c] = np.round(np.array(np.ma.filled(t[c], np.nan), dtype=float) + g.normal(0, .05, len(t)), 6)
    t = t[g.permutation(len(t))]
    t.write(os.path.join(new, "fp-metrology.csv"), format="csv")
    return new


def centers(ck, g, d, i, j):
    from astropy.table import Table
    where = os.path.dirname(data("fp-metrology.csv"))
    env = {}
    if (i + j) % 2:
        where = altered(g, d)
        env["DESIMETER_DATA"] = where
    ck.case("centers", i=i, j=j, altered=bool(env))
    e = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", **env)
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.REPO, "bin", "dump_fiducial_centers")], env=e, cwd=d, capture_output=True, text=True, timeout=300)
    ck.ok("ends", p.returncode == 0, rc=p.returncode, err=p.stderr[-600:])
    if p.returncode:
        return
    m = Table.read(os.path.join(where, "fp-metrology.csv"))
    dev = np.array(np.ma.filled(m["DEVICE_TYPE"], "")).astype(str)
    loc = np.array(m["PETAL_LOC"]) * 1000 + np.array(np.ma.filled(m["DEVICE_LOC"], -1))
    fid = np.isin(dev, ["FIF", "GIF"])
    want = {}
    for l in np.unique(loc[fid]):
        k = np.flatnonzero(fid & (loc == l))
        want[(str(m["DEVICE_ID"][k[0]]), int(m["DEVICE_LOC"][k[0]]))] = [float(np.mean(np.array(m[c], dtype=float)[k])) for c in ("X_PTL", "Y_PTL", "Z_PTL")]
    L = [l for l in p.stdout.splitlines() if l.count(",") == 4]     # the log may come first
    L = L[next(k for k, l in enumerate(L) if l.startswith("DEVICE_ID")):]
    got = {}
    for l in L[1:]:
        q = l.split(",")
        got[(q[0], int(q[1]))] = [float(x) for x in q[2:]]
    ck.ok("centers-rows", L[0] == "DEVICE_ID,DEVICE_LOC,X_PTL,Y_PTL,Z_PTL" and set(got) == set(want) and len(L) - 1 == len(want), n=len(L) - 1, m=len(want), extra=sorted(set(got) ^ set(want))[:5])
    for k in want:
        if k in got:
            ck.ok("centers-values", np.allclose(got[k], want[k], atol=6e-4, rtol=0), device=k, got=got[k], expected=want[k])


# ------------------------------------------------------------------------------------------------ distances
def distance(ck, g, d, i, j):
    from astropy.table import Table
    m = Table.read(data("fp-metrology.csv"))
    dev = np.array(np.ma.filled(m["DEVICE_TYPE"], "")).astype(str)
    x = np.array(np.ma.filled(m["X_FP"], np.nan), dtype=float)
    k = np.flatnonzero((dev == "POS") & np.isfinite(x))
    k = g.choice(k, int(g.integers(100, 400)), replace=False)
    r = np.where(g.random(len(k)) < .9, g.uniform(.1, 7.5, len(k)), g.uniform(7, 12, len(k)))
    r = np.where(np.abs(r - np.round(r)) < .02, r + .05, r)
    a = g.uniform(0, 2 * np.pi, len(k))
    ids = np.array(m["DEVICE_ID"]).astype(str)[k]
    loc = (np.array(m["PETAL_LOC"]) * 1000 + np.array(np.ma.filled(m["DEVICE_LOC"], -1)))[k]
    on = g.random(len(k)) < .8
    t = Table({"LOCATION": np.where(on, loc, -1), "X_FP": x[k] + r * np.cos(a), "Y_FP": np.array(m["Y_FP"], dtype=float)[k] + r * np.sin(a), "PINHOLE_ID": np.zeros(len(k), int)})
    f = os.path.join(d, "spots.csv")
    t.write(f)
    ck.case("distance", ids=ids[:20].tolist(), r=r[:20].tolist(), n=len(k))
    args = ["-i", f]
    mode = ("all", "ids", "table")[(i + j) % 3 if g.random() < .7 else int(g.integers(3))]
    asked = None
    if mode != "all":
        other = np.array(m["DEVICE_ID"]).astype(str)[np.setdiff1d(np.flatnonzero(dev == "POS"), k)]
        asked = np.concatenate([g.choice(ids, 40, replace=False), g.choice(other, 4, replace=False)])
        if mode == "ids":
            args += ["-p", ",".join(asked)]
        else:
            args += ["--other-table-with-device-ids", os.path.join(d, "o.csv")]
            Table({"DEVICE_ID": asked}).write(os.path.join(d, "o.csv"))
    e = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.REPO, "bin", "compute_distance_from_center")] + args, env=e, cwd=d, capture_output=True, text=True, timeout=300)
    ck.ok("ends", p.returncode == 0, args=args[:2], rc=p.returncode, err=p.stderr[-600:])
    if p.returncode:
        return
    want = {a: b for a, b, c in zip(ids, r, on) if c and (asked is None or a in asked)}
    if asked is not None:
        for a in asked:
            want.setdefault(a, -1.)
    got = {}
    for l in p.stdout.splitlines():
        q = l.split()
        if len(q) == 4 and q[1] == "dist=" and q[3] == "mm":
            got[q[0]] = float(q[2])
    ck.ok("distance-rows", set(got) == set(want), mode=mode, n=len(got), m=len(want), extra=sorted(set(got) ^ set(want))[:5])
    for a in want:
        if a in got:
            ck.ok("distance", abs(got[a] - want[a]) < 1.1e-3, device=a, got=got[a], expected=want[a])
    v = np.array(list(want.values()))
    exp = {"matched": (v > 0).sum(), "unmatched": (v < 0).sum()}
    for q in (3, 4, 5, 6):
        exp["with dist<%dmm" % q] = ((v > 0) & (v < q)).sum()
    num = {l.split("=")[0].replace("number of", "").replace("number", "").strip() if "with" not in l else l[len("number "):].rsplit("=", 1)[0].strip(): int(l.rsplit("=", 1)[1]) for l in p.stdout.splitlines() if l.startswith("number ")}
    ck.ok("distance-counts", num == {a: int(b) for a, b in exp.items()}, got=num, expected={a: int(b) for a, b in exp.items()})
