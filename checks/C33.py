"""Positioner tables taken from the move database, image data and fits: every row keeps its own positioner, exposure
and calibration.  The scripts run against a stand-in database driver whose rows come back in arbitrary order."""
import datetime, os, sqlite3, subprocess, sys, tempfile
import numpy as np
from vlib import core

UTC = datetime.timezone.utc
T0 = datetime.datetime(2020, 10, 3, 1, 2, 3, tzinfo=UTC)
CAL = ["length_r1", "length_r2", "offset_x", "offset_y", "offset_t", "offset_p", "physical_range_t", "physical_range_p", "gear_calib_t", "gear_calib_p",
       "total_limit_seeks_t", "total_limit_seeks_p", "last_primary_hardstop_dir_t", "last_primary_hardstop_dir_p", "keepout_expansion_phi_radial",
       "keepout_expansion_phi_angular", "keepout_expansion_theta_radial", "keepout_expansion_theta_angular"]
PLOC = {2: 7, 3: 3, 4: 0, 5: 1, 6: 2, 7: 8, 8: 4, 9: 9, 10: 5, 11: 6}


def run(ck):
    ck.rule = "a case is one run of a script on one simulated database; distinct by the database and the options"
    ck.assumptions = ["an SQLite stand-in for the PostgreSQL server, for the statements the scripts send; every positioner has a calibration older than its moves"]
    ck.parallel(chunk, [(i, ck.n(1, 12)) for i in range(6)])
    for m, k in (("ends", 30), ("files", 8), ("rows", 60), ("values", 60), ("calibration", 40), ("rehome", 20), ("merged", 3), ("movers", 3), ("enabled", 3), ("latest", 3),
                 ("coords", 3), ("coords-calibration", 20), ("fvc-rows", 10), ("fvc-values", 10), ("dates-rows", 20), ("dates-values", 20), ("params", 3), ("moving", 20), ("query", 10), ("merge", 3), ("merge-checked", 3), ("selection", 10)):
        ck.require(m, k)


def chunk(ck, item):
    i, n = item
    g = ck.rng("chunk", i)
    for j in range(n):
        scene(ck, g, j)


class DB:
    """a database with its own memory of what it holds"""
    def __init__(self, g, d):
        from desimeter.io import load_metrology
        m = load_metrology()
        m = m[np.array(m["DEVICE_TYPE"]) == "POS"]
        self.file = os.path.join(d, "moves.db")
        self.petals = sorted(int(v) for v in g.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 3, replace=False))
        self.moves, self.cals = [], []
        self.pos, self.fp = {}, {}
        nexp = int(g.integers(2, 5))
        first = int(g.integers(100, 4000))
        step = int(g.choice([1, 1, 3, 10]))
        self.exps = [first + step * k for k in range(nexp)]
        self.its = [[0, 1, 2, 3], [0, 1, 10, 11], [0, 9, 10, 20], [0, 30, 99, 100]][int(g.integers(0, 4))]        # iterations
        same = g.random() < .6       # positioners of several petals at the same device locations
        locs = g.choice(500, 5, replace=False)
        for pet in self.petals:
            j = np.flatnonzero(np.array(m["PETAL_LOC"]) == PLOC[pet])
            for k in (j[locs[:int(g.integers(3, 6))] % len(j)] if same else g.choice(j, int(g.integers(3, 6)), replace=False)):
                self.pos[str(m["DEVICE_ID"][k])] = (pet, int(m["DEVICE_LOC"][k]))
                self.fp[str(m["DEVICE_ID"][k])] = np.array([float(m["X_FP"][k]), float(m["Y_FP"][k])])
        n = 0
        for pid, (pet, loc) in self.pos.items():
            bus, idx, seq = int(g.integers(0, 20)), int(g.integers(0, 50)), int(g.integers(0, 90))
            mover = g.random() < .7
            x, y = g.uniform(0, 380), g.uniform(-60, 60)
            on, at = True, 0.
            for q, e in enumerate(self.exps):
                for ni, it in enumerate(self.its[:int(g.integers(2, 5))]):
                    t = T0 + datetime.timedelta(seconds=int(q * 86400 * 2 + ni * 60 + g.integers(0, 5)), microseconds=int(g.choice([0, 123456])))
                    n += 1
                    idx += 1; seq += int(mover)
                    at += float(g.choice([0, .02, .07, .3])) * int(g.choice([-1, 1]))
                    on = on if g.random() < .7 else not on
                    mv = mover and g.random() < .8
                    self.moves.append(dict(petal_id=pet, device_loc=loc, pos_id=pid, pos_move_index=idx, time_recorded=t, bus_id=bus,
                                           pos_t=float(g.uniform(-170, 170)), pos_p=float(g.uniform(5, 175)), obs_x=float(g.uniform(-400, 400)), obs_y=float(g.uniform(-400, 400)),
                                           ptl_x=float(x + n * 1e-3 + at), ptl_y=float(y), ptl_z=-1.5, total_move_sequences=seq, ctrl_enabled=int(on),
                                           move_cmd="obsTP" if mv else "", move_val1="%.3f" % n, move_val2="%.3f" % -n, log_note="exp %d, iter %d, row %d" % (e, it, n), exposure_id=e, exposure_iter=it, flags=int(g.integers(0, 9)),
                                           **{k: float(g.normal()) for k in ("last_meas_obs_x", "last_meas_obs_y", "last_meas_peak", "last_meas_fwhm", "total_cruise_moves_t", "total_cruise_moves_p", "total_creep_moves_t", "total_creep_moves_p")}))
                    if it and g.random() < .25:       # an update without a move, recorded just after
                        idx += 1; n += 1
                        self.moves.append(dict(self.moves[-1], pos_move_index=idx, time_recorded=t + datetime.timedelta(seconds=20), obs_x=None, obs_y=None, pos_t=float(g.uniform(-170, 170)),
                                               move_cmd="", log_note="tp_update, row %d" % n, exposure_id=None if g.random() < .0 else e, exposure_iter=it))
            nc = int(g.integers(1, 5))
            when = [T0 - datetime.timedelta(days=30)] + [T0 + datetime.timedelta(days=float(v)) for v in sorted(g.uniform(-1, 2 * nexp, nc))]
            own = [m["time_recorded"] for m in self.moves if m["pos_id"] == pid]
            when += [own[int(k)] + datetime.timedelta(seconds=1) for k in g.choice(len(own), int(g.integers(0, 3)), replace=False)]     # while an exposure goes on
            when.sort()
            restart = int(g.integers(0, 6))        # the calibrations may be numbered anew
            for q, t in enumerate(when):
                c = dict(petal_id=pet, device_loc=loc, pos_id=pid, pos_calib_index=q + 20 if q < restart else q - restart, time_recorded=t, bus_id=bus, classified_as_retracted=0, device_classified_nonfunctional=int(g.random() < .3),
                         fiber_intact=1, calib_note="c%d" % len(self.cals))
                for k in CAL:
                    c[k] = float(g.normal())
                c.update(length_r1=float(3 + .05 * g.normal()), length_r2=float(3 + .05 * g.normal()), offset_x=float(x), offset_y=float(y), offset_t=float(g.uniform(-170, 170)), offset_p=float(g.normal()))
                self.cals.append(c)
        con = sqlite3.connect(self.file)
        for name, rows in (("moves", self.moves), ("calibration", self.cals)):
            for pet in self.petals:
                t = "positioner_%s_p%d" % (name, pet)
                keys = list(rows[0])
                con.execute("create table %s (%s)" % (t, ",".join(keys)))
                r = [q for q in rows if q["petal_id"] == pet]
                for k in g.permutation(len(r)):
                    con.execute("insert into %s values (%s)" % (t, ",".join("?" * len(keys))), [str(v) if k2 == "time_recorded" else v for k2, v in r[k].items()])
        con.execute("create table some_other_table (a)")
        con.execute("create table positioner_moves_p99 (pos_id)")
        con.commit()
        con.close()

    def cal(self, pid, t):
        c = [q for q in self.cals if q["pos_id"] == pid and q["time_recorded"] <= t]
        return max(c, key=lambda q: q["time_recorded"])


def env_of(d, seed):
    e = dict(os.environ, PYTHONPATH=os.path.join(core.VERIF, "vlib", "fakedb") + ":" + os.path.join(core.REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d,
             PYTHONDONTWRITEBYTECODE="1", VERIF_DB=os.path.join(d, "moves.db"), VERIF_DB_SEED=str(seed))
    e["PATH"] = os.path.join(core.REPO, "bin") + ":" + e["PATH"]
    return e


def call(ck, name, args, d, seed, good=(0,), text=None):
    p = subprocess.run([sys.executable, os.path.join(core.REPO, "bin", name)] + [str(a) for a in args], env=env_of(d, seed), cwd=d, capture_output=True, text=True, timeout=300, input=text)
    ck.ok("ends", p.returncode in good, script=name, args=args, rc=p.returncode, err=p.stderr[-700:])
    return p


def val(v):
    return None if v is None or v is np.ma.masked or str(v) in ("", "None", "--", "nan") else v


def key(r):
    return (str(r["POS_ID"]), int(r["POS_MOVE_INDEX"]))


def check_moves(ck, t, want, rehome=(), calib=None, **w):
    """table t holds exactly the moves want, each with its own values (and calibration)"""
    got = {}
    for r in t:
        got.setdefault(key(r), []).append(r)
    a, b = sorted(got), sorted((m["pos_id"], m["pos_move_index"]) for m in want)
    if not ck.ok("rows", a == b and all(len(v) == 1 for v in got.values()), missing=sorted(set(b) - set(a))[:6], extra=sorted(set(a) - set(b))[:6], repeated=[k for k, v in got.items() if len(v) > 1][:5], **w):
        return
    for m in want:
        r = got[(m["pos_id"], m["pos_move_index"])][0]
        z = {}
        for k in ("pos_t", "pos_p", "obs_x", "obs_y", "ptl_x", "petal_id", "device_loc", "bus_id", "exposure_id", "exposure_iter", "total_move_sequences", "flags"):
            c = {"obs_x": "X_FP", "obs_y": "Y_FP"}.get(k, k.upper())
            if c not in t.colnames:
                continue
            x = val(r[c])
            if (x is None) != (m[k] is None) or (x is not None and abs(float(x) - m[k]) > 1e-9 * max(1, abs(m[k]))):
                z[k] = (x, m[k])
        if str(r["DATE"]) != str(m["time_recorded"]) or int(r["PETAL_LOC"]) != PLOC[m["petal_id"]] or ("," in str(r["LOG_NOTE"])) or (str(r["LOG_NOTE"]).split("row")[-1] != m["log_note"].split("row")[-1]):
            z["labels"] = (str(r["DATE"]), int(r["PETAL_LOC"]), str(r["LOG_NOTE"]))
        ck.ok("values", not z, wrong=z, row=(m["pos_id"], m["pos_move_index"]), **w)
        ck.ok("rehome", int(r["RECENT_REHOME"]) == int(m["exposure_id"] in rehome), row=(m["pos_id"], m["pos_move_index"]), **w)
        if calib:
            c = calib(m["pos_id"], m["time_recorded"])
            z = {k: (val(r[k.upper()]), c[k]) for k in CAL + ["pos_calib_index"] if abs(float(r[k.upper()]) - c[k]) > 1e-9 * max(1, abs(c[k]))}
            ck.ok("calibration", not z and str(r["CALIB_DATE"]) == str(c["time_recorded"]), wrong=z, date=(str(r["CALIB_DATE"]), str(c["time_recorded"])), row=(m["pos_id"], m["pos_move_index"]), **w)


def read_dir(o):
    from astropy.table import Table
    return {f[:-4]: Table.read(os.path.join(o, f)) for f in sorted(os.listdir(o)) if f.endswith(".csv")} if os.path.isdir(o) else {}


def scene(ck, g, j):
    from astropy.table import Table, vstack
    seed = int(g.integers(1, 10**6))
    with tempfile.TemporaryDirectory(prefix="c33_") as d:
        db = DB(g, d)
        ck.case("database", moves=str([(m["pos_id"], m["pos_t"]) for m in db.moves]))
        moves = db.moves
        isup = lambda m: m["obs_x"] is None
        # the moves of some exposures, with calibration
        e = sorted(int(v) for v in g.choice(db.exps, int(g.integers(1, len(db.exps) + 1)), replace=False))
        re_ = [int(v) for v in g.choice(db.exps, 1)]
        p = [int(v) for v in g.permutation(db.petals)[:2]]
        iters = sorted(int(v) for v in g.choice(db.its, 3, replace=False))
        o = os.path.join(d, "a")
        call(ck, "get_posmoves", ["-o", o, "--petal-ids", ",".join(map(str, p)), "--exposure-ids", ",".join(map(str, e)), "--exposure-iters", ",".join(map(str, iters)), "--with-calib", "--recent-rehome-exposure-ids", re_[0]], d, seed)
        got = read_dir(o)
        sel = [m for m in moves if m["petal_id"] in p and m["exposure_id"] in e and m["exposure_iter"] in iters and not isup(m)]
        ck.ok("files", sorted(got) == sorted({m["pos_id"] for m in sel}), got=sorted(got), want=sorted({m["pos_id"] for m in sel}))
        for q, t in got.items():
            check_moves(ck, t, [m for m in sel if m["pos_id"] == q], re_, db.cal, how="exposures")
        # chosen positioners, all petals, a range of dates, no calibration
        q = sorted(str(v) for v in g.choice(sorted(db.pos), 4, replace=False))
        lo, hi = T0 + datetime.timedelta(days=1), T0 + datetime.timedelta(days=int(2 * g.integers(1, len(db.exps)) + 1))
        o = os.path.join(d, "b")
        call(ck, "get_posmoves", ["-o", o, "--pos-ids", ",".join(q), "--date-min", lo.strftime("%Y-%m-%d"), "--date-max", hi.strftime("%Y-%m-%d")], d, seed)
        got = read_dir(o)
        sel = [m for m in moves if m["pos_id"] in q and str(lo.date()) <= str(m["time_recorded"]) <= str(hi.date()) and not isup(m)]
        ck.ok("files", sorted(got) == sorted({m["pos_id"] for m in sel}), got=sorted(got), want=sorted({m["pos_id"] for m in sel}))
        for k, t in got.items():
            check_moves(ck, t, [m for m in sel if m["pos_id"] == k], how="positioners and dates")
        # one file, with updates
        o = os.path.join(d, "c")
        call(ck, "get_posmoves", ["-o", o, "-m", "-t", "--with-calib", "--exposure-ids", e[0]], d, seed)
        got = read_dir(o)
        if ck.ok("merged", len(got) == 1, files=sorted(got)):
            sel = [m for m in moves if m["exposure_id"] == e[0]]
            check_moves(ck, list(got.values())[0], sel, (), db.cal, how="merged")
        # positioners that moved
        o = os.path.join(d, "m")
        call(ck, "get_posmoves", ["-o", o, "--pos-ids", "movers"], d, seed)
        got = read_dir(o)
        want = {m["pos_id"] for m in moves if m["move_cmd"]}
        ck.ok("movers", set(got) == want, got=sorted(got), want=sorted(want))
        # changes of the enabled state
        o = os.path.join(d, "e")
        call(ck, "get_posmoves", ["-o", o, "-e"] + (["-t"] if g.random() < .5 else []), d, seed)
        got = read_dir(o)
        ck.ok("enabled", set(got) == set(db.pos), got=sorted(got))
        for k, t in got.items():
            r = sorted((m for m in moves if m["pos_id"] == k), key=lambda m: m["time_recorded"])
            ch = [str(r[i]["time_recorded"]) for i in range(len(r)) if i == 0 or r[i]["ctrl_enabled"] != r[i - 1]["ctrl_enabled"]]
            ck.ok("enabled", [str(v) for v in t["DATE"]] == ch, got=[str(v) for v in t["DATE"]], want=ch, pos=k)
        # the latest ones
        o = os.path.join(d, "l")
        nl = int(g.integers(1, 4))
        call(ck, "get_posmoves", ["-o", o, "-l", nl, "--petal-ids", p[0]], d, seed)
        got = read_dir(o)
        ids = [k for k in db.pos if db.pos[k][0] == p[0]]
        ck.ok("latest", sorted(got) == sorted(ids), got=sorted(got), want=sorted(ids))
        for k, t in got.items():
            check_moves(ck, t, sorted((m for m in moves if m["pos_id"] == k), key=lambda m: m["time_recorded"])[-nl:], (), db.cal, how="latest")
        coords(ck, g, db, d, seed, p)
        fvc(ck, g, db, d, seed)
        params(ck, g, db, d, seed)
        query(ck, g, db, d, seed)
        moving(ck, g, db, d, seed)
        merge(ck, g, db, d, seed, True)
        merge(ck, g, db, d, seed, False)
        selection(ck, g)


def coords(ck, g, db, d, seed, p):
    """bin/get_poscoords: expected positions from each positioner's own angles and calibration in force"""
    from astropy.table import Table
    from desimeter.transform.pos2ptl import int2ptl
    from desimeter.transform.ptl2fp import ptl2fp
    up = {(m["exposure_id"], m["exposure_iter"]) for m in db.moves if m["petal_id"] in p and m["obs_x"] is None}
    ok = [(e, i) for e in db.exps for i in db.its[:2] if (e, i) not in up]      # not the unmeasured rows, which the script cannot stack
    if not ok:
        return
    e, it = ok[int(g.integers(len(ok)))]
    o = os.path.join(d, "coords.csv")
    call(ck, "get_poscoords", ["-o", o, "--exposure-id", e, "--exposure-iter", it, "--petal-ids", ",".join(map(str, p))], d, seed)
    if not ck.ok("coords", os.path.exists(o)):
        return
    t = Table.read(o)
    want = {(m["pos_id"], m["pos_move_index"]): m for m in db.moves if m["petal_id"] in p and m["exposure_id"] == e and m["exposure_iter"] == it}
    if not ck.ok("coords", sorted(key(r) for r in t) == sorted(want), got=sorted(key(r) for r in t), want=sorted(want)):
        return
    for r in t:
        m = want[key(r)]
        c = db.cal(m["pos_id"], m["time_recorded"])
        x, y = (float(np.ravel(v)[0]) for v in int2ptl(m["pos_t"], m["pos_p"], *[c[k] for k in ("length_r1", "length_r2", "offset_t", "offset_p", "offset_x", "offset_y")]))
        xf, yf, _ = ptl2fp(PLOC[m["petal_id"]], np.array([x]), np.array([y]), None)
        ck.close("coords-calibration", [float(r[k]) for k in ("LENGTH_R1", "OFFSET_T", "GEAR_CALIB_T", "X_PTL_EXP", "Y_PTL_EXP", "X_FP_EXP", "Y_FP_EXP")],
                 [c["length_r1"], c["offset_t"], c["gear_calib_t"], x, y, xf[0], yf[0]], 1e-8, row=key(r), exposure=e)


def fvc(ck, g, db, d, seed):
    """bin/get_posmoves_with_fvc_data: positions from the images of the same exposure and iteration"""
    from astropy.table import Table
    from desimeter.transform.ptl2fp import fp2ptl
    import fitsio
    o = os.path.join(d, "fvc")
    os.makedirs(o)
    xy, names = {}, []
    withid = bool(g.integers(0, 2))
    skip = (int(g.choice(db.exps)), db.its[1])
    for e in db.exps:
        for it in db.its:
            if (e, it) == skip:
                continue
            f = os.path.join(o, "fvc-%08d-F%04d.fits" % (e, it))
            fitsio.write(f, np.zeros((2, 2), "f4"), header={"OBSNUM": e, "OBSFRM": it})
            names.append(f)
            rows = []
            for pid, (pet, loc) in db.pos.items():
                if g.random() < .9:
                    xy[pid, e, it] = tuple(float(v) for v in db.fp[pid] + g.uniform(-5, 5, 2))
                    rows.append((1000 * PLOC[pet] + loc, pid) + xy[pid, e, it])
            rows += [(-1, "unknown", 1., 2.)] * 3
            rows = [rows[k] for k in g.permutation(len(rows))]
            t = Table({"LOCATION": [r[0] for r in rows], "X_FP": [r[2] for r in rows], "Y_FP": [r[3] for r in rows]})
            if withid:
                t["DEVICE_ID"] = [r[1] for r in rows]
            t.write(f.replace(".fits", ".csv"))
    es = sorted(int(v) for v in g.choice(db.exps, 2, replace=False)) if len(db.exps) > 2 and g.random() < .5 else None
    ids = sorted(str(v) for v in g.choice(sorted(db.pos), 5, replace=False)) if g.random() < .5 else None
    out = os.path.join(d, "fvcout")
    a = ["--fvc-images"] + [names[k] for k in g.permutation(len(names))] + ["--fvc-data-dir", o, "--outdir", out, "--recent-rehome-exposure-ids", db.exps[0]]
    a += ["--exposure-ids", ",".join(map(str, es))] if es else []
    a += ["--pos-ids", ",".join(ids)] if ids else []
    ck.case("fvc", xy=str(sorted(xy.items())), es=str(es), ids=str(ids))
    call(ck, "get_posmoves_with_fvc_data", a, d, seed)
    got = read_dir(out)
    for pid in ids or db.pos:
        want = {(m["pos_id"], m["pos_move_index"]): m for m in db.moves if m["pos_id"] == pid and (m["pos_id"], m["exposure_id"], m["exposure_iter"]) in xy and (es is None or m["exposure_id"] in es)}
        if not ck.ok("fvc-rows", pid in got and sorted(key(r) for r in got[pid]) == sorted(want), pos=pid, file=pid in got, got=[key(r) for r in got.get(pid, [])], want=sorted(want), ids=ids, es=es):
            continue
        for r in got[pid]:
            m = want[key(r)]
            x, y = xy[pid, m["exposure_id"], m["exposure_iter"]]
            px, py, pz = fp2ptl(PLOC[m["petal_id"]], np.array([x]), np.array([y]))
            ck.close("fvc-values", [float(r[k]) for k in ("X_FP", "Y_FP", "PTL_X", "PTL_Y", "POS_T", "POS_P", "PETAL_LOC", "RECENT_REHOME")],
                     [x, y, px[0], py[0], m["pos_t"], m["pos_p"], PLOC[m["petal_id"]], int(m["exposure_id"] == db.exps[0])], 1e-8, row=key(r))
    # the same images, joined by their dates
    when = {}
    for f in names:
        e, it = int(f[-18:-11]), int(f[-9:-5])
        when[e, it] = T0 + datetime.timedelta(days=2 * db.exps.index(e), seconds=60 * db.its.index(it) + int(g.integers(7, 16)))
    off = float(g.choice([0., -100., 7.]))
    k = g.permutation(len(names))
    lst = os.path.join(d, "list.csv")
    Table({"FILE": [names[i].replace(".fits", ".csv") for i in k], "DATE": [(list(when.values())[i] - datetime.timedelta(seconds=off)).strftime("%Y-%m-%dT%H:%M:%S") for i in k]}).write(lst)
    out = os.path.join(d, "dateout")
    cal = bool(g.integers(0, 2))
    call(ck, "get_posmoves_with_fvc_data_using_dates", ["--fvc-file-list", lst, "--outdir", out, "--clock-offset=%s" % off] + ([] if cal else ["--nocalib"]), d, seed)
    got = read_dir(out)
    for pid in db.pos:
        want = {(m["pos_id"], m["pos_move_index"]): m for m in db.moves if m["pos_id"] == pid and (pid, m["exposure_id"], m["exposure_iter"]) in xy and 0 < (when[m["exposure_id"], m["exposure_iter"]] - m["time_recorded"].replace(microsecond=0)).total_seconds() <= 25}
        if not ck.ok("dates-rows", (pid in got or not want) and sorted(key(r) for r in got.get(pid, [])) == sorted(want), pos=pid, petal=db.pos[pid], petals=db.petals, file=pid in got, got=[key(r) for r in got.get(pid, [])], want=sorted(want)):
            continue
        for r in got.get(pid, []):
            m = want[key(r)]
            x, y = xy[pid, m["exposure_id"], m["exposure_iter"]]
            a, b = [float(r[q]) for q in ("X_FP", "Y_FP", "POS_T", "POS_P", "PETAL_LOC", "DELTAT")], [x, y, m["pos_t"], m["pos_p"], PLOC[m["petal_id"]], (when[m["exposure_id"], m["exposure_iter"]] - m["time_recorded"].replace(microsecond=0)).total_seconds()]
            if cal:
                c = db.cal(pid, m["time_recorded"])
                a, b = a + [float(r[q.upper()]) for q in CAL[:12]], b + [c[q] for q in CAL[:12]]
            ck.close("dates-values", a, b, 1e-8, row=key(r))


def params(ck, g, db, d, seed):
    """bin/get_posparams: the latest calibration of every positioner"""
    from astropy.table import Table
    o = os.path.join(d, "params.csv")
    call(ck, "get_posparams", ["-o", o], d, seed)
    if not ck.ok("params", os.path.exists(o)):
        return
    t = Table.read(o)
    ck.ok("params", sorted(str(v) for v in t["pos_id"]) == sorted(db.pos), got=sorted(str(v) for v in t["pos_id"]))
    for r in t:
        c = max((q for q in db.cals if q["pos_id"] == str(r["pos_id"])), key=lambda q: q["time_recorded"])
        ck.close("params", [float(r[k]) for k in CAL[:6] + ["petal_id", "petal_loc", "device_loc"]], [c[k] for k in CAL[:6]] + [c["petal_id"], PLOC[c["petal_id"]], c["device_loc"]], 1e-9, pos=c["pos_id"])


def moving(ck, g, db, d, seed):
    """bin/check_moving: for every positioner, which of its moves displaced it"""
    import re
    o = os.path.join(d, "moving.txt")
    e = sorted(int(v) for v in g.choice(db.exps, 2, replace=False))
    call(ck, "check_moving", ["-o", o, "--exposure-ids", ",".join(map(str, e))], d, seed)
    text = open(o).read() if os.path.exists(o) else ""
    got = {m[0]: (int(m[1]), int(m[2]), [int(v) for v in m[3].split()]) for m in re.findall(r"(\w+) ploc=(\d+) busid=(\d+) moving=\[([^\]]*)\]", text)}
    for pid in db.pos:
        r = sorted((m for m in db.moves if m["pos_id"] == pid and m["exposure_id"] in e), key=lambda m: m["pos_move_index"])
        x = np.array([[m["ptl_x"], m["ptl_y"]] for m in r])
        w = [int(v > .05) for v in np.hypot(*np.diff(x, axis=0).T)] if len(r) > 1 else None
        ck.ok("moving", got.get(pid) == (None if w is None else (PLOC[db.pos[pid][0]], r[0]["bus_id"], w)), pos=pid, got=got.get(pid), want=w)


def query(ck, g, db, d, seed):
    """dbutil against the stand-in driver"""
    from desimeter import dbutil
    p = os.path.join(core.VERIF, "vlib", "fakedb")
    os.environ["VERIF_DB"], os.environ["VERIF_DB_SEED"] = db.file, str(seed)
    import importlib.util
    s = importlib.util.spec_from_file_location("verif_fakedb", os.path.join(p, "psycopg2", "__init__.py"))
    f = importlib.util.module_from_spec(s)
    s.loader.exec_module(f)
    with ck.guard("dbutil"):
        cx = f.connect()
        ck.ok("query", sorted(dbutil.get_petal_ids(cx)) == db.petals, got=dbutil.get_petal_ids(cx), want=db.petals)
        for pet in db.petals:
            ck.ok("query", sorted(dbutil.get_pos_ids(cx, pet)) == sorted(k for k in db.pos if db.pos[k][0] == pet), petal=pet)
            for tab in (False, True):
                r = dbutil.dbquery(cx, "select pos_t, pos_id, pos_move_index from posmovedb.positioner_moves_p%d" % pet, as_table=tab)
                a = sorted(zip((str(v) for v in r["pos_id"]), (int(v) for v in r["pos_move_index"]), (float(v) for v in r["pos_t"])))
                ck.ok("query", a == sorted((m["pos_id"], m["pos_move_index"], m["pos_t"]) for m in db.moves if m["petal_id"] == pet), petal=pet, table=tab)
        for pet, l in PLOC.items():
            ck.ok("query", dbutil.get_petal_loc(pet) == l, petal=pet)
        cx.close()


def merge(ck, g, db, d, seed, loc):
    """bin/merge_posparams: all rows of all fits, each with the location of its own positioner"""
    from astropy.table import Table
    fs, want = [], {}
    o = os.path.join(d, "fits%d" % loc)
    os.makedirs(o)
    for k in g.permutation(sorted(db.pos)):
        k = str(k)
        pet, dev = db.pos[k]
        n = int(g.integers(1, 4))
        t = Table({"POS_ID": [k] * n, "OFFSET_X_STATIC": g.normal(size=n), "FLAGS": g.integers(0, 4, n)})
        if loc:
            t["PETAL_ID"], t["PETAL_LOC"], t["DEVICE_LOC"] = [pet] * n, [PLOC[pet]] * n, [dev] * n
        if g.random() < .5:
            t["MOVE_CMD"], t["MOVE_VAL1"] = ["obsTP"] * n, [0] * n
        fs.append(os.path.join(o, k + "_paramfits.csv"))
        t.write(fs[-1])
        want[k] = t
    out = os.path.join(d, "all%d.csv" % loc)
    ck.case("merge", pos=str(sorted(want)), x=str([list(t["OFFSET_X_STATIC"]) for t in want.values()]))
    call(ck, "merge_posparams", ["-i"] + fs + ["-o", out], d, seed)
    if not ck.ok("merge", os.path.exists(out)):
        return
    t = Table.read(out)
    ck.ok("merge", len(t) == sum(len(v) for v in want.values()), got=len(t))
    for k, v in want.items():
        r = t[np.array(t["POS_ID"]).astype(str) == k]
        pet, dev = db.pos[k]
        ck.ok("merge", sorted(r["OFFSET_X_STATIC"]) == sorted(v["OFFSET_X_STATIC"]) and all(r["LOCATION"] == 1000 * PLOC[pet] + dev) and all(r["PETAL_LOC"] == PLOC[pet]) and all(r["DEVICE_LOC"] == dev), pos=k, loc=loc)
    if loc:         # a positioner said to be elsewhere is an error
        t = Table.read(fs[0])
        t["DEVICE_LOC"] = np.array(t["DEVICE_LOC"]) + 1
        t.write(fs[0], overwrite=True)
        out = os.path.join(d, "all9.csv")
        q = call(ck, "merge_posparams", ["-i"] + fs + ["-o", out], d, seed, good=tuple(range(256)))
        ck.ok("merge-checked", q.returncode != 0 and not os.path.exists(out), rc=q.returncode, file=os.path.exists(out))
        call(ck, "merge_posparams", ["-i"] + fs + ["-o", out, "--no-check"], d, seed)
        ck.ok("merge-checked", os.path.exists(out))


def selection(ck, g):
    """choice of moves by their log notes"""
    import contextlib, io
    from astropy.table import Table
    from desimeter.posparams.posmoveselection import posmove_selection
    words = ["arc calibration", "use_desimeter=True", "blind", "correction 1", "xytest", "Blind", "XYTEST", "correction 10"]
    n = int(g.integers(5, 40))
    notes = ["; ".join(str(v) for v in g.choice(words, int(g.integers(1, 4)), replace=False)) for _ in range(n)]
    t = Table({"LOG_NOTE": notes, "N": np.arange(n)})
    for _ in range(6):
        expr = [[str(v) for v in g.choice(words, int(g.integers(1, 3)), replace=False)] for _ in range(int(g.integers(1, 4)))]
        s = str(g.choice(["|", " | "])).join(str(g.choice(["&", " & "])).join(e) for e in expr)
        with ck.guard("posmove_selection"), contextlib.redirect_stdout(io.StringIO()):
            r = posmove_selection(t, s)
            want = [i for i in range(n) if any(all(w in notes[i] for w in e) for e in expr)]
            ck.ok("selection", [int(v) for v in r["N"]] == want, expr=s, got=list(r["N"]), want=want)
            ck.ok("selection", len(posmove_selection(t, None)) == n)
