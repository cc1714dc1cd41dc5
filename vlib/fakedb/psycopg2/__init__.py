"""Stand-in for the PostgreSQL driver over an SQLite file (VERIF_DB): the dialect the scripts use, case-sensitive
LIKE, timestamps as datetime, and, as PostgreSQL may, rows in no particular order unless one is asked for."""
import datetime, os, random, re, sqlite3


class Description(tuple):
    name = property(lambda self: self[0])


class Cursor:
    def __init__(self, db, rnd):
        self.cx, self.rnd = db.cursor(), rnd
        self.description = None

    def execute(self, op, parameters=None):
        if parameters is not None:
            op = op % tuple(str(p) if isinstance(p, int) else "'%s'" % str(p).replace("'", "''") for p in parameters)
        if "pg_class" in op:
            op = "select name as relname from posmovedb.sqlite_master where type='table'"
        op = re.sub(r"\bdate\s+'", "'", op)
        self.cx.execute(op)
        rows = self.cx.fetchall()
        if not re.search(r"order\s+by", op, re.I):
            self.rnd.shuffle(rows)
        names = [d[0] for d in self.cx.description]
        conv = [(lambda v: v) for _ in names]
        for i, n in enumerate(names):
            if n == "time_recorded":
                conv[i] = datetime.datetime.fromisoformat
            elif n in ("ctrl_enabled", "device_classified_nonfunctional", "fiber_intact", "classified_as_retracted"):
                conv[i] = lambda v: None if v is None else bool(v)
        self.rows = [tuple(c(v) if v is not None else None for c, v in zip(conv, r)) for r in rows]
        self.description = [Description((n, None, None, None, None, None, None)) for n in names]

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def close(self):
        self.cx.close()


class Connection:
    def __init__(self):
        self.db = sqlite3.connect(":memory:")
        self.db.execute("attach database '%s' as posmovedb" % os.environ["VERIF_DB"])
        self.db.execute("pragma case_sensitive_like=on")
        self.rnd = random.Random(int(os.environ.get("VERIF_DB_SEED", "1")))

    def cursor(self):
        return Cursor(self.db, self.rnd)

    def close(self):
        self.db.close()


def connect(**kw):
    return Connection()
