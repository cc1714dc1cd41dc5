"""Runs an interactive script and answers its questions from a plan; prints what was asked to a file.
usage: answer.py PLAN.json LOG.json SCRIPT args..."""
import builtins, io, json, re, runpy, sys

plan = json.load(open(sys.argv[1]))
asked = []


class Tee(io.TextIOBase):
    def __init__(self, f):
        self.f, self.buf = f, ""

    def write(self, s):
        self.buf += s
        return self.f.write(s)

    def flush(self):
        self.f.flush()


tee = Tee(sys.stdout)
sys.stdout = sys.stderr = tee
current = [None]


def answer(text):
    m = re.findall(r"Repeat (\w+) with", text)
    if m:
        current[0] = m[-1]
        if plan.get("help") and m[-1] not in [a[1] for a in asked if a[0] == "help"]:
            asked.append(("help", m[-1]))
            return "help"
        if plan["adjust"].get(m[-1]):
            return "yes"
        return "no"
    m = re.findall(r"Enter new (\w+) value", text)
    if m:
        p = plan["adjust"].get(current[0]) or []
        return str(p.pop(0)) if p and m[-1] in ("tol", "tighten_factor") else ""
    if "Please select number" in text:
        pid = re.findall(r"(\w+) has multiple rows", text)[-1]
        want = plan["choose"].get(pid)
        o = re.findall(r"option (\d+):\s*(.*)", text)
        asked.append(("duplicate", pid, len(o)))
        if want is None:
            return "skip"
        for k, t in o:
            n = re.search(r"'NUM_POINTS':\s*(?:np\.\w+\()?(\d+)", t)
            if n and int(n.group(1)) == want:
                asked.append(("chosen", pid, want))
                return k
        return "skip"
    m = re.findall(r"Shall we commit (\w+) to", text)
    if m:
        asked.append(("commit", m[-1]))
        return "yes" if plan["commit"].get(m[-1]) else "no"
    if "Please confirm" in text:
        return "yes"
    if "Press enter" in text:
        return ""
    asked.append(("unknown", text[-600:]))
    if len(asked) > 500:
        raise SystemExit("too many questions" + text[-600:])
    return "no"


def ask(prompt=""):
    t, tee.buf = tee.buf + str(prompt), ""
    return answer(t)


builtins.input = ask
script = sys.argv[3]
log = sys.argv[2]
sys.argv = sys.argv[3:]
sys.path.insert(0, script.rsplit("/", 1)[0])
try:
    runpy.run_path(script, run_name="__main__")
finally:
    json.dump(asked, open(log, "w"))
