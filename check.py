#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property of /verif/properties.jsonl for the tree in /repo:

 1. the harness is built against /repo;
 2. TLC explores the specification exhaustively (spec/DomMC.tla, families of scripts and alphabets),
    checking the properties on every state and transition, and each transition that it takes is
    replayed through xml_dom;
 3. random histories are recorded from xml_dom and checked by TLC against the specification
    (spec/DomTrace.tla);
 4. what differs is judged by DomTrace, which says which properties the step breaks.

Exit: 0 the property held on everything explored, 1 a violation, 2 no answer.
"""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGETS = {False: os.path.join(HARNESS, "target"), True: os.path.join(HARNESS, "target-parser")}   # with the parser?
BIN = None
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
ALL = ["C%02d" % i for i in range(1, 21)]
PARSER = {"C19"}    # the checks which build xml_dom with its parser
PARTED = {"names", "names4", "values", "values4", "parse", "parse4", "parsein", "parsein3", "parsewords", "parsewords3", "readbytes", "consts", "nameops",
          "sweepname", "sweepedit", "sweepsplit", "sweeptext", "sweepvalue", "sweepenc", "sweepread", "edgeread",
          "scriptnormal", "scriptfind", "scriptid", "scriptns", "scriptattr", "scriptclone", "scriptfeature", "scriptser", "scriptkinds", "scriptparts"}

# property -> [(family, quick depth, thorough depth)], in order
FAMILIES = {
    "C01": [("tree", 4, 5), ("kids3", 2, 2), ("docs2", 3, 3), ("tree5", 3, 4), ("texts", 3, 4)],
    "C02": [("types", 1, 2), ("kids3", 2, 2), ("tree", 4, 5), ("tree5", 3, 4), ("docs2", 2, 3)],
    "C03": [("tree", 4, 5), ("kids3", 2, 2), ("tree5", 3, 4), ("types", 1, 2), ("docs2", 2, 3)],
    "C04": [("types", 1, 2), ("wrong", 1, 2), ("direct", 1, 2), ("attrs", 2, 3), ("ids", 2, 3), ("docs2", 2, 3), ("tree", 3, 4), ("chars", 1, 1), ("docs", 2, 3)],
    "C05": [("docs2", 3, 3), ("types", 1, 2), ("docs", 2, 3), ("clone", 2, 3), ("direct", 1, 2), ("dead", 1, 2)],
    "C06": [("attrs", 3, 4), ("ids", 2, 3), ("ns", 2, 3), ("wrong", 1, 2), ("attrkids", 3, 4), ("scriptattr", 1, 2)],
    "C07": [("ids", 3, 4), ("idslax", 3, 4), ("ids2", 2, 2), ("ids2lax", 2, 2), ("scriptid", 1, 2)],
    "C08": [("ns", 3, 4), ("ns3", 3, 4), ("consts", 1, 1), ("ns4", 2, 2), ("scriptns", 1, 2)],
    "C09": [("chars", 1, 1), ("chars2", 3, 4), ("sweepedit", 1, 1)],
    "C10": [("texts", 3, 4), ("texts2", 4, 5), ("chars", 1, 1), ("kinds", 1, 2), ("sweepsplit", 1, 1), ("attrkids", 3, 4), ("scriptnormal", 1, 2)],
    "C11": [("clone", 2, 3), ("kinds", 2, 3), ("ids", 2, 3), ("clone2", 2, 3), ("scriptclone", 1, 2)],
    "C12": [("find", 4, 5), ("find2", 3, 4), ("scriptfind", 1, 2)],
    "C13": [("names", 1, 1), ("names4", 0, 1), ("nameops", 1, 1), ("sweepname", 1, 1), ("scriptparts", 1, 2)],
    "C14": [("ser", 3, 3), ("esc", 2, 2), ("kinds", 1, 2), ("docs", 2, 2), ("sweeptext", 1, 1), ("scriptser", 1, 2)],
    "C15": [("values", 1, 1), ("values4", 0, 1), ("attrs", 2, 3), ("sweepvalue", 1, 1), ("attrkids", 3, 4)],
    "C16": [("kinds", 2, 3), ("wrong", 1, 2), ("direct", 1, 2), ("types", 1, 2), ("sweeptext", 1, 1), ("scriptkinds", 1, 2)],
    "C17": [("docs", 2, 3), ("kinds", 2, 2), ("consts", 1, 1), ("sweepenc", 1, 1), ("scriptfeature", 1, 2)],
    "C19": [("parse", 1, 1), ("parsein", 1, 1), ("parsewords", 1, 1), ("parseops", 2, 3), ("edgeread", 1, 0), ("readbytes", 1, 1), ("sweepread", 0, 1), ("parsewords3", 0, 1),
            ("parsein3", 0, 1), ("parse4", 0, 1)],
    "C20": [("life", 2, 3), ("dead", 1, 2)],
    "C18": [("wrong", 1, 2), ("direct", 1, 2), ("kinds", 1, 2), ("types", 1, 2), ("chars", 1, 1), ("attrs", 2, 3), ("values", 1, 1), ("names", 1, 1), ("nameops", 1, 1), ("consts", 1, 1)],
}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env_sh(target):
    """The build environment of the repository."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode(errors="replace").split("\0") if "=" in x)
    env["CARGO_TARGET_DIR"] = target
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    return env


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml")]
    for top in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in sorted(os.walk(top)):
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build(parser):
    global BIN
    target = TARGETS[parser]
    BIN = os.path.join(target, "debug", "domharness")
    stamp = os.path.join(target, "tree.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    env = env_sh(target)
    if old != now:
        # do not trust modification times
        if os.path.exists(BIN):
            os.remove(BIN)
        subprocess.run(["cargo", "clean", "--offline", "-p", "xml_dom", "-p", "domharness"], cwd=HARNESS, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline"] + (["--features", "parser"] if parser else []), cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(BIN):
        log(r.stderr[-3000:])
        raise NoAnswer("the harness does not build")
    with open(stamp, "w") as f:
        f.write(now)


def limited():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(args, timeout):
    """exit status, or None if it did not end."""
    p = subprocess.Popen([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limited, text=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", ""
    return p.returncode, out, err


class Tlc:
    running = []

    @staticmethod
    def run(module, env, work, workers, timeout, heap="3g"):
        os.makedirs(work, exist_ok=True)
        meta = os.path.join(work, "meta")
        out = os.path.join(work, "tlc.out")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Dfile.encoding=UTF-8", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", module + ".cfg", module + ".tla"]
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = None
        shutil.rmtree(meta, ignore_errors=True)
        printed, rest = [], []
        with open(out, encoding="utf-8", errors="replace") as f:
            for line in f:
                if line.startswith('"'):
                    printed.append(line)
                else:
                    rest.append(line)
        return rc, printed, "".join(rest)


def counts(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", "").replace("generated ", "generated, "))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)


# ------------------------------------------------------------------ recordings
def parse_recording(path, ended):
    """The traces of a recording; a last step that did not end gets the result `ended`."""
    traces, cur = [], None
    if not os.path.exists(path):
        return traces
    with open(path, encoding="utf-8", errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            if not line:
                continue
            try:
                v = json.loads(line)
            except ValueError:
                v = None
                for tail in ("", "}"):
                    try:
                        v = json.loads(line + tail)
                        break
                    except ValueError:
                        pass
                if v is None or cur is None or "op" not in v:
                    # cut within a result
                    m = re.match(r'(\{.*?),"r":', line)
                    try:
                        v = json.loads(m.group(1) + "}")
                    except (ValueError, AttributeError):
                        continue
                v.update(r={"k": ended or "abort", "e": "", "n": [], "s": []}, d=[])
                v = {k: v[k] for k in ("op", "n", "s", "i", "r", "d")}
            if "pr" in v:
                cur = {"tag": v["tag"], "pr": v["pr"], "e": []}
                traces.append(cur)
            elif cur is not None:
                if "r" not in v:
                    v.update(r={"k": ended or "abort", "e": "", "n": [], "s": []}, d=[])
                cur["e"].append(v)
    return [t for t in traces if t["e"]]


def record_random(profile, seed, frm, to, length, path, timeout):
    """Histories frm..to-1 of a profile. One that ends the process is the last of its run."""
    traces, restarts = [], 0
    while frm < to and restarts < 4:
        rc, _, err = harness(["gen", profile, str(seed), str(frm), str(to), str(length), path], timeout)
        if rc == 2:
            raise NoAnswer("harness: " + err[-500:])
        got = parse_recording(path, None if rc == 0 else ("hang" if rc is None else "abort"))
        traces += got
        if rc == 0:
            break
        restarts += 1
        frm = int(got[-1]["tag"].rsplit("-", 1)[1]) + 1 if got else to
        timeout = min(timeout, 20)
    return traces


def record_given(histories, path, timeout):
    """histories: lists of operations, with tags."""
    traces, restarts, todo = [], 0, list(histories)
    while todo and restarts < 12:
        with open(path + ".in", "w") as f:
            for h in todo:
                f.write(json.dumps(h) + "\n")
        rc, _, err = harness(["run", path + ".in", path], timeout)
        if rc == 2:
            raise NoAnswer("harness: " + err[-500:])
        got = parse_recording(path, None if rc == 0 else ("hang" if rc is None else "abort"))
        traces += got
        if rc == 0 or not got:
            break
        restarts += 1
        todo = todo[len(got):]
        timeout = min(timeout, 20)
    return traces


# ------------------------------------------------------------------ conformance
class Conformance:
    """Traces judged by DomTrace."""

    def __init__(self, work):
        self.work = work
        self.traces = self.steps = self.dropped = 0
        self.ops = {}
        self.mismatches = []
        self.examples = []
        self.n = 0

    def chunk(self, traces, no, workers, timeout):
        tries = 0
        traces = list(traces)
        found = []
        while traces and tries < 6:
            tries += 1
            d = os.path.join(self.work, "tlc%d" % no)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "traces.ndjson")
            with open(path, "w") as f:
                for t in traces:
                    f.write(json.dumps(t) + "\n")
            rc, printed, rest = Tlc.run("DomTrace", {"TRACES": path}, d, workers, timeout)
            found = []
            for p in printed:
                try:
                    m = json.loads(json.loads(p))
                except ValueError:
                    continue
                t = traces[m["trace"] - 1]
                m["tag"] = t["tag"]
                m["history"] = [{k: x[k] for k in ("op", "n", "s", "i")} for x in t["e"][:m["step"]]]
                found.append(m)
            if rc == 0:
                break
            # the evaluation of a trace failed: without it, then
            m = re.findall(r"/\\ vTrace = (\d+)", rest)
            if rc is None or not m:
                log(rest[-2000:])
                raise NoAnswer("TLC did not judge the traces")
            log("note: TLC could not evaluate trace", traces[int(m[-1]) - 1]["tag"])
            k = max(rest.find("Error:"), 0)
            log(rest[k:k + 1500])
            self.dropped += 1
            traces.pop(int(m[-1]) - 1)
        shutil.rmtree(os.path.join(self.work, "tlc%d" % no), ignore_errors=True)
        return traces, found

    def judge(self, traces, timeout=400):
        if not traces:
            return []
        per = max(25, min(150, (len(traces) + CORES - 1) // CORES))
        # long ones are spread
        chunks = [traces[i::max(1, (len(traces) + per - 1) // per)] for i in range(max(1, (len(traces) + per - 1) // per))]
        first = self.n
        self.n += len(chunks)
        with ThreadPoolExecutor(CORES // 2 if len(chunks) > 1 else 1) as ex:
            rs = list(ex.map(lambda c: self.chunk(c[1], first + c[0], 2 if len(chunks) > 1 else CORES, timeout),
                             list(enumerate(chunks))))
        new = []
        for ts, found in rs:
            self.traces += len(ts)
            for t in ts:
                self.steps += len(t["e"])
                for x in t["e"]:
                    self.ops[x["op"]] = self.ops.get(x["op"], 0) + 1
            new += found
        self.mismatches += new
        return new


# ------------------------------------------------------------------ exploration and replay
def explore(family, depth, work, timeout):
    """TLC on a family; returns its counts and the file of its transitions."""
    d = os.path.join(work, "mc-%s-%d" % (family, depth))
    parts = CORES if family in PARTED else 1

    def part(k):
        return Tlc.run("DomMC", {"FAMILY": family, "DEPTH": str(depth), "EMIT": "1", "PARTS": str(parts), "PART": str(k)},
                       os.path.join(d, str(k)), max(1, CORES // parts), timeout, heap="10g" if parts == 1 else "2500m")
    with ThreadPoolExecutor(parts) as tp:
        rs = list(tp.map(part, range(parts)))
    if any(rc is None for rc, _, _ in rs):
        shutil.rmtree(d, ignore_errors=True)
        return None
    gen = distinct = 0
    lines = []
    for rc, printed, rest in rs:
        if rc != 0:
            log(rest[max(rest.find("Error:"), 0):][:3000])
            raise NoAnswer("the specification does not have its properties: family %s" % family)
        g, n = counts(rest)
        gen, distinct = gen + g, distinct + n
        lines += [json.loads(p) + "\n" for p in printed]
    random.Random(1).shuffle(lines)
    x = json.loads(lines[0])
    sample = {"family": family, "h": x["h"], "c": x["c"][len(x["c"]) // 2]["e"]}
    paths = []
    for k in range(CORES):
        part = lines[k::CORES]
        if part:
            path = os.path.join(d, "part%d.ndjson" % k)
            with open(path, "w") as f:
                f.writelines(part)
            paths.append(path)
    for k in range(parts):
        os.remove(os.path.join(d, str(k), "tlc.out"))
    return dict(family=family, depth=depth, states=distinct, transitions=gen, sample=sample, paths=paths, dir=d)


def replay(ex, timeout):
    """Every emitted transition through xml_dom; returns steps and the histories which differ."""
    def one(path):
        differ, last = path + ".differ", path + ".last"
        open(differ, "w").close()
        rc, out, err = harness(["replay", path, differ, last], timeout)
        hs = [json.loads(x) for x in open(differ) if x.endswith("\n")]
        steps = 0
        if rc == 0:
            steps = json.loads(out)["steps"]
        elif rc == 2:
            raise NoAnswer("harness: " + err[-500:])
        elif os.path.exists(last):
            try:
                hs.append(json.loads(open(last).read()))
            except ValueError:
                pass
        return rc, steps, hs
    with ThreadPoolExecutor(CORES) as tp:
        rs = list(tp.map(one, ex["paths"]))
    shutil.rmtree(ex["dir"], ignore_errors=True)
    return sum(r[1] for r in rs), [h for r in rs for h in r[2]], all(r[0] == 0 for r in rs)


def select(histories, limit):
    """Some of each kind."""
    by = {}
    for h in sorted(histories, key=lambda h: len(h["ops"])):
        by.setdefault(h["ops"][-1]["op"], []).append(h)
    out, k = [], 0
    while len(out) < limit and any(len(v) > k for v in by.values()):
        for v in by.values():
            if len(v) > k:
                out.append(v[k])
        k += 1
    return out[:limit]


# ------------------------------------------------------------------ known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path))["findings"] if os.path.exists(path) else []


def probe_findings(pid, work):
    """Known findings of this property that still happen."""
    for k in known_findings():
        if k["property"] != pid:
            continue
        path = os.path.join(work, "probe")
        ts = record_given([{"tag": k["id"], "ops": k["history"]}], path, 30)
        last = ts[0]["e"][-1] if ts and len(ts[0]["e"]) == len(k["history"]) else None
        if last is None or last["op"] != k["history"][-1]["op"]:
            continue
        want = k["observed"]
        if all(last["r"].get(f) == v for f, v in want.items()):
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))


# ------------------------------------------------------------------ main
def txt(o):
    return None if not o else "".join(chr(c) if c >= 0 else "?" for c in o[0])


def show(e):
    return "%s(%s)" % (e["op"], ", ".join(["#%d" % n for n in e["n"]] + [repr(txt(s)) for s in e["s"]] + [str(i) for i in e["i"]]))


def sketch(ops, what):
    return {"what": what, "operations": [show(e) for e in ops]}


def describe(m):
    lines = ["history (nodes are numbered in the order in which they appear):"]
    lines += ["  %3d %s" % (k + 1, show(e)) for k, e in enumerate(m["history"])]
    lines += ["breaks: %s" % " ".join(sorted(m["blame"])), "expected one of: %s" % json.dumps(m["expected"]),
              "got: %s" % json.dumps(m["got"])]
    for d in m["diffs"]:
        for f in d["want"]:
            if d["want"][f] != d["got"].get(f):
                lines.append("node #%d %s: expected %s got %s" % (d["n"], f, json.dumps(d["want"][f]), json.dumps(d["got"].get(f))))
    return "\n".join(lines) + "\n"


def main():
    if sys.argv[1:] == ["--build"]:
        build(True)
        build(False)
        return 0
    if len(sys.argv) != 3 or sys.argv[1] not in ALL or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    pid, tier = sys.argv[1:3]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "820"))
    left = lambda: budget - (time.time() - start)
    out = os.path.join(VERIF, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    work = os.path.join(out, "work")
    os.makedirs(work)
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    violations = []
    families, emitted, replayed = [], [], 0
    conf = Conformance(work)
    verdict = lambda: [m for m in conf.mismatches if pid in m["blame"]]

    build(pid in PARSER)
    log("built in %.0f s" % (time.time() - start))
    try:
        probe_findings(pid, work)

        # the specification's own behaviours
        for family, dq, dt in FAMILIES[pid]:
            depth = dq if tier == "quick" else dt
            if depth == 0 or left() < 60:
                continue
            t = time.time()
            ex = None
            while ex is None and depth > 0:
                ex = explore(family, depth, work, max(60, left() * 0.45))
                if ex is None:
                    depth -= 1
            if ex is None:
                raise NoAnswer("no exploration of %s within the time" % family)
            emitted.append(ex["sample"])
            steps, differing, ok = replay(ex, max(30, left() * 0.6))
            replayed += steps
            log("%s to depth %d: %d states, %d transitions; %d steps replayed, %d differ, %.0f s"
                % (family, depth, ex["states"], ex["transitions"], steps, len(differing), time.time() - t))
            families.append({k: ex[k] for k in ("family", "depth", "states", "transitions")} | {"replayed": steps})
            if differing or not ok:
                chosen = select(differing, 240)
                for k, h in enumerate(chosen):
                    h["tag"] = "%s-%d-%d" % (family, depth, k)
                conf.judge(record_given(chosen, os.path.join(work, "differ.rec"), 60), max(60, left()))
            if verdict():
                break

        # histories of the implementation
        if not verdict():
            scale = 1 if tier == "quick" else 100
            rounds = 0
            while rounds < scale and (rounds == 0 or left() > 120):
                own, other, length = 600, 20, 60
                jobs = []
                base = rounds * 100000
                for k in range(CORES):
                    jobs.append((pid, base + own * k // CORES, base + own * (k + 1) // CORES, length))
                for p in ALL:
                    if p != pid and p not in PARSER:
                        jobs.append((p, base, base + other, length))
                with ThreadPoolExecutor(CORES) as tp:
                    rs = list(tp.map(lambda j: record_random(j[1][0], seed, j[1][1], j[1][2], j[1][3],
                                                            os.path.join(work, "rec%d" % j[0]), 60), list(enumerate(jobs))))
                for k in range(len(jobs)):
                    p = os.path.join(work, "rec%d" % k)
                    if os.path.exists(p):
                        os.remove(p)
                t = time.time()
                new = conf.judge([t for r in rs for t in r], max(120, left()))
                conf.examples = rs[0][:2]
                rounds += 1
                log("round %d: %d histories, %d steps judged, %d differ, %.0f s"
                    % (rounds, conf.traces, conf.steps, len(new), time.time() - t))
                if verdict():
                    break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    bad = sorted(verdict(), key=lambda m: len(m["history"]))
    foreign = [m for m in conf.mismatches if pid not in m["blame"]]
    for k, m in enumerate(bad[:3]):
        path = os.path.join(out, "violation%d.json" % (k + 1))
        with open(path, "w") as f:
            json.dump({"property": pid, "tag": m["tag"], "ops": m["history"], "mismatch": {x: m[x] for x in m if x != "history"}}, f)
        with open(path[:-5] + ".txt", "w") as f:
            f.write(describe(m))
        violations.append(path)
    if bad:
        log(describe(bad[0]))
    if foreign:
        log("note: %d histories differ in ways which break other properties: %s"
            % (len(foreign), " ".join(sorted({b for m in foreign for b in m["blame"]}))))
        m = min(foreign, key=lambda m: len(m["history"]))
        with open(os.path.join(out, "other.txt"), "w") as f:
            f.write(describe(m))
    level = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in level["checks"] if c["property"] == pid), "model_checking")
    samples = [sketch(t["e"][:12], t["tag"]) for t in conf.examples if t["tag"].startswith(pid)][:2] + \
        [sketch(x["h"] + [x["c"]], "transition of family " + x["family"]) for x in emitted]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": sum(f["states"] for f in families),
            "transitions": sum(f["transitions"] for f in families),
            "traces_validated_against_impl": conf.traces,
            "samples": samples,
            "families": families,
            "transitions_replayed_through_impl": replayed,
            "recorded_steps_judged": conf.steps,
            "operations_judged": conf.ops,
            "histories_not_evaluated": conf.dropped,
            "histories_breaking_other_properties_only": len(foreign),
        },
        "wall_s": round(time.time() - start, 1),
        "assumptions": [
            "attribute values that change through the attribute's child nodes are not explored for xmlns and ID attributes (known findings)",
            "strings are drawn from the alphabets and word lists of spec/DomMC.tla and harness/src/gen.rs",
        ],
        "violations": len(bad),
    }
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        for v in violations[:1]:
            print("VIOLATION property=%s replay=%s" % (pid, v), flush=True)
        return 1
    if conf.dropped:
        raise NoAnswer("%d histories could not be evaluated" % conf.dropped)
    log("%s holds: %d states, %d transitions, %d steps replayed, %d histories, %d steps judged, %.0f s"
        % (pid, ev["coverage"]["states"], ev["coverage"]["transitions"], replayed, conf.traces, conf.steps, time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer:", e, flush=True)
        sys.exit(2)
