"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JVM = ["-XX:+UseSerialGC", "-Dfile.encoding=UTF-8"]
SHORT = ["-XX:TieredStopAtLevel=1"]      # quicker for runs of a few seconds
CPUS = min(8, os.cpu_count() or 1)


class TlcError(Exception):
    pass


def scratch():
    d = os.environ.get("VERIF_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="verif-")
        os.environ["VERIF_SCRATCH"] = d
    return d


def run(module, cfg, env=None, workers=1, timeout=800, extra=(), heap="3g", deadlock=False, long=False):
    """Run TLC on spec/<module>.tla; cfg is text. Returns the output and the state counts."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    try:
        cfgfile = os.path.join(d, "m.cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss512m", *JVM, *([] if long else SHORT),
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE", "-config", cfgfile]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        out = "".join(x for x in p.stdout.splitlines(True) if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            pass
        g, s = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        return {"out": out, "rc": p.returncode, "transitions": g, "states": s, "wall": time.time() - t}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(module, cfg, **kw):
    """Run TLC and insist that no error is found in the specification itself."""
    r = run(module, cfg, **kw)
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise TlcError("TLC on %s:\n%s" % (module, r["out"][-6000:]))
    return r


_model = None


def model():
    """The object model table, as exported by TLC from the specification."""
    global _model
    if _model is None:
        out = os.path.join(scratch(), "model.json")
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            r = run("ExportModel", "INIT Init\nNEXT Next\n", env={"OUT": tmp})
            if not os.path.exists(tmp):
                raise TlcError(r["out"][-4000:])
            os.replace(tmp, out)
        with open(out) as f:
            _model = json.load(f)
    return _model


BAD = re.compile(r'^<<"BAD", (\d+), "(.*)">>$')


def judge_file(path, n):
    """[(event, clause)], TLC's result.  An event on which the specification cannot even be evaluated (a state
    that no execution of it reaches) is a difference; the histories after it are judged by another run."""
    lines, first, bad, total = None, 0, [], None
    for attempt in range(4):
        size = n - first
        r = run("Conform", "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n", env={"TRACE": path}, long=os.path.getsize(path) > 8 << 20)
        for line in r["out"].splitlines():
            m = BAD.match(line)
            if m:
                bad.append((first + int(m.group(1)) - 1, m.group(2)))
        total = r if total is None else {**r, **{k: total[k] + r[k] for k in ("states", "transitions", "wall")}}
        if r["rc"] == 0 and r["states"] == size + 1:
            break
        at = re.findall(r"^/\\ l = (\d+)$", r["out"], re.M)
        if "The error occurred when TLC was evaluating" not in r["out"] or not at or re.search("StackOverflow|OutOfMemory|Java heap", r["out"]):
            raise TlcError("trace of %d events, %d states:\n%s" % (size, r["states"], r["out"][-6000:]))
        k = first + int(at[-1]) - 1
        if lines is None:
            with open(path) as f:
                lines = f.readlines()
        if json.loads(lines[k])["op"] == "reset":
            raise TlcError(r["out"][-6000:])
        bad.append((k, "not an execution of the specification"))
        first = next((i for i in range(k + 1, n) if lines[i].startswith('{"op":"reset"}')), n)
        if first == n or attempt == 3:
            break
        with open(path, "w") as f:
            f.writelines(lines[first:])
    return bad, total


def judge(histories, jobs=None):
    """histories: lists of events (each list starts afresh).  Returns [(history, event, clause)], stats."""
    jobs = jobs or CPUS
    sizes = sorted(((sum(len(json.dumps(e)) for e in h), i) for i, h in enumerate(histories)), reverse=True)
    total = sum(s for s, _ in sizes)
    jobs = max(1, min(jobs, total // 50000 + 1))
    bins = [[0, []] for _ in range(jobs)]
    for s, i in sizes:
        b = min(bins, key=lambda x: x[0])
        b[0] += s + 200
        b[1].append(i)
    d = scratch()

    def one(k):
        index, path = [], os.path.join(d, "trace-%d-%d.ndjson" % (os.getpid(), k))
        with open(path, "w") as f:
            for i in sorted(bins[k][1]):
                index.append((i, -1))
                f.write('{"op":"reset"}\n')
                for j, e in enumerate(histories[i]):
                    index.append((i, j))
                    f.write(json.dumps(e) + "\n")
        bad, r = judge_file(path, len(index))
        os.unlink(path)
        return [(index[n][0], index[n][1], clause) for n, clause in bad], r

    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, [k for k in range(jobs) if bins[k][1]]))
    bad = sorted(b for r in rs for b in r[0])
    return bad, {"states": sum(r[1]["states"] for r in rs), "transitions": sum(r[1]["transitions"] for r in rs),
                 "wall": max([r[1]["wall"] for r in rs] or [0]), "jobs": len(rs)}
