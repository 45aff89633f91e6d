"""One check run: cases from TLC, executions of the real code, verdicts of the specification, evidence."""
import json, multiprocessing, os, random, sys, threading, time, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

import tlc
from codec import *

ROOT = tlc.HERE


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.known, self.notes = [], [], {}, []
        self.bg = ThreadPoolExecutor(4)
        self.pending = []
        self.findings = {}
        f = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(f):
            for k in json.load(open(f))["known"]:
                if k["property"] == prop:
                    self.findings[k["id"]] = k

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC
    def cases(self, what, module="Cases", cfg="INIT Init\nNEXT Next\nCONSTRAINT Stop\n", env=None):
        """what TLC enumerates, as data"""
        out = os.path.join(tlc.scratch(), "cases-%s-%s.json" % (module, what))
        if not os.path.exists(out):
            e = {"OUT": out, "WHAT": what}
            e.update(env or {})
            r = tlc.run(module, cfg, env=e)
            if not os.path.exists(out):
                raise tlc.TlcError(r["out"][-5000:])
        with open(out) as f:
            return json.load(f)

    def check_model(self, module, cfg, env=None, **kw):
        """model check in the background; counted when finished"""
        e = {"OUT": "", "WHAT": ""}
        e.update(env or {})
        self.pending.append((module, self.bg.submit(tlc.check, module, cfg, env=e, **kw)))

    def emitted(self, module, cfg, env=None, **kw):
        """the CASE lines of a model checking run"""
        e = {"OUT": "", "WHAT": ""}
        e.update(env or {})
        r = tlc.check(module, cfg, env=e, **kw)
        self.count(r)
        out = []
        for line in r["out"].splitlines():
            if line.startswith('"CASE '):
                out.append(json.loads(json.loads(line)[5:]))
        return out

    def count(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]

    # -- the real code
    def pmap(self, fn, items, chunk=None):
        items = list(items)
        if len(items) < 32:
            return [fn(i) for i in items]
        n = tlc.CPUS
        with ProcessPoolExecutor(n, mp_context=multiprocessing.get_context("fork")) as ex:
            return list(ex.map(fn, items, chunksize=chunk or max(1, len(items) // (n * 4))))

    def run_scripts(self, scripts):
        import machine
        return self.pmap(machine.run_script, scripts)

    # -- verdicts
    def judge(self, histories, label="", module=None):
        histories = [h for h in histories if h]
        if not histories:
            return []
        t = time.time()
        bad, st = tlc.judge(histories)
        self.traces += len(histories)
        self.events += sum(map(len, histories))
        for i, j, clause in bad:
            if clause.startswith("known "):
                self.known.setdefault(clause[6:], []).append(histories[i][j])
            else:
                self.violation(clause, histories[i][:j + 1], label)
        self.sample(label, histories)
        self.notes.append("%s: %d histories, %d events, %d differences, judged in %.1f s" % (label, len(histories), sum(map(len, histories)), len(bad), time.time() - t))
        return bad

    def scripts(self, scripts, label=""):
        t = time.time()
        hs = self.run_scripts(scripts)
        short = sum(len(h) < len(s) for h, s in zip(hs, scripts))
        self.notes.append("%s: executed in %.1f s, %d of %d histories end early" % (label, time.time() - t, short, len(scripts)))
        self.judge(hs, label)
        return hs

    def sample(self, label, histories):
        rng = random.Random(len(histories))
        for h in rng.sample(histories, min(2, len(histories))):
            text = json.dumps(h[:3])
            self.samples.append({"group": label, "history": h[:3] if len(text) < 3000 else text[:3000] + " ..."})

    def violation(self, clause, history, label=""):
        self.violations.append({"property": self.prop, "group": label, "clause": clause, "history": history})

    def finish(self):
        for module, f in self.pending:
            r = f.result()
            self.count(r)
            self.notes.append("model %s: %d states, %d transitions, %.1f s" % (module, r["states"], r["transitions"], r["wall"]))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        lost = {k: v for k, v in self.known.items() if k not in self.findings}
        if self.prop == "D02":
            for k, es in lost.items():
                self.violation("unlisted finding " + k, [es[0]])
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:12], "notes": self.notes}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
                       "assumptions": ["the specification in /verif/spec states the intended behaviour", "TLC evaluates it correctly",
                                       "the observation functions in /verif/harness/real.py report the state of the objects"],
                       "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}, f, indent=1)
        if self.prop == "D02":
            for k, fd in self.findings.items():
                if k in self.known:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, fd["what"]))
        seen = set()
        for v in self.violations:
            if v["clause"] in seen and len(seen) >= 1 or len(seen) >= 5:
                continue
            seen.add(v["clause"])
            path = os.path.join(ev, "replay-%s-%d.json" % (self.prop, len(seen)))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + describe(v))
        if os.environ.get("VERIF_VERBOSE"):
            for n in self.notes:
                print("  " + n)
            print("  %.1f s, %d states, %d traces, %d events" % (time.time() - self.t0, self.states, self.traces, self.events))
        return 1 if self.violations else 0


def plain(v):
    return json.dumps(dec(v, None)) if not handles(v) else json.dumps(v)


def handles(v):
    return '"t": "h"' in json.dumps(v)


def describe(v):
    e = v["history"][-1] if v["history"] else {}
    bits = ["%s [%s]" % (v["clause"], v["group"])]
    for k in ("op", "c", "id", "path", "name", "key", "p", "procs", "how", "r"):
        if k in e:
            bits.append("%s=%s" % (k, json.dumps(e[k])))
    for k in ("arg", "to"):
        if k in e:
            try:
                bits.append("%s=%s" % (k, plain(e[k])[:600]))
            except Exception:  # noqa: BLE001
                pass
    return " ".join(bits)
