"""Common driver of every check: builds from /repo's tree into a scratch directory, runs generated-input
searches, handles known findings, writes evidence and prints the verdict."""
import argparse, atexit, hashlib, json, os, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHIM = os.path.join(VERIF, "shim", "include")
HARNESS = os.path.join(VERIF, "harness")
LIB = os.path.join(VERIF, "lib")
JOBS = min(8, os.cpu_count() or 8)


class BuildError(Exception):
    pass


def known_findings():
    """lines: 'finding: property=<id> key=<key> <what fails>' / 'fixed: property=<id> <commit> <what failed>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                w = l[len("finding:"):].strip().split(" ", 2)
                out.append((w[0].split("=", 1)[1], w[1].split("=", 1)[1], w[2] if len(w) > 2 else ""))
    return out


class Check:
    def __init__(self, pid, rule, assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--replay")
        ap.add_argument("--scale", type=float, default=1.0)
        ap.add_argument("--keep", action="store_true")
        ap.add_argument("--only", default="")
        self.a = ap.parse_args()
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.tier = "thorough" if self.a.tier == "thorough" else "quick"
        self.seed = self.a.seed if self.a.seed > 0 else 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        if not self.a.keep:
            atexit.register(shutil.rmtree, self.tmp, True)
        os.environ["PBT_TMP"] = self.tmp
        self.evals = self.nontriv = 0
        self.parts, self.samples, self.failures, self.known_hit = [], [], [], []
        self.errors = []
        self.replay_info = None
        if self.a.replay:
            self.replay_info = json.load(open(self.a.replay))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        v = thorough if (self.thorough and thorough is not None) else quick
        return max(1, int(v * self.a.scale))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def sh(self, cmd, cwd=None, timeout=800):
        r = subprocess.run(cmd, cwd=cwd or self.tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-6000:]))
        return r.stdout

    def compile(self, jobs, link, out, libs=()):
        """jobs: list of (cmd prefix list, source, object name). Compiles in parallel, links."""
        def one(j):
            self.sh(j[0] + ["-c", j[1], "-o", os.path.join(self.tmp, j[2])])
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        self.sh(list(link) + [os.path.join(self.tmp, j[2]) for j in jobs] + ["-o", os.path.join(self.tmp, out)] + list(libs))
        return os.path.join(self.tmp, out)

    # ---------------------------------------------------------------- C++ choice-sequence harness
    def harness(self, binary, prop, quick, thorough=None, cpu=20, budget=None, env=None, jobs=JOBS):
        if self.a.only and prop not in self.a.only.split(","):
            return
        if self.replay_info:
            ri = self.replay_info
            if ri.get("kind") != "choices" or ri.get("prop") != prop:
                return
            f = os.path.join(self.tmp, "replay.choices")
            open(f, "w").write(ri.get("history") or "C " + " ".join(map(str, ri["choices"])))
            e = dict(os.environ); e.update(env or {})
            r = subprocess.run([binary, "--prop", prop, "--replay", f, "--cpu", str(cpu)], stdout=subprocess.PIPE, env=e, cwd=self.tmp)
            print(r.stdout.decode("utf8", "replace"))
            self.finish_replay(r.returncode != 0)
        budget = budget or (600 if self.thorough else 200)
        out = os.path.join(self.tmp, "out_%s.json" % prop)
        e = dict(os.environ); e.update(env or {})
        t = time.time()
        r = subprocess.run([binary, "--prop", prop, "--cases", str(self.n(quick, thorough)), "--seed", str(self.seed), "--jobs", str(jobs),
                            "--cpu", str(cpu), "--budget", str(budget), "--out", out, "--shrink", "60" if self.thorough else "30"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=self.tmp)
        if not os.path.exists(out):
            self.errors.append("%s: harness gave no result (%s): %s" % (prop, r.returncode, r.stdout.decode("utf8", "replace")[-2000:]))
            return
        d = json.load(open(out))
        self.evals += d["evaluations"]; self.nontriv += d["nontrivial"]
        part = {"part": prop, "evaluations": d["evaluations"], "distinct_nontrivial": d["nontrivial"], "discarded": d["discarded"], "labels": d["labels"], "wall_s": round(time.time() - t, 1)}
        self.parts.append(part)
        self.samples += [{"part": prop, "case": s} for s in d["samples"][:2]]
        self.log("%-28s %7d cases, %7d non-trivial, %d discarded, %.1fs %s" % (prop, d["evaluations"], d["nontrivial"], d["discarded"], time.time() - t,
                 "" if not d["labels"] else json.dumps(d["labels"])[:400]))
        if d["unreproduced"]:
            part["unreproduced"] = d["note"]
            self.log("UNREPRODUCED:", d["note"])
            self.errors.append("%s: %s" % (prop, d["note"]))
        if d["failed"]:
            self.fail(prop, d["message"], {"kind": "choices", "prop": prop, "choices": d["choices"], "history": d.get("history", ""), "desc": d["desc"], "stderr": d["stderr"]})
        elif d["evaluations"] < self.n(quick, thorough) and not d["unreproduced"]:
            self.log("note: time budget ended this part after %d of %d cases" % (d["evaluations"], self.n(quick, thorough)))

    # ---------------------------------------------------------------- generic bookkeeping
    def fail(self, part, msg, replay):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = dict(replay); replay.update({"property": self.pid, "part": part, "message": msg, "seed": self.seed, "tier": self.tier,
                                             "how": "cd /verif && %s checks/%s.py --replay <this file>" % ("python3-vt" if int(self.pid[1:]) > 7 else "python3", self.pid.lower())})
        p = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.pid, part, len(self.failures)))
        json.dump(replay, open(p, "w"), indent=1)
        self.failures.append((part, msg, p, replay))
        self.log("FAILED %s: %s\n%s\n%s" % (part, msg, replay.get("desc", ""), replay.get("stderr", "")))

    def count(self, part, evaluations, nontrivial, labels=None, samples=()):
        self.evals += evaluations; self.nontriv += nontrivial
        self.parts.append({"part": part, "evaluations": evaluations, "distinct_nontrivial": nontrivial, "labels": labels or {}})
        self.samples += [{"part": part, "case": s} for s in list(samples)[:2]]
        self.log("%-28s %7d cases, %7d non-trivial %s" % (part, evaluations, nontrivial, json.dumps(labels or {})[:600]))

    def known(self, key, what=None):
        """a listed finding: prints the KNOWN-FINDING line; returns False when it is not listed"""
        for p, k, t in known_findings():
            if p == self.pid and k == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, t), flush=True)
                return True
        return False

    def known_case(self, binary, prop, key, env=None):
        """runs the one input of a recorded finding: its failure is the finding, anything else is judged as usual"""
        if self.replay_info or (self.a.only and prop not in self.a.only.split(",")):
            return
        out = os.path.join(self.tmp, "known_%s.json" % prop)
        e = dict(os.environ); e.update(env or {})
        subprocess.run([binary, "--prop", prop, "--cases", "1", "--seed", "1", "--jobs", "1", "--cpu", "20", "--budget", "60", "--out", out, "--shrink", "1"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=self.tmp)
        if not os.path.exists(out):
            self.errors.append("%s: no result" % prop); return
        d = json.load(open(out))
        self.evals += d["evaluations"]; self.nontriv += d["nontrivial"]
        if d["failed"] and not self.known(key):
            self.fail(prop, d["message"], {"kind": "choices", "prop": prop, "choices": d["choices"], "history": "", "desc": d["desc"], "stderr": d["stderr"]})
        elif not d["failed"]:
            self.log("the input of the recorded finding %s now holds" % key)

    def finish_replay(self, failed):
        print("REPLAY %s" % ("FAILS" if failed else "HOLDS"))
        sys.stdout.flush()
        sys.exit(1 if failed else 0)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": self.nontriv, "rule": self.rule,
                           "samples": self.samples[:40], "parts": self.parts, "known_findings": self.known_hit},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.failures)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for part, msg, p, _ in self.failures:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  part %s: %s" % (part, msg.split("\n")[0][:400]))
        if self.failures:
            sys.stdout.flush(); sys.exit(1)
        if self.errors:
            print("ERROR: " + "\n".join(self.errors)); sys.stdout.flush(); sys.exit(2)
        self.log("held: %d cases, %d distinct non-trivial" % (self.evals, self.nontriv))
        sys.stdout.flush(); sys.exit(0)


def run(main):
    try:
        main()
    except BuildError as e:
        print("BUILD-ERROR: the current tree does not build against the harness:\n%s" % e)
        sys.exit(2)
