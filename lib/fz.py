"""Choice-sequence property-based testing for Python checks: every case is a list of bounded choices, so generation,
shrinking and replay work on one vector of integers.  Cases run in a pool of forked workers."""
import hashlib, json, math, multiprocessing as mp, os, random, shutil, sys, time, traceback
from vf import Check, JOBS


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class Gen:
    """draws; `pre` replays a recorded sequence (missing choices are 0)"""

    def __init__(self, seed=None, pre=None, tmp=None):
        self.r = random.Random(seed) if pre is None else None
        self.pre, self.c, self.tmp = pre, [], tmp
        self.labels, self.nt, self.notes = set(), False, []
        self.keyfailed = None

    def draw(self, n):
        if self.pre is None:
            v = self.r.randint(0, n)
        else:
            k = len(self.c)
            v = min(self.pre[k], n) if k < len(self.pre) else 0
        self.c.append(v)
        return v

    def i(self, lo, hi):
        return lo + self.draw(hi - lo)

    def flip(self):
        return self.draw(1) == 1

    def chance(self, num, den):
        return self.draw(den - 1) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, ws):
        v = self.draw(sum(ws) - 1)
        for k, w in enumerate(ws):
            if v < w:
                return k
            v -= w
        return 0

    def real(self, lo, hi):
        """a quarter on a coarse grid that includes the ends"""
        if self.draw(3) == 0:
            return lo + (hi - lo) * self.draw(8) / 8.0
        return lo + (hi - lo) * self.draw(1 << 30) / float(1 << 30)

    def u(self, lo, hi):
        return lo + (hi - lo) * self.draw(1 << 30) / float(1 << 30)

    def logreal(self, lo, hi):
        return math.exp(math.log(lo) + self.draw(1 << 20) / float(1 << 20) * (math.log(hi) - math.log(lo)))

    def perm(self, n):
        p = list(range(n))
        for k in range(n - 1, 0, -1):
            j = k - self.draw(k)
            p[k], p[j] = p[j], p[k]
        return p

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]

    def label(self, s):
        self.labels.add(str(s))

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a))

    def fail(self, *a):
        raise Fail(" ".join(str(x) for x in a))

    def require(self, cond, *a):
        if not cond:
            raise Fail(" ".join(str(x) for x in a))

    def discard(self):
        raise Discard()


_FN = None
_TMP = None


def _one(args):
    k, seed, pre = args
    d = os.path.join(_TMP, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    g = Gen(seed, pre, d)
    r = {"k": k, "ok": True, "discard": False, "msg": "", "tb": ""}
    try:
        _FN(g)
    except Discard:
        r["discard"] = True
    except Fail as e:
        r["ok"], r["msg"] = False, str(e)
    except (KeyError, ValueError, IndexError, FileNotFoundError, AttributeError, ZeroDivisionError, TypeError) as e:
        # files of a finished run that cannot be read as what they should be
        r["ok"], r["msg"], r["tb"] = False, "the output could not be evaluated: %s: %s" % (type(e).__name__, e), traceback.format_exc()
        g.note(r["tb"])
    except Exception as e:  # a harness error is not a verdict on the code: reported apart
        r["ok"], r["msg"], r["tb"] = None, "%s: %s" % (type(e).__name__, e), traceback.format_exc()
    finally:
        for f in ([] if os.environ.get("FZ_KEEP") else os.listdir(d)):
            p = os.path.join(d, f)
            shutil.rmtree(p, True) if os.path.isdir(p) else os.unlink(p)
    r["labels"], r["nt"], r["c"], r["notes"] = sorted(g.labels), g.nt, g.c, "\n".join(g.notes)[:6000]
    return r


class PyCheck(Check):
    def explore(self, name, fn, quick, thorough=None, budget=None, jobs=JOBS):
        global _FN, _TMP
        if self.a.only and name not in self.a.only.split(","):
            return
        _FN, _TMP = fn, self.tmp
        if self.replay_info:
            ri = self.replay_info
            if ri.get("prop") != name:
                return
            r = _one((0, 0, ri["choices"]))
            print(r["notes"]); print(r["msg"]); print(r["tb"])
            self.finish_replay(r["ok"] is not True)
        n = self.n(quick, thorough)
        budget = budget or (600 if self.thorough else 150)
        t0 = time.time()
        evals = disc = 0
        labels, seen, samples, bad, err = {}, set(), [], None, None
        jobsl = [(k, "%d/%s/%d" % (self.seed, name, k), None) for k in range(n)]
        with mp.get_context("fork").Pool(jobs) as pool:
            for r in pool.imap(_one, jobsl, chunksize=1):
                if r["ok"] is None:
                    err = r
                    break
                if r["discard"]:
                    disc += 1
                else:
                    evals += 1
                    for l in r["labels"]:
                        labels[l] = labels.get(l, 0) + 1
                    if r["nt"]:
                        h = hashlib.md5(json.dumps(r["c"]).encode()).digest()
                        if h not in seen:
                            seen.add(h)
                            if len(samples) < 2 and r["notes"]:
                                samples.append(r["notes"][:1500])
                if not r["ok"]:
                    bad = r
                    break
                if time.time() - t0 > budget:
                    break
            if err:
                self.errors.append("%s case %s: %s\n%s\n%s" % (name, err["k"], err["msg"], err["tb"], err["notes"]))
            if bad:
                again = pool.map(_one, [(0, 0, bad["c"])])[0]
                if again["ok"] is False:
                    bad = self._shrink(pool, again)
                    self.fail(name, bad["msg"], {"kind": "py", "prop": name, "choices": bad["c"], "desc": bad["notes"]})
                else:
                    self.errors.append("%s: failure not reproduced: %s" % (name, bad["msg"]))
        self.evals += evals; self.nontriv += len(seen)
        self.parts.append({"part": name, "evaluations": evals, "distinct_nontrivial": len(seen), "discarded": disc, "labels": labels, "wall_s": round(time.time() - t0, 1)})
        self.samples += [{"part": name, "case": s} for s in samples]
        self.log("%-28s %7d cases, %7d non-trivial, %d discarded, %.1fs %s" % (name, evals, len(seen), disc, time.time() - t0, json.dumps(labels)[:500] if labels else ""))

    def _shrink(self, pool, bad):
        end = time.time() + (0 if os.environ.get("FZ_NOSHRINK") else 60 if self.thorough else 25)
        best = bad

        def attempt(cands):
            nonlocal best
            cands = [c for c in cands if c != best["c"]]
            for a in range(0, len(cands), JOBS):
                if time.time() > end:
                    return False
                for r in pool.map(_one, [(0, 0, c) for c in cands[a:a + JOBS]], chunksize=1):
                    if r["ok"] is False and (len(r["c"]), r["c"]) < (len(best["c"]), best["c"]):
                        best = r
                        return True
            return False
        while time.time() < end:
            c = best["c"]
            n = len(c)
            cands = []
            for size in (n // 2, n // 4, 16, 8, 4, 2, 1):
                if size >= 1:
                    cands += [c[:a] + c[a + size:] for a in range(0, n, size)]
            for size in (8, 4, 2):
                cands += [c[:a] + [0] * len(c[a:a + size]) + c[a + size:] for a in range(0, n, size) if any(c[a:a + size])]
            cands += [c[:a] + [v] + c[a + 1:] for a in range(n) for v in {0, c[a] // 2, c[a] - 1} if c[a] > 0]
            if not attempt(cands):
                break
        return best
