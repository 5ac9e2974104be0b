"""Drives the sub-checks of one property with Hypothesis, sharded over processes."""
import importlib
import json
import math
import os
import random
import subprocess
import sys
import threading
import time
import traceback

from . import boot
from .core import Ctx, Inconclusive, SubCheck, Violation, case_key

SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
BUDGET = {"quick": 420.0, "thorough": 3 * 3600.0}
RESTARTS = 6
# The slowest cases take some seconds.
HANG_SECONDS = float(os.environ.get("VERIF_HANG_SECONDS", "240"))
SHRINK_SECONDS = {"quick": 45.0, "thorough": 240.0}
RESOURCE_HINTS = ("RESOURCE_EXHAUSTED", "Out of memory", "Cannot allocate memory", "can't start new thread")


def load(prop):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def run_case(sub, case):
    """Returns (ctx, message): message is None when the property held."""
    ctx = Ctx()
    try:
        sub.run(case, ctx)
    except Violation as err:
        return ctx, str(err)
    except Inconclusive:
        ctx.trivial = True
        ctx.label("inconclusive")
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as err:  # an unexpected object from the code under test
        text = f"{type(err).__name__}: {err}"
        if isinstance(err, OSError) or any(h in text for h in RESOURCE_HINTS):
            raise
        tb = traceback.extract_tb(err.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        return ctx, f"unexpected {text[:300]} [{where}]"
    return ctx, None


class Shard:
    def __init__(self, prop, tier, seed, shard, nshards, out=None):
        # The case under way is kept in a file: if the process dies of a signal (XLA's compiler does crash on some float16
        # programs) the shard is started anew and leaves that case out.
        self.journal = out and out + ".case"
        self.crashed = set(open(out + ".skip").read().split()) if out and os.path.exists(out + ".skip") else set()
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.module = load(prop)
        self.started = time.monotonic()
        self.per_sub = {}
        self.labels = {}
        self.keys = set()
        self.samples = []
        self.violation = None
        self.skipped = 0
        self.rng = random.Random(seed * 1000 + shard)

    def evaluate(self, sub, case):
        key = case_key(sub.name, case)
        if key in self.crashed:
            ctx = Ctx()
            ctx.trivial = True
            ctx.label("inconclusive")
            ctx.label("left out: crashed the process")
            return ctx, None
        if not self.journal:
            return run_case(sub, case)
        with open(self.journal, "w") as fh:
            fh.write(key + "\n" + json.dumps({"subcheck": sub.name, "case": case}, default=str))
        result = run_case(sub, case)
        with open(self.journal, "w"):
            pass
        return result

    def account(self, sub, case, ctx):
        row = self.per_sub.setdefault(sub.name, {"evaluations": 0, "nontrivial": 0, "inconclusive": 0})
        row["evaluations"] += 1
        if "inconclusive" in ctx.labels:
            row["inconclusive"] += 1
        for k in ctx.labels:
            self.labels[k] = self.labels.get(k, 0) + 1
        if not ctx.trivial:
            row["nontrivial"] += 1
            key = case_key(sub.name, case)
            if key not in self.keys:
                self.keys.add(key)
                mine = [s for s in self.samples if s["subcheck"] == sub.name]
                if not mine or (len(mine) < 3 and self.rng.random() < 0.05):
                    self.samples.append({"subcheck": sub.name, "case": case})

    def corpus(self):
        path = os.path.join(boot.VERIF, "corpus", f"{self.prop}.json")
        if self.shard != 0 or not os.path.exists(path):
            return
        subs = {s.name: s for s in self.module.SUBCHECKS}
        for entry in json.load(open(path)):
            sub = subs[entry["subcheck"]]
            ctx, msg = self.evaluate(sub, entry["case"])
            self.account(sub, entry["case"], ctx)
            if msg is not None:
                self.violation = {"subcheck": sub.name, "case": entry["case"], "message": msg}
                return

    def drive(self, sub):
        from hypothesis import HealthCheck, Phase, given, seed as hseed, settings

        count = sub.quick if self.tier == "quick" else sub.thorough
        if getattr(sub, "once", False):
            count = count if self.shard == 0 else 0
        if count <= 0:
            return
        failing = {}
        budget = BUDGET[self.tier]

        def body(case):
            now = time.monotonic()
            if failing:
                if now - failing["t0"] > SHRINK_SECONDS[self.tier]:
                    return
            elif now - self.started > budget:
                self.skipped += 1
                return
            ctx, msg = self.evaluate(sub, case)
            if not failing:
                self.account(sub, case, ctx)
            if msg is not None:
                size = len(json.dumps(case))
                if not failing:
                    failing.update(t0=now, size=size, case=case, message=msg)
                elif size <= failing["size"]:
                    failing.update(size=size, case=case, message=msg)
                raise Violation(msg)

        salt = f"{self.seed}/{self.prop}/{sub.name}/{self.shard}/{self.tier}"
        number = int.from_bytes(__import__("hashlib").sha256(salt.encode()).digest()[:8], "big")
        test = given(sub.strategy())(body)
        test = settings(
            max_examples=count, database=None, deadline=None, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), print_blob=False, derandomize=False,
            phases=(Phase.generate, Phase.shrink),
        )(test)
        test = hseed(number)(test)
        try:
            test()
        except BaseException as err:  # noqa: BLE001
            if not failing:
                raise
            if isinstance(err, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
        if failing:
            self.violation = {"subcheck": sub.name, "case": failing["case"], "message": failing["message"]}

    def run(self):
        self.corpus()
        subs = list(self.module.SUBCHECKS)
        # Different shards start at different sub-checks, so a violation of any of them is
        # met early by some shard.
        k = (self.shard * len(subs)) // max(1, self.nshards)
        for sub in subs[k:] + subs[:k]:
            if self.violation:
                break
            self.drive(sub)
        return {
            "per_sub": self.per_sub, "labels": self.labels, "keys": sorted(self.keys),
            "samples": self.samples, "violation": self.violation, "skipped": self.skipped,
            "shard": self.shard, "wall_s": time.monotonic() - self.started,
        }


def worker_main(argv):
    prop, tier, seed, shard, nshards, out = argv
    result = Shard(prop, tier, int(seed), int(shard), int(nshards), out).run()
    tmp = out + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(result, fh, default=str)
    os.replace(tmp, out)
    # Skip slow interpreter tear-down.
    sys.stdout.flush()
    os._exit(0)


def replay_main(path):
    entry = json.load(open(path))
    module = load(entry["property"])
    sub = {s.name: s for s in module.SUBCHECKS}[entry["subcheck"]]

    def give_up():
        print(f"{entry['subcheck']}: the case did not end within {HANG_SECONDS} s")
        print(f"VIOLATION property={entry['property']} replay={path}", flush=True)
        os._exit(1)

    timer = threading.Timer(HANG_SECONDS, give_up)
    timer.daemon = True
    timer.start()
    _, msg = run_case(sub, entry["case"])
    if msg is None:
        print(f"replay: property {entry['property']} held on this case")
        return 0
    print(f"{entry['subcheck']}: {msg}")
    print(f"VIOLATION property={entry['property']} replay={path}")
    return 1


def plain(x):
    """Without the NaN and infinities that strict JSON has no word for."""
    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x


def write_evidence(prop, tier, seed, module, results, wall, violations):
    per_sub, labels, keys, samples, skipped = {}, {}, set(), [], 0
    for r in results:
        for name, row in r["per_sub"].items():
            tot = per_sub.setdefault(name, {"evaluations": 0, "nontrivial": 0, "inconclusive": 0})
            for k in row:
                tot[k] += row[k]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        keys.update(r["keys"])
        skipped += r["skipped"]
        for s in reversed(r["samples"]):
            if sum(1 for t in samples if t["subcheck"] == s["subcheck"]) < 2:
                samples.append(s)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in per_sub.values()),
            "distinct_nontrivial": len(keys),
            "rule": " ".join(module.RULE.split()),
            "samples": plain(samples[:12]),
            "per_subcheck": per_sub,
            "labels": dict(sorted(labels.items())),
            "shards_finished": len(results),
            "cases_not_run_for_time": skipped,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(boot.VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(plain(evidence), fh, indent=1, default=str, allow_nan=False)
        fh.write("\n")
    os.replace(path + ".tmp", path)
    return evidence


def hung(journal, shard):
    """The violation, if the case under way in a shard has been so for far longer than any case takes."""
    try:
        if time.time() - os.stat(journal).st_mtime < HANG_SECONDS:
            return None
        text = open(journal).read().split("\n", 1)
    except OSError:
        return None
    if len(text) < 2:
        return None
    return dict(json.loads(text[1]), message=f"the case did not end within {HANG_SECONDS} s", shard=shard)


def main(prop, tier, seed):
    t0 = time.monotonic()
    import tempfile
    module = load(prop)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs = {}
    try:
        def launch(shard):
            out = os.path.join(tmp, f"{shard}.json")
            err = open(os.path.join(tmp, f"{shard}.err"), "w")
            procs[shard] = (subprocess.Popen(
                [sys.executable, "-B", os.path.join(boot.VERIF, "run.py"), "--worker",
                 prop, tier, str(seed), str(shard), str(SHARDS), out],
                stdout=err, stderr=err, cwd=boot.VERIF,
            ), out, err)

        for shard in range(SHARDS):
            launch(shard)
        crashes = {}
        results, broken, pending = [], [], dict(procs)
        violation = None
        hard = BUDGET[tier] + 300
        while pending:
            time.sleep(0.1)
            for shard, (proc, out, err) in list(pending.items()):
                if proc.poll() is None:
                    if violation is None:
                        violation = hung(out + ".case", shard)
                    continue
                del pending[shard]
                if proc.returncode == 0 and os.path.exists(out):
                    r = json.load(open(out))
                    results.append(r)
                    if r["violation"] and violation is None:
                        violation = r["violation"]
                        violation["shard"] = shard
                elif (proc.returncode is not None and proc.returncode < 0 and os.path.exists(out + ".case")
                        and crashes.setdefault(shard, 0) < RESTARTS):
                    crashes[shard] += 1
                    print(f"shard {shard} died of signal {-proc.returncode}; it is run again without the case at fault",
                          file=sys.stderr)
                    with open(out + ".skip", "a") as fh:
                        fh.write(open(out + ".case").read().split("\n")[0] + "\n")
                    err.close()
                    launch(shard)
                    pending[shard] = procs[shard]
                else:
                    err.flush()
                    broken.append((shard, proc.returncode, open(err.name).read()[-3000:]))
            if violation is not None:
                break
            if time.monotonic() - t0 > hard:
                broken.append((-1, None, "shards did not finish in time"))
                break
        for proc, _, _ in procs.values():
            if proc.poll() is None:
                proc.kill()
                proc.wait()
    finally:
        for proc, _, err in procs.values():
            if proc.poll() is None:
                proc.kill()
            err.close()
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)

    results.sort(key=lambda r: r["shard"])
    evidence = write_evidence(prop, tier, seed, module, results, time.monotonic() - t0,
                              1 if violation else 0)
    cov = evidence["coverage"]
    print(f"{prop} [{tier}] seed={seed}: {cov['evaluations']} cases, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
    for name, row in cov["per_subcheck"].items():
        print(f"  {name}: {row['evaluations']} cases, {row['nontrivial']} non-trivial, "
              f"{row['inconclusive']} inconclusive")
    if violation is not None:
        rdir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        entry = {"property": prop, "subcheck": violation["subcheck"], "message": violation["message"],
                 "seed": seed, "shard": violation["shard"], "case": violation["case"]}
        key = case_key(violation["subcheck"], violation["case"])
        path = os.path.join(rdir, f"{prop}-{violation['subcheck']}-{key}.json")
        with open(path, "w") as fh:
            json.dump(entry, fh, indent=1, default=str)
            fh.write("\n")
        print(f"{violation['subcheck']}: {violation['message']}")
        print(f"minimal case: {json.dumps(violation['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken:
        for shard, code, tail in broken:
            print(f"shard {shard} failed (exit {code}):\n{tail}", file=sys.stderr)
        return 2
    return 0
