"""Runs the check of one property:  run.py C04 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed."""
import argparse
import collections
import hashlib
import itertools
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SHARDS = 8


def sha(obj):
    return hashlib.sha1(json.dumps(obj, ensure_ascii=True, sort_keys=True).encode()).hexdigest()[:14]


class Recorder:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None  # (case, message): the smallest one seen

    def run(self, case):
        from pbt.common import Violation

        self.evaluations += 1
        try:
            nontrivial, labels = self.prop.check(case)
        except Violation as v:
            size = len(json.dumps(case))
            if self.failure is None or size <= self.failure[2]:
                self.failure = (case, str(v), size)
            raise
        for x in labels:
            self.labels[x] += 1
        if nontrivial:
            h = sha(case)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 400:
                    self.samples.append(case)


def shrink(prop, case, message, seconds=15):
    """A smaller document that fails in the same way (Hypothesis shrinks generated cases, this the enumerated ones):
    leaves out children where any number may stand, and puts parts in the place of the whole."""
    from pbt import common, gen, model

    if "roots" not in case or "xml" in case or not isinstance(case["roots"], list):
        return case, message
    first, end = message.split("\n")[0][:60], time.time() + seconds

    def fails(roots):
        c = dict(case, roots=roots)
        try:
            prop.check(c)
        except common.Violation as v:
            return str(v) if str(v).split("\n")[0][:60] == first else None
        except Exception:
            pass
        return None

    def smaller(n):
        """Trees with one step less."""
        ks = n[2]
        names = sorted(n[1])
        size = (len(names) + 1) // 2
        while size:
            for i in range(0, len(names), size):
                yield [n[0], {k: n[1][k] for k in names[:i] + names[i + size:]}, ks]
            size //= 2
        if isinstance(ks, str):
            return
        if n[0] not in model.ARITY and n[0] != "mmultiscripts":
            size = len(ks) // 2
            while size:
                for i in range(0, len(ks), size):
                    if len(ks) > size:
                        yield [n[0], n[1], ks[:i] + ks[i + size:]]
                size //= 2
        for i, k in enumerate(ks):
            if n[0] != "math" and not isinstance(k[2], str) and k[0] not in ("mtr", "mtd", "mprescripts"):
                for kk in k[2]:
                    if kk[0] not in ("mtr", "mtd", "mprescripts"):
                        yield [n[0], n[1], ks[:i] + [kk] + ks[i + 1:]]
            elif n[0] == "math" and not isinstance(k[2], str) and k[2] and k[0] not in ("mtable", "mtr", "mtd"):
                yield [n[0], n[1], ks[:i] + [x for x in k[2] if x[0] != "mprescripts"] + ks[i + 1:]]
            for m in smaller(k):
                yield [n[0], n[1], ks[:i] + [m] + ks[i + 1:]]

    def steps(roots):
        if len(roots) > 1:
            for i in range(len(roots)):
                yield roots[:i] + roots[i + 1:]
        for i, r in enumerate(roots):
            for m in smaller(r):
                yield roots[:i] + [m] + roots[i + 1:]

    again = True
    while again and time.time() < end:
        again = False
        for roots in steps(case["roots"]):
            if time.time() > end:
                break
            m = fails(roots)
            if m:
                case, message, again = dict(case, roots=roots), m, True
                break
    return case, message


def shard_main(prop, tier, seed, shard, shards, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies as st
    from pbt import common, harvest

    try:
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 25
    except Exception:
        pass
    common.arm()
    common.load_target()
    rec = Recorder(prop)
    enumerated = 0
    error = None
    try:
        harvest.install()
        for i, case in enumerate(itertools.chain(prop.enumerate(tier), prop.harvested(tier))):
            if i % shards == shard:
                enumerated += 1
                try:
                    rec.run(case)
                except common.Violation:
                    c, m = shrink(prop, *rec.failure[:2])
                    rec.failure = (c, m, len(json.dumps(c)))
                    raise
        if shard == 0:
            for x in prop.finish(tier, seed):
                rec.labels[x] += 1
        total = prop.quick if tier == "quick" else prop.thorough
        n = total // shards
        if n:
            # the seed string decides every random choice of this shard
            s = int(hashlib.sha256(("%s/%d/%d" % (prop.id, seed, shard)).encode()).hexdigest()[:12], 16)

            @hypothesis.seed(s)
            @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
            @given(st.data())
            def search(data):
                rec.run(prop.gen(common.HypSrc(data), tier))

            search()
    except common.Violation as v:
        if rec.failure is None:
            rec.failure = (getattr(v, "case", {}), str(v), 0)
    except BaseException as e:
        # e.g. Flaky: the recorded case did fail once, which is what the property forbids
        if rec.failure is None:
            error = traceback.format_exc()
        elif isinstance(e, KeyboardInterrupt):
            raise
    json.dump({
        "evaluations": rec.evaluations, "enumerated": enumerated, "nontrivial": sorted(rec.nontrivial),
        "labels": rec.labels, "samples": rec.samples[:: max(1, len(rec.samples) // 6)][:6],
        "failure": rec.failure and list(rec.failure[:2]), "error": error,
    }, open(out, "w"))
    return 0


def known_findings(prop):
    """Prints the listed findings of this property that (still) show."""
    from pbt import common

    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path, encoding="utf-8"):
        if not line.startswith("finding: property=%s " % prop.id):
            continue
        f = json.loads(line.split(" ", 2)[2])
        o = common.call(f["input"])
        if o.ok and o.value == f["output"]:
            print("KNOWN-FINDING: property=%s %s: %s gives %s" % (prop.id, f["what"], f["input"], json.dumps(f["output"])))


def replay(path):
    from pbt import common
    from pbt.registry import PROPS

    r = json.load(open(path, encoding="utf-8"))
    prop = PROPS[r["property"]]
    common.arm()
    common.load_target()
    try:
        prop.check(r["case"])
    except common.Violation as v:
        print(v)
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("the case of %s holds now" % path)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    from pbt.registry import PROPS

    prop = PROPS[a.property]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    if a.shard is not None:
        return shard_main(prop, a.tier, seed, a.shard, SHARDS, a.out)

    from pbt import common

    t0 = time.time()
    common.load_target()
    known_findings(prop)
    work = os.path.join(HERE, "work", "%s-%d" % (prop.id, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    procs = []
    for i in range(SHARDS):
        out = os.path.join(work, "%d.json" % i)
        err = open(os.path.join(work, "%d.err" % i), "w")
        procs.append((i, out, err, subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), prop.id, "--tier", a.tier, "--seed", str(seed),
             "--shard", str(i), "--out", out], env=env, cwd=work, stdout=err, stderr=err)))
    results, errors = [], []
    for i, out, err, p in procs:
        p.wait()
        err.close()
        if p.returncode or not os.path.exists(out):
            errors.append("shard %d ended with %s\n%s" % (i, p.returncode, open(err.name).read()[-3000:]))
            continue
        r = json.load(open(out))
        results.append(r)
        if r["error"]:
            errors.append("shard %d: %s" % (i, r["error"][-3000:]))
    for i, out, err, _ in procs:
        for f in (out, err.name):
            if os.path.exists(f):
                os.remove(f)
    try:
        os.rmdir(work)
    except OSError:
        pass

    labels = collections.Counter()
    distinct = set()
    samples = []
    for r in results:
        labels.update(r["labels"])
        distinct.update(r["nontrivial"])
        samples += [prop.show(c)[:600] for c in r["samples"][:2]]
    failures = sorted((r["failure"] for r in results if r["failure"]), key=lambda f: len(json.dumps(f[0])))
    evidence = {
        "property": prop.id, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": " ".join(prop.rule.split()),
            "samples": samples,
            "enumerated": sum(r["enumerated"] for r in results),
            "classes": dict(sorted(labels.items())),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop.id + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (
        prop.id, a.tier, evidence["coverage"]["evaluations"], len(distinct), evidence["wall_s"]))
    if failures:
        case, message = failures[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop.id, sha(case)))
        json.dump({"property": prop.id, "seed": seed, "tier": a.tier, "message": message, "case": case},
                  open(path, "w"), indent=1, ensure_ascii=False)
        print(message[:4000])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
