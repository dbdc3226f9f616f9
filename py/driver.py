"""Runs one Python property: hypothesis in several processes, shrinking, evidence, replay, hang detection."""
import hashlib, json, os, subprocess, sys, time, traceback

ROOT = os.environ.get("VERIF_ROOT", "/verif")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
SHARDS = 8
HANG = 150.0  # wall seconds without progress of a shard


class Violation(Exception):
    pass


class Info:
    def __init__(self, nontrivial, *labels):
        self.nontrivial, self.labels = bool(nontrivial), [l for l in labels if l]


def guarded(check, case):
    """A panic of the extension module is a BaseException of its own: make it a violation."""
    try:
        return check(case)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            raise Violation("panic in the extension module: %s" % e) from None
        if type(e).__module__.startswith("hypothesis"):
            raise
        raise Violation("%s: %s [%s]" % (type(e).__name__, e, traceback.format_exc(limit=-1).strip().split("\n")[1].strip())) from e


def worker(prop, shard, n):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = dict(evals=0, nontrivial=0, distinct=set(), labels={}, samples=[], failure=None)
    cur = "%s/build/tmp/%s-%d.cur" % (ROOT, prop.ID, shard)
    failed = [False]

    def one(case):
        with open(cur, "w") as f:
            json.dump(case, f)
        try:
            info = guarded(prop.check, case)
        except Violation as e:
            failed[0] = True
            st["failure"] = (str(e), case)
            raise
        if failed[0]:
            return
        st["evals"] += 1
        for l in info.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if info.nontrivial:
            st["nontrivial"] += 1
            s = json.dumps(case, sort_keys=True)
            st["distinct"].add(hashlib.md5(s.encode()).hexdigest()[:16])
            if len(st["samples"]) < 2 and len(s) < 1500:
                st["samples"].append(case)

    @hypothesis.seed(SEED * 1000 + shard)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], derandomize=False)
    @given(prop.cases())
    def test(case):
        one(case)

    try:
        if shard == 0:
            for c in prop.fixed():
                one(c)
        test()
    except Violation:
        pass
    except BaseException as e:
        if st["failure"] is None:
            raise
        # hypothesis reports a case that does not fail every time by an exception of its own
        if type(e).__module__.startswith("hypothesis"):
            st["failure"] = (st["failure"][0] + " (not on every run)", st["failure"][1])
    st["distinct"] = sorted(st["distinct"])
    with open("%s/build/tmp/%s-%d.json" % (ROOT, prop.ID, shard), "w") as f:
        json.dump(st, f)


def replay_file(prop, shard, msg, case):
    os.makedirs(ROOT + "/replays", exist_ok=True)
    path = "%s/replays/%s-seed%d-shard%d.json" % (ROOT, prop.ID, SEED, shard)
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "message": msg, "case": case}, f, indent=1)
    return path


def main(prop):
    args = sys.argv[1:]
    os.makedirs(ROOT + "/build/tmp", exist_ok=True)
    if args and args[0] == "--worker":
        # the solver prints on file descriptor 1
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        worker(prop, int(args[1]), int(args[2]))
        return
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            case = json.load(f)["case"]
        keep = os.dup(1)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        out = os.fdopen(keep, "w")
        try:
            guarded(prop.check, case)
        except Violation as e:
            print("replay: %s" % e, file=out)
            print("VIOLATION property=%s replay=%s" % (prop.ID, args[1]), file=out, flush=True)
            os._exit(1)
        print("replay: property %s holds on this case" % prop.ID, file=out, flush=True)
        os._exit(0)
    t0 = time.time()
    total = int(os.environ.get("VERIF_CASES", prop.COUNT[TIER == "thorough"]))
    per = -(-total // SHARDS)
    procs = []
    for s in range(SHARDS):
        for ext in ("json", "cur"):
            f = "%s/build/tmp/%s-%d.%s" % (ROOT, prop.ID, s, ext)
            if os.path.exists(f):
                os.unlink(f)
        err = open("%s/build/tmp/%s-%d.err" % (ROOT, prop.ID, s), "w")
        procs.append(subprocess.Popen([sys.executable, "-P", sys.argv[0], "--worker", str(s), str(per)], stderr=err))
    failures, errors = [], []
    live = set(range(SHARDS))
    while live:
        time.sleep(0.2)
        for s in sorted(live):
            cur = "%s/build/tmp/%s-%d.cur" % (ROOT, prop.ID, s)
            rc = procs[s].poll()
            if rc is None:
                if os.path.exists(cur) and time.time() - os.path.getmtime(cur) > HANG:
                    procs[s].kill()
                    procs[s].wait()
                    failures.append((s, "the case does not end (more than %d s)" % HANG, json.load(open(cur))))
                    live.discard(s)
                continue
            live.discard(s)
            if rc < 0 and os.path.exists(cur):
                failures.append((s, "the process died with signal %d" % -rc, json.load(open(cur))))
            elif rc != 0:
                errors.append((s, open("%s/build/tmp/%s-%d.err" % (ROOT, prop.ID, s)).read()[-2000:]))
        if failures:
            for s in live:
                procs[s].kill()
            live = set()
    allst = dict(evals=0, nontrivial=0, distinct=set(), labels={}, samples=[])
    for s in range(SHARDS):
        f = "%s/build/tmp/%s-%d.json" % (ROOT, prop.ID, s)
        if not os.path.exists(f):
            continue
        st = json.load(open(f))
        allst["evals"] += st["evals"]
        allst["nontrivial"] += st["nontrivial"]
        allst["distinct"].update(st["distinct"])
        for k, v in st["labels"].items():
            allst["labels"][k] = allst["labels"].get(k, 0) + v
        allst["samples"] = (allst["samples"] + st["samples"])[:4]
        if st["failure"]:
            failures.append((s, st["failure"][0], st["failure"][1]))
    wall = time.time() - t0
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (ROOT, prop.ID), "w") as f:
        json.dump({
            "property": prop.ID, "tier": TIER if TIER == "thorough" else "quick", "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": allst["evals"], "nontrivial": allst["nontrivial"],
                "distinct_nontrivial": len(allst["distinct"]), "rule": prop.RULE,
                "classes": dict(sorted(allst["labels"].items())), "shards": SHARDS, "samples": allst["samples"],
            },
            "assumptions": prop.ASSUMPTIONS, "wall_s": wall, "violations": int(bool(failures)),
        }, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, seed %d, %.1f s" % (prop.ID, allst["evals"], len(allst["distinct"]), SEED, wall))
    if os.environ.get("VERIF_LABELS"):
        for k, v in sorted(allst["labels"].items()):
            print("   %8d %s" % (v, k))
    if failures:
        s, msg, case = failures[0]
        print("%s: %s" % (prop.ID, msg))
        print("VIOLATION property=%s replay=%s" % (prop.ID, replay_file(prop, s, msg, case)), flush=True)
        os._exit(1)
    if errors:
        print("ERROR: shard %d: %s" % errors[0], flush=True)
        os._exit(2)
    if not allst["distinct"]:
        print("ERROR: no non-trivial case was generated", flush=True)
        os._exit(2)
    os._exit(0)
