"""Driver: run.py ID [--tier quick|thorough] [--replay FILE] (see DESIGN.md).

exit 0: property held on everything explored; exit 1 with a line
``VIOLATION property=<id> replay=<path>``: it is broken; exit 2: error of the check.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_env():
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "JAX_DEBUG_NANS", "JAX_DISABLE_JIT", "JAX_ENABLE_X64"):
        env.pop(k, None)
    env.update(
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NPROC="1", TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
        PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + HERE,
        PYTHONWARNINGS="ignore",
    )
    return env


def load(pid):
    import vf

    vf.FACETS.clear()
    importlib.import_module("checks." + pid)
    import bijx

    f = os.path.realpath(bijx.__file__)
    if not f.startswith(os.path.realpath(os.path.join(REPO, "src"))):
        raise SystemExit(f"bijx imported from {f}, not from {REPO}")
    return vf, vf.FACETS


def worker(args):
    """One process: some facet shards, results appended to --out as json lines."""
    vf, facets = load(args.id)
    byname = {f.name: f for f in facets}
    with open(args.out, "a") as out:
        for job in args.jobs.split(","):
            name, shard = job.split(":")
            f = byname[name]
            n = f.quick if args.tier == "quick" else f.thorough
            n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
            try:
                r = vf.run_facet(f, n, args.seed * 1000 + int(shard), args.budget, args.shrink)
            except BaseException as e:
                r = dict(facet=name, error="".join(traceback.format_exception(e))[-4000:],
                         evaluations=0, nontrivial=0, skipped=0, samples=[], violation=None, wall_s=0)
            r["shard"] = int(shard)
            out.write(json.dumps(r) + "\n")
            out.flush()


def listing(args):
    vf, facets = load(args.id)
    print("FACETS " + json.dumps([[f.name, f.shards, f.tshards] for f in facets]))


def replay(args):
    with open(args.replay) as fh:
        rec = json.load(fh)
    vf, facets = load(args.id)
    f = {f.name: f for f in facets}[rec["facet"]]
    d = vf.Draw(replay=rec["draws"])
    try:
        f.fn(d)
    except Exception as e:
        if vf.is_harness(e):
            traceback.print_exc()
            return 2
        traceback.print_exc()
        print(f"VIOLATION property={args.id} replay={args.replay}")
        return 1
    print("replayed: property held")
    return 0


def known_findings(pid):
    """lines 'known: property=<id> facet=<facet> match=<text in message> what=<...>'"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                parts = {}
                body = line[len("known: "):].strip()
                body, _, parts["what"] = body.partition(" what=")
                body, _, parts["match"] = body.partition(" match=")
                for tok in body.split():
                    k, _, v = tok.partition("=")
                    parts[k] = v
                out.append(parts)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier_pos", nargs="?", default=None)
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs")
    ap.add_argument("--facets", default=None)
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--shrink", type=float, default=None)
    ap.add_argument("--procs", type=int, default=None)
    args = ap.parse_args()
    tier = args.tier or args.tier_pos or os.environ.get("VERIF_TIER") or "quick"
    args.tier = tier = "thorough" if tier == "thorough" else "quick"
    if args.seed is None:
        try:
            args.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            args.seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    args.budget = args.budget or (300 if tier == "quick" else 3000)
    if os.environ.get("VERIF_FAILFAST"):
        args.shrink = args.shrink or 3
    args.shrink = args.shrink or (40 if tier == "quick" else 120)
    if args.list:
        return listing(args)
    if args.jobs:
        return worker(args)
    if args.replay and os.environ.get("VERIF_CHILD"):
        return replay(args)

    t0 = time.time()
    env = setup_env()
    env["VERIF_CHILD"] = "1"
    me = [sys.executable, "-B", os.path.join(HERE, "run.py"), args.id]
    if args.replay:
        return subprocess.call(me + ["--replay", args.replay], env=env, cwd=HERE)
    common = ["--tier", tier, "--seed", str(args.seed), "--budget", str(args.budget), "--shrink", str(args.shrink)]
    p = subprocess.run(me + ["--list"], env=env, cwd=HERE, capture_output=True, text=True)
    line = [x for x in p.stdout.splitlines() if x.startswith("FACETS ")]
    if p.returncode or not line:
        print(p.stdout[-3000:], p.stderr[-6000:])
        print("ERROR: check module could not be loaded")
        return 2
    jobs = []
    for name, sh, tsh in json.loads(line[0][7:]):
        if args.facets and name not in args.facets.split(","):
            continue
        jobs += [f"{name}:{i}" for i in range(sh if tier == "quick" else tsh)]
    outdir = os.path.join(HERE, "evidence")
    os.makedirs(outdir, exist_ok=True)
    work = os.path.join(outdir, f".work-{args.id}-{os.getpid()}")
    os.makedirs(work)
    nproc = args.procs or min(8, os.cpu_count() or 1)
    queue, running, crashed, k = list(jobs), [], [], 0
    while queue or running:
        while queue and len(running) < nproc:
            job = queue.pop(0)
            o = os.path.join(work, f"{k}.jsonl")
            lg = open(os.path.join(work, f"{k}.log"), "w")
            k += 1
            pr = subprocess.Popen(me + common + ["--jobs", job, "--out", o], env=env, cwd=HERE, stdout=lg, stderr=lg)
            running.append((pr, job, lg))
        time.sleep(0.05)
        for r in list(running):
            if r[0].poll() is not None:
                running.remove(r)
                r[2].close()
                if os.environ.get("VERIF_FAILFAST"):  # for experiments: stop at the first violation
                    out = os.path.join(work, os.path.basename(r[2].name)[:-3] + "jsonl")
                    if os.path.exists(out) and any(json.loads(x)["violation"] for x in open(out)):
                        queue = []
                        for q in running:
                            q[0].kill()
                            q[0].wait()
                            q[2].close()
                        running = []
                        break
                if r[0].returncode:
                    crashed.append((r[1], r[0].returncode, open(r[2].name).read()[-3000:]))
    results = []
    for i in range(k):
        o = os.path.join(work, f"{i}.jsonl")
        if os.path.exists(o):
            results += [json.loads(x) for x in open(o)]
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    os.rmdir(work)

    known = known_findings(args.id)
    violations, errors, knowns = [], [], {}
    for r in results:
        v = r["violation"]
        if v:
            hit = [q for q in known if q["facet"] == r["facet"] and q["match"] in v["message"]]
            if hit:
                knowns[hit[0]["what"]] = v
            else:
                violations.append(v)
        if r["error"]:
            errors.append((r["facet"], r["error"]))
    for q in known:
        print(f"KNOWN-FINDING: property={args.id} {q['what']}")

    per = {}
    for r in results:
        a = per.setdefault(r["facet"], dict(evaluations=0, nontrivial=0, skipped=0, wall_s=0.0))
        for key in a:
            a[key] = round(a[key] + r[key], 2) if key == "wall_s" else a[key] + r[key]
    mod_doc = ""
    try:
        src = open(os.path.join(HERE, "checks", args.id + ".py")).read()
        if src.startswith('"""'):
            mod_doc = src[3 : src.index('"""', 3)].strip()
    except OSError:
        pass
    samples = []
    for r in results:
        samples += r["samples"][:3]
    evidence = dict(
        property=args.id, tier=tier, seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=sum(r["nontrivial"] for r in results),
            rule=mod_doc or "each case is drawn by hypothesis; see DESIGN.md",
            samples=samples[:24], facets=per,
            inconclusive=sum(r["skipped"] for r in results),
        ),
        assumptions=[
            "jax on CPU in double precision, numpy/scipy reference computations and automatic differentiation of jax are trusted",
            "generated-input search: no claim beyond the cases generated",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    with open(os.path.join(outdir, args.id + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print(f"{args.id} [{tier}, seed {args.seed}]: {evidence['coverage']['evaluations']} cases,"
          f" {evidence['coverage']['distinct_nontrivial']} distinct non-trivial,"
          f" {evidence['coverage']['inconclusive']} not run (time budget), {evidence['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE"):
        for f, a in per.items():
            print(f"   {f:32s} {a}")
    if violations:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for v in {v["facet"]: v for v in violations}.values():
            path = os.path.join(rdir, f"{args.id}-{v['facet']}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=args.id, **v), fh, indent=1)
            print(f"  {v['facet']} ({v['kind']}): {v['message'][:1500]}")
            if v["kind"] == "exception":
                print("    " + v["traceback"][-2500:].replace("\n", "\n    "))
            print(f"    case: {json.dumps(v['draws'])[:1500]}")
            print(f"VIOLATION property={args.id} replay={path}")
        return 1
    if errors or crashed:
        for f, e in errors:
            print(f"ERROR in facet {f}:\n{e}")
        for j, rc, log in crashed:
            print(f"ERROR: worker for {j} ended with {rc}:\n{log}")
        return 2
    if evidence["coverage"]["evaluations"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main() or 0)
