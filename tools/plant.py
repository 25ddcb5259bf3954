"""Turn a bug description into /verif/seeded/<id>, after confirming it in a scratch copy of /repo.

usage: python3 plant.py SPEC.py [--notest] [--nocheck]
SPEC defines id, property, edits=[(file, old, new), ...], needs, what_it_breaks, demo (python source: exits nonzero if broken).
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET

HERE = pathlib.Path(__file__).resolve().parent.parent
spec = runpy.run_path(sys.argv[1])
bid, prop = spec["id"], spec["property"]
copy = pathlib.Path("/tmp/plant") / bid
shutil.rmtree(copy, ignore_errors=True)
copy.parent.mkdir(exist_ok=True)
subprocess.run(["cp", "-a", "/repo", str(copy)], check=True)
for f, old, new in spec["edits"]:
    p = copy / "src/bijx" / f
    s = p.read_text()
    assert s.count(old) == 1, (f, s.count(old), old)
    p.write_text(s.replace(old, new))
diff = subprocess.run(["git", "-C", str(copy), "diff", "--no-color"], capture_output=True, text=True, check=True).stdout
assert diff
out = HERE / "seeded" / bid
tmp = pathlib.Path("/tmp/plant") / (bid + ".demo")
shutil.rmtree(tmp, ignore_errors=True)
tmp.mkdir()
(tmp / "demo.py").write_text(spec["demo"].lstrip("\n"))
(tmp / "demo.sh").write_text('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PYTHONHASHSEED="0", MPLBACKEND="Agg")


def demo(root):
    e = dict(env, PYTHONPATH=str(root / "src"))
    return subprocess.run(["bash", str(tmp / "demo.sh")], cwd=root, env=e, capture_output=True, text=True, timeout=300)


good, bad = demo(pathlib.Path("/repo")), demo(copy)
ok = good.returncode == 0 and bad.returncode != 0
print(f"{bid}: demo unchanged={good.returncode} planted={bad.returncode}", bad.stdout.strip()[-200:], bad.stderr.strip().splitlines()[-1:] )
if good.returncode:
    print(good.stdout[-500:], good.stderr[-1500:])
if ok and "--notest" not in sys.argv:
    x = f"/tmp/plant/{bid}.xml"
    e = dict(env, PYTHONPATH=str(copy / "src"), HYPOTHESIS_STORAGE_DIRECTORY=f"/tmp/plant/{bid}.hyp")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--hypothesis-seed=0", "-n", "8", "-o", "junit_family=xunit2", f"--junitxml={x}", "tests", "src/bijx"], cwd=copy, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    failed = [t.get("classname") + "::" + t.get("name") for t in ET.parse(x).getroot().iter("testcase") if t.find("failure") is not None or t.find("error") is not None]
    print(f"{bid}: tests failed: {failed[:4]} ({len(failed)})")
    ok = not failed
if ok:
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    for n in ("demo.py", "demo.sh"):
        shutil.copy(tmp / n, out / n)
    (out / "meta.json").write_text(json.dumps({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, indent=1) + "\n")
    if "--nocheck" not in sys.argv:
        r = subprocess.run(["bash", str(HERE / "check.sh"), prop, "quick"], env=dict(os.environ, VERIF_REPO=str(copy)), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "(oracle)" in l or "(exception)" in l]
        print(f"{bid}: check {prop} exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'}", *[l[:220] for l in v], sep="\n   ")
shutil.rmtree(copy, ignore_errors=True)
shutil.rmtree(tmp, ignore_errors=True)
