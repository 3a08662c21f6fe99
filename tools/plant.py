"""Plant bugs described in a Python file, confirm them, and measure detection.

usage: plant.py BUGFILE [id ...] [--tests] [--checks] [--jobs N]

BUGFILE defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Python source using opinf; exits nonzero when the bug shows), needs,
what_it_breaks.  A bug is written to seeded/<id>/ only if its demo passes on
/repo, fails with the patch, and the repository's stable tests pass with it.
"""
import argparse, concurrent.futures as cf, json, os, pathlib, runpy
import shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, text=True,
                           capture_output=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable_ok(d):
    """Run the tests in the scratch copy d; return list of stable failures."""
    import xml.etree.ElementTree as ET
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(ENV, PYTHONPATH=f"{d}/src", PYTHONWARNINGS="ignore")
    base = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
            "--timeout=300", "-o", "junit_family=xunit2",
            "--randomly-seed=1", "--randomly-dont-reorganize"]
    for name, args in (("unit", ["--ignore=tests/regression", "tests"]),
                       ("reg", ["-n", "2", "--dist", "loadfile",
                                "tests/regression"])):
        rc, out = sh(base + [f"--junitxml={d}/{name}.xml"] + args, d, env)
        bad = []
        for tc in ET.parse(f"{d}/{name}.xml").getroot().iter("testcase"):
            if any(c.tag in ("failure", "error") for c in tc):
                nm = f"{tc.get('classname')}::{tc.get('name')}"
                if nm in stable or True:
                    bad.append(nm)
        if bad or rc not in (0,):
            return bad or [out[-300:]]
    return []


def main(bug, tests, checks, tier, seeds):
    d = tempfile.mkdtemp(prefix=bug["id"] + "-", dir="/tmp/pl")
    res = {"id": bug["id"], "prop": bug["property"]}
    try:
        w = f"{d}/repo"
        shutil.copytree(REPO, w, symlinks=True)
        for f, old, new in bug["edits"]:
            p = pathlib.Path(w, "src/opinf", f)
            s = p.read_text()
            if s.count(old) != 1:
                res["status"] = f"EDIT count {s.count(old)} in {f}: {old[:60]!r}"
                return res
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, text=True,
                              capture_output=True).stdout
        demo = f"{d}/demo.py"
        pathlib.Path(demo).write_text(bug["demo"].lstrip("\n"))
        rc0, out0 = sh([PY, demo], REPO, timeout=250)
        env = dict(ENV, PYTHONPATH=f"{w}/src")
        rc1, out1 = sh([PY, demo], w, env, timeout=250)
        if rc0 != 0 or rc1 == 0:
            res["status"] = f"DEMO unpatched={rc0} patched={rc1}\n{out0[-600:]}\n{out1[-600:]}"
            return res
        res["demo"] = out1.strip().splitlines()[-1][:110] if out1.strip() else ""
        if tests:
            bad = stable_ok(w)
            if bad:
                res["status"] = f"TESTS {bad[:3]}"
                return res
            out = VERIF / "seeded" / bug["id"]
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(diff)
            (out / "demo.py").write_text(bug["demo"].lstrip("\n"))
            (out / "demo.sh").write_text(
                '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(out / "demo.sh", 0o755)
            (out / "meta.json").write_text(json.dumps(
                dict(property=bug["property"], needs=bug["needs"],
                     what_it_breaks=bug["what_it_breaks"]), indent=1) + "\n")
        res["status"] = "PLANTED" if tests else "demo ok"
        if checks:
            res["checks"] = {}
            env = dict(ENV, PYTHONPATH=f"{w}/src", VERIF_REPO=w)
            for prop in bug.get("checks", [bug["property"]]):
                for seed in seeds:
                    rc, o = sh([PY, str(VERIF / "run_check.py"), prop, "--tier",
                                tier, "--seed", str(seed)], str(VERIF),
                               env, 900)
                    hit = [l for l in o.splitlines()
                           if l.startswith("VIOLATION")]
                    tot = [l for l in o.splitlines()
                           if "total" in l or "cases" in l]
                    res["checks"][f"{prop}/{seed}"] = (
                        f"rc={rc} {len(hit)} violations"
                        + ("" if rc in (0, 1) else o[-500:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("bugfile")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--checks", action="store_true")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seeds", default="1")
    ap.add_argument("--jobs", type=int, default=7)
    a = ap.parse_args()
    bugs = runpy.run_path(a.bugfile)["BUGS"]
    if a.ids:
        bugs = [b for b in bugs if b["id"] in a.ids]
    seeds = [int(s) for s in a.seeds.split(",")]
    os.makedirs("/tmp/pl", exist_ok=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda b: main(b, a.tests, a.checks, a.tier, seeds),
                        bugs):
            print(r["id"], r["prop"], "|", r.get("status"), "|",
                  r.get("demo", ""), "|", r.get("checks", ""), flush=True)
