"""Helper used by hand: plant.py SPEC.py [ID...]   turns bug specifications into /verif/seeded/<id>/ after confirming them.

SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new), ...], needs, breaks, demo)].  Each is applied to a scratch copy of
/repo; kept if the demo passes on /repo and fails on the copy and all stable tests pass there.  Reports whether the check catches it."""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$tmp" MPLBACKEND=Agg MPLCONFIGDIR="$tmp" DEMO_TMP="$tmp" OMP_NUM_THREADS=1 \\
  timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def original(repo, f, old_lines):
    first = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    return all(l.split()[0].lstrip("^") == first for l in old_lines)


def one(b):
    out = []
    top = tempfile.mkdtemp(dir="/tmp/bugs", prefix=b["id"] + ".")
    repo = top + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        edits = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        for f, es in edits.items():
            p = f"{repo}/{f}"
            s = open(p).read()
            for o, n in es:
                if s.count(o) != 1:
                    return b, False, f"edit matches {s.count(o)} times in {f}: {o!r}"
                s = s.replace(o, n)
            open(p, "w").write(s)
        diff = sh(["git", "-C", repo, "diff"]).stdout
        # removed lines are original ones
        first = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
        for f in edits:
            blame = sh(["git", "-C", repo, "blame", "-l", "HEAD", "--", f]).stdout.splitlines()
            h = sh(["git", "-C", repo, "diff", "-U0", "--", f]).stdout.splitlines()
            import re
            for l in h:
                m = re.match(r"@@ -(\d+)(?:,(\d+))? \+", l)
                if m:
                    a, c = int(m[1]), int(m[2] or 1)
                    for i in range(a, a + c):
                        if blame[i - 1].split()[0].lstrip("^") != first[:39] and blame[i - 1].split()[0].lstrip("^") != first:
                            out.append(f"NOT ORIGINAL: {f}:{i}")
        dst = f"{top}/seed"
        os.makedirs(dst)
        open(dst + "/demo.py", "w").write(b["demo"].lstrip())
        open(dst + "/demo.sh", "w").write(DEMO)
        os.chmod(dst + "/demo.sh", 0o755)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        a, c = sh(["bash", dst + "/demo.sh"], cwd="/repo"), sh(["bash", dst + "/demo.sh"], cwd=repo)
        if a.returncode != 0 or c.returncode == 0:
            return b, False, f"demo: clean {a.returncode}, patched {c.returncode}\n{a.stdout[-800:]}{a.stderr[-1500:]}\n--- {c.stdout[-500:]}"
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
        env.update(PYTHONPATH="/opt/vp/pyplugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
                   NUMBA_CACHE_DIR=top + "/numba", PATH="/opt/venv/bin:" + os.environ["PATH"])
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--rootdir=" + repo, "--timeout=300", "--continue-on-collection-errors",
            "-o", "junit_family=xunit2", "--junitxml=" + top + "/junit.xml", "unit_tests"], cwd=repo, env=env)
        good = set()
        for case in ET.parse(top + "/junit.xml").getroot().iter("testcase"):
            if case.find("failure") is None and case.find("error") is None:
                good.add("::".join([case.get("classname"), case.get("name")]))
        if STABLE - good:
            return b, False, "tests fail: " + ", ".join(sorted(STABLE - good)[:3])
        if any(o.startswith("NOT") for o in out):
            return b, False, "; ".join(out)
        final = "/verif/seeded/" + b["id"]
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dst, final)
        env = dict(os.environ, RAINBOW_REPO=repo, VERIF_EVIDENCE=top, VERIF_PROCS="2")
        r = sh(["/verif/run.sh", b["prop"]], env=env)
        caught = r.returncode == 1 and f"VIOLATION property={b['prop']}" in r.stdout
        msg = [l for l in r.stdout.splitlines() if l.startswith("---")][:1]
        return b, True, ("CAUGHT " if caught else f"MISSED rc={r.returncode} ") + "".join(msg)[:160] + ("" if caught else r.stdout[-300:] + r.stderr[-600:])
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_WORKERS", "3"))) as ex:
        for f in cf.as_completed([ex.submit(one, b) for b in bugs]):
            b, ok, msg = f.result()
            print(("kept  " if ok else "DROPPED"), b["id"], b["prop"], msg, flush=True)
