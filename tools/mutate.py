"""Helper used by hand: systematic mutation of the code under test, to find behaviour that no check looks at.

mutate.py OUT.jsonl WORKERS N_PER_FILE SEED [file-substring ...]   draws mutants (operators, constants, conditions, deleted statements, swapped
functions) of every source file, runs the checks responsible for that file against each one in a scratch copy, and, for the survivors,
the repository's tests.  One line per mutant: killed by which check, by the tests, or survived (with the diff, to be read by a person:
equivalent mutant, unclaimed behaviour, or a gap in a check)."""
import ast, concurrent.futures as cf, difflib, json, os, random, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
R, B, C, M, G, K = "rainbow/simulators/prox_rigid_bodies/", "rainbow/simulators/prox_soft_bodies/", "rainbow/simulators/proximal_contact/", "rainbow/math/", "rainbow/geometry/", "rainbow/simulators/inverse_kinematics/"
WHO = {G + "aabb.py": "15 16", G + "barycentric.py": "10 12", G + "grid3.py": "11 12", G + "kdop.py": "14", G + "kdop_bvh.py": "14", G + "mean_curvature.py": "13",
       G + "spatial_hashing.py": "16", G + "surface_mesh.py": "17 18", G + "tetrahedron.py": "20", G + "volume_mesh.py": "19", M + "angle.py": "02", M + "coordsys.py": "04",
       M + "euler.py": "02", M + "expmap.py": "06 02", M + "functions.py": "09", M + "matrix3.py": "05 09 02 01", M + "polynomial.py": "07", M + "quaternion.py": "01 02 03 08",
       M + "vector3.py": "05 08 09", K + "api.py": "39 38", K + "types.py": "39 38", R + "api.py": "22 23 24 21 27", R + "collision_detection.py": "25",
       R + "constraints/contacts.py": "26 24", R + "constraints/hinges.py": "27", R + "constraints/post_stabilization.py": "28", R + "constraints/problem.py": "26 27",
       R + "gauss_seidel_solver.py": "26 27", R + "mass.py": "21", R + "prox_operators.py": "26 29", R + "state_storage.py": "23 24", R + "steppers.py": "24 27 28",
       R + "types.py": "22 23 25", B + "api.py": "37 34 33 35", B + "collision_detection.py": "35", B + "mechanics.py": "32", B + "solver.py": "33 34 36 35", B + "types.py": "37 35 33",
       C + "blocking.py": "31", C + "gauss_seidel_solver.py": "30", C + "jacobi_solver.py": "30", C + "prox_solvers.py": "30", C + "proximal_operators.py": "29", C + "solver_interface.py": "30 26",
       R + "scenes/read_urdf.py": "44", R + "scenes/write_xml.py": "43", "rainbow/util/USD.py": "41", "rainbow/util/heap.py": "40", "rainbow/util/parse_string.py": "08",
       "rainbow/util/test_tools.py": "40", "rainbow/util/timer.py": "40"}
for s in "arch box_stack chainmail colosseum cube_hinge_chain dome funnel gear_train glasses ground jack_lattice lattice pantheon pillar poles rock_slide sandbox temple tower scene".split():
    WHO[R + f"scenes/create_{s}.py"] = "42"
SWAP = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "minimum": "maximum", "maximum": "minimum", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any",
        "zeros": "ones", "ones": "zeros", "argmin": "argmax", "argmax": "argmin", "arctan2": "hypot", "hstack": "vstack", "vstack": "hstack", "transpose": "array", "append": "index", "add": "discard"}
CMP = {"Lt": ["<=", ">"], "LtE": ["<", ">="], "Gt": [">=", "<"], "GtE": [">", "<="], "Eq": ["!="], "NotEq": ["=="], "Is": ["is not"], "IsNot": ["is"], "In": ["not in"], "NotIn": ["in"]}
BIN = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "FloorDiv": "/", "Mod": "*", "Pow": "*"}


def sites(src):
    """(start, end, replacement) byte edits"""
    b = src.encode()
    line = [0]
    for l in b.split(b"\n"):
        line.append(line[-1] + len(l) + 1)
    at = lambda n: (line[n.lineno - 1] + n.col_offset, line[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*at(n))].decode()
    out = []

    def boring(n):
        t = text(n)
        return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or t.startswith(("logger", "print", "logging"))) or isinstance(n, ast.Raise) \
            or isinstance(n, ast.Assign) and t.startswith("logger")

    def between(a, c, word):
        s, e = at(a)[1], at(c)[0]
        mid = b[s:e].decode()
        return s, e, mid, word

    def visit(n):
        if isinstance(n, ast.stmt) and boring(n):
            return
        if isinstance(n, ast.If) and "__name__" in text(n.test):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e, mid, _ = between(n.left, n.comparators[0], "")
            par = ("(" in mid) or (")" in mid)
            if not par:
                for w in CMP[type(n.ops[0]).__name__]:
                    out.append((s, e, f" {w} "))
        if isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            s, e, mid, _ = between(n.left, n.right, "")
            sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**"}[type(n.op).__name__]
            if mid.count(sym) == 1:
                out.append((s, e, mid.replace(sym, BIN[type(n.op).__name__])))
        if isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, (str, bytes)):
            v = n.value
            if isinstance(v, bool):
                out.append((*at(n), str(not v)))
            elif isinstance(v, int):
                out.extend([(*at(n), str(v + 1))] + ([(*at(n), str(v - 1))] if v > 0 else []))
            elif isinstance(v, float):
                out.append((*at(n), repr(v * 1.5 if v else 0.5)))
        if isinstance(n, ast.BoolOp):
            s, e, mid, _ = between(n.values[0], n.values[1], "")
            w = "and" if isinstance(n.op, ast.And) else "or"
            if mid.count(w) == 1:
                out.append((s, e, mid.replace(w, "or" if w == "and" else "and")))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
            out.append((*at(n), "(" + text(n.operand) + ")"))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                out.append((*at(n.test), "True"))
            out.append((*at(n.test), "False"))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not isinstance(getattr(n, "targets", [None])[0], (ast.Name, ast.Tuple)):
            out.append((*at(n), "pass"))
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if name in SWAP:
                e = at(n.func)[1]
                out.append((e - len(name), e, SWAP[name]))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and text(n.args[0]) != text(n.args[1]):
                out.append((at(n.args[0])[0], at(n.args[1])[1], text(n.args[1]) + b[at(n.args[0])[1]:at(n.args[1])[0]].decode() + text(n.args[0])))
            if name in ("copy", "abs", "fabs", "unit", "clip") and len(n.args) <= 1:
                out.append((*at(n), text(n.args[0]) if n.args else text(n.func.value)))
        if isinstance(n, ast.arguments):
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and c in getattr(n, "decorator_list", []):
                continue
            if isinstance(n, ast.FunctionDef) and c is n.returns:
                continue
            visit(c)
    tree = ast.parse(src)
    for n in tree.body:
        visit(n)
    good = []
    for s, e, r in out:
        new = (b[:s] + r.encode() + b[e:]).decode()
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                good.append(new)
        except SyntaxError:
            pass
    return good


def one(job):
    f, src, new = job
    diff = "\n".join(l for l in difflib.unified_diff(src.splitlines(), new.splitlines(), lineterm="", n=1))[:1500]
    top = tempfile.mkdtemp(dir="/tmp/bugs", prefix="mut.")
    try:
        repo = top + "/repo"
        os.makedirs(repo)
        for x in os.listdir("/repo"):
            if x == "rainbow":
                shutil.copytree("/repo/rainbow", repo + "/rainbow", ignore=shutil.ignore_patterns("__pycache__"))
            elif x != ".git":
                os.symlink("/repo/" + x, repo + "/" + x)
        with open(repo + "/" + f, "w") as h:
            h.write(new)
        verdict = "survived"
        for c in WHO[f].split():
            env = dict(os.environ, RAINBOW_REPO=repo, VERIF_PROCS=os.environ.get("MUT_PROCS", "2"), VERIF_SHRINK_SECONDS="0", VERIF_CASE_SECONDS="60", VERIF_SEED="1", NUMBA_NUM_THREADS="2")
            try:
                p = subprocess.run(["bash", "/verif/run.sh", "C" + c], capture_output=True, text=True, env=env, timeout=800)
            except subprocess.TimeoutExpired:
                verdict = "timeout C" + c
                break
            if p.returncode == 1:
                verdict = "killed C" + c
                break
            if p.returncode != 0:
                verdict = "harness C" + c + " " + p.stderr[-300:]
                break
        if verdict == "survived":
            env = dict(os.environ, PYTHONPATH="/opt/vp/pyplugin:" + repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_CACHE_DIR=top + "/numba")
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            os.unlink(repo + "/unit_tests")
            shutil.copytree("/repo/unit_tests", repo + "/unit_tests", ignore=shutil.ignore_patterns("__pycache__"))
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--rootdir=" + repo, "--timeout=300", "--continue-on-collection-errors",
                            "-o", "junit_family=xunit2", "--junitxml=" + top + "/junit.xml", "unit_tests"], cwd=repo, env=env, capture_output=True)
            import xml.etree.ElementTree as ET
            good = {"::".join([k.get("classname"), k.get("name")]) for k in ET.parse(top + "/junit.xml").getroot().iter("testcase") if k.find("failure") is None and k.find("error") is None}
            if stable - good:
                verdict = "tests only"
        return dict(file=f, verdict=verdict, diff=diff)
    except Exception as e:
        return dict(file=f, verdict="error " + repr(e), diff=diff)
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    outfile, workers, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    jobs = []
    for f in sorted(WHO):
        if len(sys.argv) > 5 and not any(x in f for x in sys.argv[5:]):
            continue
        src = open("/repo/" + f).read()
        ms = sorted(set(sites(src)))
        random.Random(seed).shuffle(ms)
        jobs += [(f, src, m) for m in ms[:n]]
        print(len(ms), f, flush=True)
    random.Random(seed).shuffle(jobs)
    with cf.ThreadPoolExecutor(workers) as ex, open(outfile, "a") as o:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
