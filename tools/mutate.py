"""Development aid: automatic mutants of the library, run against the checks.
python3 tools/mutate.py OUT.jsonl [--seed N] [--count N] [--files a.py,b.py] [--jobs N]
Every mutant is one changed operator, constant, comparison, argument or dropped statement in a scratch copy of /repo; checks anchored in
the file are tried fastest first until one reports a violation.  Survivors are listed for reading: equivalent, outside every property, or a gap."""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "micropolarray"
FILES = ["image.py", "micropol_image.py", "polarization_functions.py", "utils.py", "cameras.py", "processing/congrid.py", "processing/convert.py", "processing/demodulation.py",
         "processing/demodulation_errors.py", "processing/demosaic.py", "processing/image_cleaning.py", "processing/linear_roi.py", "processing/nrgf.py", "processing/rebin.py", "processing/shift.py"]
SKIP_FUNCS = {"bresenham", "sigmoid_old", "remove_outliers_simple", "reject_outliers", "calculate_chen_wan_lian_calibration", "demosaicadjacent_unused", "timer"}
ORDER = ("C06 C02 C01 C36 C07 C08 C05 C17 C16 C18 C22 C23 C24 C25 C26 C19 C20 C13 C44 C37 C09 C12 C32 C35 C33 C29 C38 C39 C11 C27 C28 C10 C03 C04 C21 C15 C31 C34 C14 C30 C41 C43 C45 C46 C42").split()
# checks looked at first, by function
FIRST = {
    "_init_image_from_file": "C19 C18 C42", "data": "C03 C28 C18 C41", "shift": "C09 C28", "rebin": "C07 C03", "save_as_fits": "C18 C31", "save_as_raw": "C18 C20", "__add__": "C05 C03",
    "__sub__": "C05 C03", "__mul__": "C05 C03", "__truediv__": "C05 C03", "_divide": "C05", "__init__": "C27 C04 C06 C03 C15 C42", "_initialize_internal_variables": "C03 C16", "_import_image_parameters": "C04 C03",
    "_update_data_and_Stokes": "C03 C41", "demodulate": "C16 C03", "_get_theo_Stokes_vec_components": "C02 C01", "_get_Stokes_from_demodulator": "C16", "subtract_dark": "C06 C43 C04", "correct_flat": "C06 C43 C04",
    "correct_ifov": "C25", "save_single_pol_images": "C18", "save_param_as_fits": "C18", "save_all_pol_params_as_fits": "C18", "save_demosaiced_images_as_fits": "C18", "demosaic": "C08 C03", "congrid": "C10 C03",
    "rotate": "C10 C03", "mask_occulter": "C11 C03", "shift_micropol": "C09", "clean_hot_pixels": "C24 C03", "align_keywords_and_data": "C26", "get_malus_normalization": "C36", "get_Bsun_units": "C38",
    "normalize2pi": "C23", "normalize2piarray": "C23", "convert_set": "C33 C31", "nparr_from_binary": "C33", "three_bytes_to_two_ints": "C33", "merge_rawfiles_to_fits": "C20 C31", "average_rawfiles_to_fits": "C20",
    "convert_rawfile_to_fits": "C20 C21 C31", "calculate_demodulation_tensor": "C13 C44 C35 C36 C14 C37 C32 C43", "compute_demodulation_by_chunk": "C13 C44 C32 C14", "angle_dic": "C35", "rot90": "C34", "flip": "C34",
    "_get_demodulation_tensor": "C15", "Cij": "C15", "roi_from_polar": "C11 C12", "map_polar_coordinates": "C11 C12", "nrgf": "C12", "find_occulter_position": "C29", "find_occulter_hough": "C29",
    "micropolarray_rebin": "C07", "standard_rebin": "C07", "fix_data": "C18", "_make_abs_and_create_dir": "C18 C42", "_write_fits": "C18 C31",
}
BYFILE = {"cameras.py": "C27 C11 C29", "utils.py": "C38 C23 C26 C36 C18", "processing/linear_roi.py": "C22", "processing/nrgf.py": "C12 C11 C29", "processing/image_cleaning.py": "C39 C24", "processing/demosaic.py": "C01 C08 C28",
          "processing/demodulation_errors.py": "C17", "polarization_functions.py": "C02 C23", "processing/congrid.py": "C10", "processing/rebin.py": "C07"}
ANCHORS = {}
for _l in open(os.path.join(HERE, "properties.jsonl")):
    _p = json.loads(_l)
    ANCHORS[_p["id"]] = [f.replace("micropolarray/", "") for f in _p["anchors"]["files"]]
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(tree):
    """(node path description, function making the change) for every place."""
    res = []
    func = []

    def visit(n):
        f = isinstance(n, (ast.FunctionDef,))
        if f:
            if n.name in SKIP_FUNCS or n.name.startswith("show") or "DEBUG" in n.name:
                return
            func.append(n.name)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id in ("DEBUG", "show", "show_hist", "correct_ifov"):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "info", "warning", "error", "debug"):
            return
        if isinstance(n, ast.Raise) or isinstance(n, ast.arguments):
            pass
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            res.append((n, "binop"))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            res.append((n, "cmp"))
        if isinstance(n, ast.BoolOp):
            res.append((n, "bool"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            res.append((n, "unary"))
        if isinstance(n, ast.Constant) and func and type(n.value) in (int, float, bool):
            res.append((n, "const"))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and func:
            res.append((n, "drop"))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and func:
            res.append((n, "drop"))
        if isinstance(n, ast.AugAssign):
            res.append((n, "aug"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",) and not n.args:
            res.append((n, "nocopy"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "array" and n.args:
            res.append((n, "asarray"))
        if isinstance(n, ast.Call) and n.keywords and func:
            res.append((n, "dropkw"))
        if isinstance(n, ast.If) and func:
            res.append((n, "iftrue"))
            res.append((n, "iffalse"))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and c is n.body[0] and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            visit(c)
        if f:
            func.pop()
    visit(tree)
    return res


def mutate(src, k, r):
    tree = ast.parse(src)
    n, kind = sites(tree)[k]
    line = n.lineno
    old = ast.get_source_segment(src, n)
    if kind == "binop":
        n.op = BIN[type(n.op)]()
    elif kind == "cmp":
        n.ops = [CMP[type(n.ops[0])]()]
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not()
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(op=ast.Not(), operand=n.operand)
    elif kind == "const":
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if r.random() < 0.5 or v == 0 else v - 1
    elif kind == "drop":
        for p in ast.walk(tree):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    elif kind == "aug":
        n.op = BIN.get(type(n.op), ast.Add)()
    elif kind == "nocopy":
        for p in ast.walk(tree):
            for fld, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, fld, n.func.value)
                elif isinstance(v, list) and n in v:
                    v[v.index(n)] = n.func.value
    elif kind == "asarray":
        n.func.attr = "asarray"
    elif kind == "dropkw":
        n.keywords.pop(r.randrange(len(n.keywords)))
    elif kind in ("iftrue", "iffalse"):
        n.test = ast.copy_location(ast.Constant(kind == "iftrue"), n.test)
    ast.fix_missing_locations(tree)
    # change only the statement concerned, so that line numbers and everything else stay
    fn = ""
    for p in ast.walk(ast.parse(src)):
        if isinstance(p, ast.FunctionDef) and p.lineno <= line <= p.end_lineno:
            fn = p.name
    return ast.unparse(tree), f"{kind} line {line}: {(old or '')[:150]}", fn


def one(job):
    i, rel, k, seed, workers, limit = job
    r = random.Random(seed * 100003 + i)
    with tempfile.TemporaryDirectory(prefix="mcmut.") as tmp:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
        p = os.path.join(repo, PKG, rel)
        src = open(p).read()
        new, what, fn = mutate(src, k, r)
        if new == ast.unparse(ast.parse(src)):
            return None
        open(p, "w").write(new)
        res = dict(i=i, file=rel, k=k, what=what, fn=fn, caught=None)
        env = dict(os.environ, MC_REPO=repo, MC_WORKERS=str(workers), MC_EVIDENCE=os.path.join(tmp, "ev"))
        t = subprocess.run(["/opt/venv/bin/python", "-c", "import micropolarray"], cwd=repo, env=dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if t.returncode:
            return dict(res, caught="import")
        first = FIRST.get(fn, "").split() + BYFILE.get(rel, "").split()
        order = list(dict.fromkeys(first + [c for c in ORDER if rel in ANCHORS[c]]))
        if limit:
            order = order[:max(limit, len(FIRST.get(fn, "").split()))]
        res["tried"] = order
        for c in order:
            try:
                q = subprocess.run(["bash", os.path.join(HERE, "check.sh"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(res, caught=c + " timeout")
            if q.returncode:
                v = [l for l in q.stdout.splitlines() if l.startswith("  ")]
                return dict(res, caught=c, rc=q.returncode, msg=(v[-1] if v else "")[:200])
        return res


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--count", type=int, default=100)
    a.add_argument("--files", default=",".join(FILES))
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--limit", type=int, default=0, help="checks tried per mutant, 0 for all of the file")
    a.add_argument("--workers", type=int, default=2)
    a = a.parse_args()
    r = random.Random(a.seed)
    every = []
    for rel in a.files.split(","):
        src = open(f"/repo/{PKG}/{rel}").read()
        n = len(sites(ast.parse(src)))
        print(rel, n)
        every += [(rel, k) for k in range(n)]
    r.shuffle(every)
    jobs = [(i, rel, k, a.seed, a.workers, a.limit) for i, (rel, k) in enumerate(every[:a.count])]
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as f:
        for t in cf.as_completed([ex.submit(one, j) for j in jobs]):
            res = t.result()
            if res:
                f.write(json.dumps(res) + "\n")
                f.flush()


main()
