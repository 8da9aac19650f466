"""Mutation campaign (development aid, read by no check).

mutate.py list                 count of mutants per function
mutate.py run OUT [module..]   every mutant: mapped quick checks, then the
                               repository's fast tests for the survivors
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MODS = ["util", "boot_util", "mlpaper", "perf_curves", "classification", "regression", "data_splitter", "sciprint"]
MAP = {
    "boot_util": {"boot_weights": ["C08"], "*": ["C07"]},
    "classification": {
        "shape_and_validate": ["C01", "C02", "C03"], "hard_loss_decision": ["C02"], "hard_loss": ["C02"], "log_loss": ["C01"], "brier_loss": ["C01"], "spherical_loss": ["C01"],
        "loss_table": ["C03"], "check_curve": ["C14"], "curve_boot": ["C14"], "curve_summary_table": ["C14"], "summary_table": ["C17"], "fit": ["C15"], "__init__": ["C15"],
        "predict_log_proba": ["C15"], "get_pred_log_prob": ["C15", "C16"], "train_predict": ["C15", "C16"], "just_benchmark": ["C17"], "*": ["C17", "C14"],
    },
    "data_splitter": {"build_lag_df": ["C20"], "index_to_series": ["C18"], "split_df": ["C18"], "*": ["C19", "C18"]},
    "mlpaper": {
        "clip_EB": ["C09"], "t_test": ["C05"], "t_EB": ["C05"], "bernstein_test": ["C06"], "bernstein_EB": ["C06"], "_boot_EB_and_test": ["C08"], "boot_test": ["C08"], "boot_EB": ["C08"],
        "get_mean_and_EB": ["C09"], "get_test": ["C09"], "get_mean_EB_test": ["C09"], "loss_summary_table": ["C10"], "*": ["C10", "C09"],
    },
    "perf_curves": {"*": ["C11", "C12"]},
    "regression": {"get_gauss_pred": ["C15", "C16"], "train_predict": ["C15", "C16"], "fit": ["C15"], "predict": ["C15"], "__init__": ["C15"], "just_benchmark": ["C17"], "*": ["C04", "C17"]},
    "sciprint": {
        "decimalize": ["C21"], "create_decimal": ["C21", "C22"], "print_estimate": ["C22"], "print_pval": ["C22"], "get_shift_range": ["C23"], "find_shift": ["C23"], "find_last_dig": ["C24"], "pad_num_str": ["C24"],
        "format_table": ["C24", "C23", "C22"], "adjust_headers": ["C24"], "table_to_latex": ["C24"], "table_to_string": ["C24"], "just_format_it": ["C24", "C21"], "*": ["C22", "C23", "C21", "C24"],
    },
    "util": {
        "clip_chk": ["C09", "C11"], "one_hot": ["C26"], "normalize": ["C26"], "used_levels": ["C10", "C03"], "epsilon_noise": ["C26"], "cummax_strict": ["C26"],
        "*": ["C13"], "_remove_chars_py3": ["C24"], "_remove_chars_py2": ["C24"],
    },
}
NAMES = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "nanmin": "nanmax", "isfinite": "isinf",
         "argmin": "argmax", "argmax": "argmin", "ROUND_CEILING": "ROUND_HALF_UP", "ROUND_HALF_UP": "ROUND_HALF_EVEN", "ROUND_HALF_DOWN": "ROUND_HALF_UP", "ROUND_UP": "ROUND_HALF_UP", "first": "last", "left": "right", "right": "left",
         "head": "tail", "cumsum": "cumprod", "sort_values": "copy", "logical_and": "logical_or", "logical_or": "logical_and", "rstrip": "strip", "lower": "upper"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


ASSERTS = "--asserts" in sys.argv


def mutants(src):
    """(function, line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    pos = lambda ln, col: starts[ln - 1] + len(lines[ln - 1].encode()[:col].decode())  # noqa: E731
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa: E731
    text = lambda n: src[span(n)[0] : span(n)[1]]  # noqa: E731
    out = []

    def put(fn, n, new, why):
        a, b = span(n)
        s = src[:a] + new + src[b:]
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            return
        if s != src:
            out.append((fn, n.lineno, "%s: %s -> %s" % (why, " ".join(src[a:b].split())[:90], " ".join(new.split())[:90]), s))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn2 = n.name
            for c in n.body:
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                    continue
                visit(c, fn2)
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                visit(d, fn2)
            for d in n.decorator_list:
                visit(d, fn2)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(fn, n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                put(fn, n, "(%s) %s (%s)" % (text(n.left), o, text(n.right)), "arith")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            put(fn, n, "(%s)" % text(n.operand), "unary")
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                rest = [text(v) for i, v in enumerate(n.values) if i != k]
                put(fn, n, "(%s)" % ((" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % r for r in rest)), "drop term")
            put(fn, n, "(%s)" % ((" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values)), "bool")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(fn, n, str(not v), "const")
            elif isinstance(v, int):
                put(fn, n, str(v + 1), "const")
                put(fn, n, str(v - 1) if v else "(-1)", "const")
            elif isinstance(v, float):
                put(fn, n, repr(v * 0.5 if v else 1e-3), "const")
                put(fn, n, repr(v + 0.01), "const")
            elif isinstance(v, str) and v in NAMES:
                put(fn, n, repr(NAMES[v]), "name")
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            put(fn, n, "%s.%s" % (text(n.value), NAMES[n.attr]), "name")
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            put(fn, n, NAMES[n.id], "name")
        if isinstance(n, ast.IfExp):
            put(fn, n, "(%s)" % text(n.body), "if-exp")
            put(fn, n, "(%s)" % text(n.orelse), "if-exp")
        if isinstance(n, ast.If):
            put(fn, n.test, "True", "if")
            put(fn, n.test, "False", "if")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = span(n)
                    ka, kb = pos(k.value.lineno, k.value.col_offset), pos(k.value.end_lineno, k.value.end_col_offset)
                    i = src.rindex(k.arg, a, ka)
                    j = i
                    while src[j - 1] in " \n\t":
                        j -= 1
                    if src[j - 1] == ",":
                        j -= 1
                        put(fn, n, src[a:j] + src[kb:b], "drop keyword")
                    else:
                        put(fn, n, src[a:i] + src[kb:b].lstrip(", "), "drop keyword")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("astype", "copy", "strip", "sort_index", "reindex", "tolist", "ravel", "upper"):
                put(fn, n, text(n.func.value), "drop call")
            if isinstance(n.func, ast.Name) and n.func.id in ("abs", "sorted", "list", "set", "float", "int") and n.args:
                put(fn, n, "(%s)" % text(n.args[0]), "drop call")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "sort", "asarray", "array", "unique", "exp", "log") and isinstance(n.func.value, ast.Name) and n.args:
                put(fn, n, "(%s)" % text(n.args[0]), "drop call")
            if len(n.args) >= 2:
                a = [text(v) for v in n.args]
                put(fn, n, src[span(n)[0] : span(n.args[0])[0]] + ", ".join([a[1], a[0]] + a[2:]) + src[span(n.args[-1])[1] : span(n)[1]], "swap args")
        if isinstance(n, ast.Slice):
            for part in (n.lower, n.upper, n.step):
                if part is not None:
                    put(fn, part, "", "slice")
        if isinstance(n, ast.Assert) and ASSERTS:
            put(fn, n, "pass", "assert")
        if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(fn, n, "pass", "delete")
        if isinstance(n, ast.Assign) and fn != "<module>":
            put(fn, n, "pass", "delete")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Assert):
                continue
            visit(c, fn)

    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.Expr):
            continue
        visit(n, "<module>")
    return out


STABLE = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t.startswith("tests")]


def all_mutants(mods):
    for m in mods:
        src = open("/repo/mlpaper/%s.py" % m).read()
        for k, (fn, line, why, s) in enumerate(mutants(src)):
            yield m, k, fn, line, why, s


def checks(m, fn):
    t = MAP[m]
    return t.get(fn, t["*"])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def run(out, mods):
    done = set()
    if os.path.exists(out):
        done = {(r["mod"], r["why"], r["line"], r["k"]) for r in map(json.loads, open(out))}
    par = int(os.environ.get("PAR", "4"))
    q = Queue()
    dirs = []
    for _ in range(par):
        d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        sh("cp -a /repo/. %s/" % d)
        dirs.append(d)
        q.put(d)
    f = open(out, "a")

    def one(a):
        m, k, fn, line, why, s = a
        d = q.get()
        p = "%s/mlpaper/%s.py" % (d, m)
        orig = open(p).read()
        try:
            open(p, "w").write(s)
            rec = dict(mod=m, k=k, fn=fn, line=line, why=why, status="survived", by=None)
            for c in checks(m, fn):
                r = sh("timeout 850 bash %s/check.sh %s quick --workers %s" % (VERIF, c, os.environ.get("W", "2")), env=dict(os.environ, VERIF_REPO=d))
                if r.returncode == 1:
                    rec.update(status="caught", by=c)
                    break
                if r.returncode != 0:
                    rec.update(status="noanswer %d" % r.returncode, by=c)
            if rec["status"] != "caught":
                env = dict(os.environ, PYTHONNOUSERSITE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONPATH=d, PYTHONPYCACHEPREFIX=d + "/.pyc")
                r = sh("timeout 600 %s -m pytest tests -q -p no:cacheprovider -n 2 --randomly-seed=1 --randomly-dont-reorganize --disable-warnings --tb=line -o junit_family=xunit2 --junitxml=%s/tests.xml" % (PY, d), cwd=d, env=env)
                sh("/usr/bin/python3 /opt/vp/results.py %s/out.json 'junit:%s/tests.xml'" % (d, d))
                bad = [t for t in STABLE if t not in set(json.load(open(d + "/out.json"))["passed"])]
                rec["tests"] = "fail" if bad else "pass"
            return rec
        finally:
            open(p, "w").write(orig)
            q.put(d)

    todo = [a for a in all_mutants(mods) if (a[0], a[4], a[3], a[1]) not in done]
    try:
        with ThreadPoolExecutor(par) as ex:
            for rec in ex.map(one, todo):
                f.write(json.dumps(rec) + "\n")
                f.flush()
                if rec["status"] != "caught":
                    print(rec, flush=True)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == "list":
    c = {}
    for m, k, fn, line, why, s in all_mutants(sys.argv[2:] or MODS):
        c[m] = c.get(m, 0) + 1
    print(c, sum(c.values()))
else:
    run(sys.argv[2], [a for a in sys.argv[3:] if not a.startswith("-")] or MODS)
