#!/usr/bin/env python3
"""automutate.py OUT [FILE...]: systematic small changes to licant's sources, each in a scratch copy; those that still pass the repository's tests
are run against the checks that concern the file. OUT gets one JSON line for each: the change and which check, if any, reports it."""
import ast, fcntl, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {"solver.py": "C01 C03 C04 C02 C10", "core.py": "C10 C11 C01 C03 C04 C23 C21 C05 C09 C19", "make.py": "C06 C05 C08 C20 C19 C09 C07 C23 C12 C22",
          "cache.py": "C05 C06 C08 C20 C07 C23", "cli.py": "C11 C19 C16 C21 C23 C02", "cxx_make.py": "C22 C14 C15 C12 C18", "cxx_modules.py": "C14 C15 C13 C21 C12 C16",
          "install.py": "C18", "java_make.py": "C22", "libs.py": "C17 C16 C21", "licant_libs.py": "C17", "modules.py": "C13 C21 C16 C15", "scripter.py": "C16",
          "util.py": "C12 C15 C16 C22 C21 C11 C09 C03", "__init__.py": "C16 C11"}


def mutants(src):
    tree = ast.parse(src)
    starts = [0]
    for l in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        x, y = span(n)
        return b[x:y].decode()
    out = []

    def put(n, text, what):
        x, y = span(n)
        new = b[:x] + text.encode() + b[y:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        line = src.split("\n")[n.lineno - 1]
        if new != b and not re.search(r"trace|print\(|exit\(|__repr__|subm\(|setattr|__str__", line):
            out.append((n.lineno, what, new.decode()))
    swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "(%s %s %s)" % (seg(n.left), swap[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rest = n.values[:k] + n.values[k + 1:]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in rest) + ")", "operand dropped")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "True", "if True")
            put(n.test, "False", "if False")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "return None")
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                put(n, "return %r" % (not n.value.value), "return swapped")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not seg(n).startswith(("print(", "exit(")):
            put(n, "pass", "call dropped")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            put(n, "pass", "assignment dropped")
        elif isinstance(n, (ast.Continue, ast.Break, ast.Raise)):
            put(n, "pass", "jump dropped")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, seg(n.left), "right operand dropped")
            put(n, seg(n.right), "left operand dropped")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, repr(n.value + 1), "number")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, repr(not n.value), "bool")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    x, y = span(k)
                    text = seg(n)
                    put(n, re.sub(r",?\s*" + re.escape(b[x:y].decode()), "", text, count=1), "argument %s dropped" % k.arg)
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "str", "dict", "reversed") and len(n.args) == 1:
                put(n, seg(n.args[0]), n.func.id + " dropped")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("expanduser", "abspath", "normpath", "realpath", "canonical_path", "quote", "copy"):
                put(n, seg(n.args[0]) if n.args else seg(n.func.value), n.func.attr + " dropped")
        elif isinstance(n, (ast.Subscript,)) and isinstance(n.slice, ast.Slice):
            put(n, seg(n.value), "slice dropped")
        elif isinstance(n, ast.Try) and n.finalbody:
            pass
        elif isinstance(n, ast.JoinedStr):
            pass
        elif isinstance(n, ast.Constant) and type(n.value) is str and "{" in n.value:
            for piece in sorted(set(re.findall(r" ?[^ {}]*\{[a-z.]+\}", n.value))):
                put(n, repr(n.value.replace(piece, "", 1)), "rule without %r" % piece)
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            for k in range(len(n.elts)):
                o, c = ("[", "]") if isinstance(n, ast.List) else ("{", "}") if isinstance(n, ast.Set) else ("(", ",)")
                put(n, o + ", ".join(seg(e) for e in n.elts[:k] + n.elts[k + 1:]) + c, "element %d dropped" % k)
    return out


def work(job):
    f, line, what, text = job
    d = tempfile.mkdtemp(prefix="am-")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", os.environ.get("VP_REPO", "/repo"), r], check=True)
        p = os.path.join(r, "licant", f)
        with open(p) as h:
            old = h.read().split("\n")
        with open(p, "w") as h:
            h.write(text)
        new = text.split("\n")
        a = next((i for i, (x, y) in enumerate(zip(old, new)) if x != y), 0)
        res = {"file": f, "line": line, "what": what, "old": old[a].strip(), "new": new[a].strip() if a < len(new) else ""}
        env = dict(os.environ, PYTEST_ADDOPTS="-q -x -p no:cacheprovider --timeout=30 -o testpaths=tests", PYTHONDONTWRITEBYTECODE="1", HOME=d)
        with open("/tmp/am.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            shutil.rmtree("/tmp/licant", ignore_errors=True)
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest"], cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired:
                t = None
        if t is None or t.returncode:
            res["by"] = "tests"
            return res
        res["by"] = None
        for c in CHECKS[f].split():
            try:
                x = subprocess.run(["bash", "run.sh", c, "--no-evidence", "--shards", "1", "--examples", str(EXAMPLES.get(c, 300))], env=dict(os.environ, VP_REPO=r, VERIF_SEED="1"),
                                   cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
                rc = x.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                res["by"], res["rc"] = c, rc
                return res
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


EXAMPLES = {"C01": 800, "C02": 600, "C03": 800, "C04": 800, "C10": 700, "C11": 500, "C12": 60, "C17": 150}
if __name__ == "__main__":
    out, files = sys.argv[1], sys.argv[2:] or sorted(CHECKS)
    jobs = []
    for f in files:
        with open(os.path.join(os.environ.get("VP_REPO", "/repo"), "licant", f)) as h:
            src = h.read()
        jobs += [(f, l, w, t) for l, w, t in mutants(src)]
    random.Random(1).shuffle(jobs)
    print(len(jobs), "changes", flush=True)
    with ThreadPoolExecutor(8) as ex, open(out, "a") as o:
        for f in as_completed([ex.submit(work, j) for j in jobs]):
            r = f.result()
            o.write(json.dumps(r) + "\n")
            o.flush()
