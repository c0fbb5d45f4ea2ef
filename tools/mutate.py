"""mutate.py [--seed S] [--max N] [--per F] [--workers W] [--files PAT] [--props Pnn,..] OUT.jsonl

Mutation sampling to find gaps of the checks (development aid, not a registered command):
makes small syntactic changes in the functions that some check encodes (evidence/*.json of
the last run say which), and runs the checks of those functions, cheapest first, against a
private copy.  Survivors are either equivalent changes or behaviour no check looks at."""
import ast, json, glob, os, random, shutil, subprocess, sys, argparse, re, time
import warnings
warnings.simplefilter('ignore')
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--max", type=int, default=300)
ap.add_argument("--per", type=int, default=6)
ap.add_argument("--workers", type=int, default=3)
ap.add_argument("--files", default="")
ap.add_argument("--funcs", default="")
ap.add_argument("--props", default="")
ap.add_argument("--repo", default="/repo")
ap.add_argument("--evidence", default=os.path.join(V, "evidence"))
ap.add_argument("--list", action="store_true")
A = ap.parse_args()
REPO = A.repo
cover, wall = {}, {}
for f in glob.glob(A.evidence + "/P*.json"):
    e = json.load(open(f))
    if A.props and e["property"] not in A.props.split(","):
        continue
    wall[e["property"]] = e["wall_s"]
    for fn in e["coverage"]["functions_encoded"]:
        cover.setdefault(fn, []).append(e["property"])
SKIPF = re.compile(r"plot|CustomNavbar|mpfit\.py|deprecated|log\b")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.Pow: ast.Mult}
NAME = {"nanmin": "nanmax", "nanmax": "nanmin", "min": "max", "max": "min", "argmax": "argmin", "nansum": "sum", "nanmean": "mean", "nanmedian": "median", "real": "imag",
        "imag": "real", "floor": "ceil", "ceil": "floor", "logical_and": "logical_or", "logical_or": "logical_and", "zeros": "ones", "ones": "zeros", "sin": "cos", "cos": "sin",
        "isnan": "isfinite", "all": "any", "any": "all", "zeros_like": "ones_like", "ones_like": "zeros_like", "degrees": "radians", "radians": "degrees", "fabs": "negative", "median": "mean", "argmin": "argmax"}


def muts(src, fname):
    tree = ast.parse(src)
    out = []
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, kind, fn):
        s, e = span(n)
        out.append((fn, kind, n.lineno, b[s:e].decode(), new, s, e))

    import copy

    def visit(n, fn, skip=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            t = ast.unparse(n.func)
            if t in ("log", "print", "parser.add_argument", "argparse.ArgumentParser") or t.startswith(("plt.", "ax", "fig.", "parser.")) or "warn" in t or t.endswith("Exception") or t.endswith("Error"):
                return
        if isinstance(n, ast.If) and isinstance(n.test, (ast.Name, ast.Attribute)) and ast.unparse(n.test) in ("verbose", "debug", "args.verbose", "not verbose"):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                m = copy.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]
                rep(n, "(" + ast.unparse(m) + ")", "cmp", fn)
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                m = copy.deepcopy(n); m.op = BIN[type(n.op)]()
                rep(n, "(" + ast.unparse(m) + ")", "bin", fn)
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                rep(n, repr(n.value + 1 if isinstance(n.value, int) else n.value * 1.25 + 0.125), "const", fn)
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                rep(n, repr(not n.value), "bool", fn)
            if isinstance(n, (ast.If, ast.IfExp)):
                rep(n.test, "(not (%s))" % ast.unparse(n.test), "ifnot", fn)
            if isinstance(n, ast.BoolOp):
                for v in n.values:
                    rep(n, "(" + ast.unparse([x for x in n.values if x is not v][0]) + ")", "boolop", fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
                rep(n, "(" + ast.unparse(n.operand) + ")", "unary", fn)
            if isinstance(n, (ast.AugAssign, ast.Delete)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                rep(n, "pass", "del", fn)
            if isinstance(n, ast.Call):
                t = n.func
                if isinstance(t, ast.Attribute) and t.attr in NAME:
                    m = copy.deepcopy(n); m.func.attr = NAME[t.attr]
                    rep(n, ast.unparse(m), "name", fn)
                if ast.unparse(t) in ("np.abs", "abs", "np.fabs", "np.squeeze", "np.conj", "np.sqrt", "np.round", "round", "np.nan_to_num") and len(n.args) == 1 or ast.unparse(t) in ("np.moveaxis", "np.transpose", "np.where") and len(n.args) and False:
                    rep(n, "(" + ast.unparse(n.args[0]) + ")", "unwrap", fn)
                if isinstance(t, ast.Attribute) and t.attr in ("copy", "astype", "squeeze", "flatten", "reverse", "conjugate", "conj", "strip", "upper", "lower") and not isinstance(t.value, ast.Name) or isinstance(t, ast.Attribute) and t.attr in ("copy", "astype") and ast.unparse(t.value) not in ("np",):
                    rep(n, ast.unparse(t.value), "unmethod", fn)
                for i, k in enumerate(n.keywords):
                    if k.arg and k.arg not in ("verbose", "log", "debug"):
                        m = copy.deepcopy(n); del m.keywords[i]
                        rep(n, ast.unparse(m), "nokw", fn)
                if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred):
                    m = copy.deepcopy(n); m.args[0], m.args[1] = m.args[1], m.args[0]
                    rep(n, ast.unparse(m), "swaparg", fn)
            if isinstance(n, ast.Attribute) and n.attr in ("real", "imag"):
                rep(n, ast.unparse(n.value) + "." + NAME[n.attr], "name", fn)
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2:
                m = copy.deepcopy(n); m.slice.elts[-1], m.slice.elts[-2] = m.slice.elts[-2], m.slice.elts[-1]
                rep(n, ast.unparse(m), "swapidx", fn)
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                m = copy.deepcopy(n)
                m.slice.lower, m.slice.upper = None, None
                if ast.unparse(m) != ast.unparse(n):
                    rep(n, ast.unparse(m), "slice", fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, "")
    good = []
    for m in out:
        fn, kind, line, old, new, s, e = m
        if old.strip("() ") == new.strip("() "):
            continue
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(t, fname, "exec")
        except SyntaxError:
            continue
        good.append(dict(file=fname, func=fn, kind=kind, line=line, old=old, new=new, text=t))
    return good


rng = random.Random(A.seed)
files = sorted({k.split(":")[0] for k in cover})
allm = []
for f in files:
    if A.files and not re.search(A.files, f) or SKIPF.search(f):
        continue
    src = open(os.path.join(REPO, f), newline="").read()
    crlf = "\r\n" in src
    byf = {}
    for m in muts(src.replace("\r\n", "\n"), f):
        m["crlf"] = crlf
        q = f + ":" + m["func"]
        short = f + ":" + m["func"].split(".")[-1]
        ps = cover.get(q) or cover.get(short)
        if not ps or SKIPF.search(m["func"]) or A.funcs and not re.search(A.funcs, m["func"]):
            continue
        m["props"] = sorted(ps, key=lambda p: wall[p])
        byf.setdefault(m["func"], []).append(m)
    for k, l in byf.items():
        rng.shuffle(l)
        allm += l[:A.per]
rng.shuffle(allm)
allm = allm[:A.max]
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        r = json.loads(l)
        done.add((r["file"], r["line"], r["old"], r["new"]))
allm = [m for m in allm if (m["file"], m["line"], m["old"], m["new"]) not in done]
print(len(allm), "mutants")
if A.list:
    for m in allm:
        print(m["file"], m["func"], m["line"], m["kind"], m["old"][:60].replace("\n", " "), "->", m["new"][:60].replace("\n", " "), m["props"])
    sys.exit()


def run(k_m):
    k, m = k_m
    w = "/tmp/mut/%d.%d" % (os.getpid(), k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ("RMtools_1D", "RMtools_3D", "RMutils"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(w, d))
    for f in os.listdir(REPO):
        if os.path.isfile(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), w)
    t = m.pop("text")
    if m.pop("crlf"):
        t = t.replace("\n", "\r\n")
    open(os.path.join(w, m["file"]), "w", newline="").write(t)
    res, t0 = "survived", time.time()
    notes = []
    for p in m["props"]:
        try:
            r = subprocess.run(["./run.sh", p, "--tier", "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + "/ev"), capture_output=True, text=True, timeout=3 * wall[p] + 200)
            rc, tail = r.returncode, r.stdout[-300:]
        except subprocess.TimeoutExpired:
            rc, tail = "timeout", ""
        if rc == 1 and "VIOLATION" in r.stdout:
            res = "killed:" + p
            break
        if rc != 0:
            notes.append((p, rc, tail))
    m.update(result=res, notes=notes, s=round(time.time() - t0, 1))
    shutil.rmtree(w, ignore_errors=True)
    with open(A.out, "a") as h:
        h.write(json.dumps(m) + "\n")
    return m


with ThreadPoolExecutor(A.workers) as ex:
    r = list(ex.map(run, enumerate(allm)))
n = sum(x["result"].startswith("killed") for x in r)
print("killed", n, "survived", len(r) - n)
