"""Random mutation of the code under test, to find what the checks do not see.

mutate.py N SEED [FILE-SUBSTRING ...]: N random mutants, each judged by the quick checks
of its file (VERIF_FAST).  Results are appended to /tmp/w/mut.jsonl.  Works in /tmp/mut (a copy of /repo).
"""
import ast
import json
import os
import random
import subprocess
import sys
import time

W = "/tmp/mut/%d" % os.getpid()
MAP = {
    "taskgraph/task_graph.py": "C01 C02 C04 C29 C03",
    "taskgraph/mittask.py": "C01 C29",
    "taskgraph/mitres.py": "C05 C29 C03 C06",
    "taskgraph/mitex.py": "C06 C29 C03",
    "taskgraph/utils.py": "C08 C06 C07 C03",
    "taskgraph/measurement_reduction.py": "C07 C03",
    "zne.py": "C09 C10 C11 C03",
    "noise_model/noise_model.py": "C12 C14 C28",
    "noise_model/qermit_pauli.py": "C13 C14 C17",
    "pauli_error_transpile.py": "C14 C27",
    "noisy_aer_backend.py": "C27",
    "transpiler_backend.py": "C27",
    "mock_quantinuum_backend.py": "C27",
    "box_clifford_subcircuits.py": "C15 C17",
    "monochromatic_convex_subdag.py": "C16 C15",
    "pauli_sampler.py": "C17 C28",
    "coherent_pauli_checks_mitres.py": "C17 C15",
    "postselection/": "C18 C17 C19",
    "leakage_detection.py": "C19 C03",
    "spam/": "C20 C03",
    "frame_randomisation.py": "C21 C03",
    "ccl.py": "C22",
    "cdr_post.py": "C22",
    "dfsc.py": "C23 C03",
    "pec_learning_based.py": "C24",
    "cliff_circuit_gen.py": "C26 C24",
    "spectral_filtering/": "C25 C03",
}
SKIPFN = ("plot", "get_task_graph", "__str__", "__repr__", "draw", "_show", "counts_to_dict")


def seg(src, n):
    return ast.get_source_segment(src, n)


CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*", ast.MatMult: "*", ast.BitXor: "|"}


def candidates(src):
    """(node, replacement text, kind)"""
    tree = ast.parse(src)
    out = []

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(s in n.name for s in SKIPFN):
                return
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, True)
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for b in body:
                visit(b, True)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.body:
                visit(b, False)
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, infn)
            return
        if infn:
            own(n)
        for c in ast.iter_child_nodes(n):
            visit(c, infn)

    def own(n):
        S = lambda x: "(" + seg(src, x) + ")"
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((n, "%s %s %s" % (S(n.left), CMP[type(n.ops[0])], S(n.comparators[0])), "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((n, "(%s %s %s)" % (S(n.left), BIN[type(n.op)], S(n.right)), "bin"))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.Add)):
                out.append((n, "(%s %s %s)" % (S(n.right), seg(src, n)[len(seg(src, n.left)):-len(seg(src, n.right))].strip(" ()\n") or "+", S(n.left)), "swap"))
                out.append((n, S(n.left), "left"))
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            out.append((n, "(" + w.join(S(v) for v in n.values) + ")", "bool"))
            out.append((n, S(n.values[0]), "bool1"))
            out.append((n, S(n.values[-1]), "bool2"))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, str(not n.value), "const"))
            elif isinstance(n.value, (int, float)):
                out.append((n, str(n.value + 1), "const"))
                if n.value:
                    out.append((n, str(n.value - 1), "const"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            out.append((t, "not (%s)" % seg(src, t), "neg"))
            out.append((t, "True", "true"))
            out.append((t, "False", "false"))
            if isinstance(n, ast.If) and n.orelse == []:
                pass
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, "pass", "del"))
        elif isinstance(n, ast.AugAssign):
            out.append((n, "pass", "del"))
            out.append((n, "%s = %s" % (seg(src, n.target), seg(src, n.value)), "noaug"))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((n, "pass", "del"))
        elif isinstance(n, ast.UnaryOp):
            out.append((n, S(n.operand), "unary"))
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                out.append((i, "True", "filter"))
                out.append((i, "not (%s)" % seg(src, i), "filter"))
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in ("copy",) and isinstance(f, ast.Attribute) and not n.args:
                out.append((n, seg(src, f.value), "nocopy"))
            if name in ("copy", "deepcopy", "reversed", "sorted", "list", "set", "abs", "ceil", "floor", "int", "float", "round", "conj", "conjugate", "dagger", "transpose", "tuple", "dict", "sum", "max", "min") and len(n.args) >= 1:
                out.append((n, S(n.args[0]), "unwrap"))
            if name in ("max", "min", "any", "all", "ceil", "floor"):
                o = {"max": "min", "min": "max", "any": "all", "all": "any", "ceil": "floor", "floor": "ceil"}[name]
                out.append((f, seg(src, f)[: -len(name)] + o, "minmax"))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a = [seg(src, x) for x in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    out.append((n, seg(src, f) + "(" + ", ".join(a + [(k.arg + "=" if k.arg else "**") + seg(src, k.value) for k in n.keywords]) + ")", "args"))
            for k in n.keywords:
                if k.arg and not k.arg.startswith("_n_") and k.arg not in ("_label", "_method"):
                    out.append((n, seg(src, f) + "(" + ", ".join([seg(src, a) for a in n.args] + [(x.arg + "=" if x.arg else "**") + seg(src, x.value) for x in n.keywords if x is not k]) + ")", "kw"))
            if name in ("append", "extend", "update", "add") and isinstance(f, ast.Attribute):
                pass
        if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((n, "pass", "delassign"))
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
            out.append((n.iter, "list(%s)[:-1]" % seg(src, n.iter), "loop"))
            out.append((n.iter, "list(%s)[1:]" % seg(src, n.iter), "loop"))
            out.append((n.iter, "list(%s)[::-1]" % seg(src, n.iter), "loop"))
        elif isinstance(n, ast.For):
            out.append((n.iter, "list(%s)[:-1]" % seg(src, n.iter), "loop"))
            out.append((n.iter, "list(%s)[::-1]" % seg(src, n.iter), "loop"))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            it = n.generators[0].iter
            out.append((it, "list(%s)[::-1]" % seg(src, it), "loop"))
            out.append((it, "list(%s)[:-1]" % seg(src, it), "loop"))

    visit(tree, False)
    return out


def apply(src, node, text):
    lines = src.split("\n")
    # ast columns are utf8 offsets; the sources are ascii at these places
    a = sum(len(l) + 1 for l in lines[: node.lineno - 1]) + node.col_offset
    b = sum(len(l) + 1 for l in lines[: node.end_lineno - 1]) + node.end_col_offset
    return src[:a] + text + src[b:]


def main():
    n, seed, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run("rm -rf %s; mkdir -p %s; git -C /repo archive HEAD | tar x -C %s" % (W, W, W), shell=True, check=True)
    al = []
    for dp, _, fs in os.walk(W + "/qermit"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(dp, f), W)
            if not f.endswith(".py") or f in ("__init__.py", "graphviz.py") or subs and not any(s in p for s in subs):
                continue
            chk = [v for k, v in MAP.items() if k in p]
            if not chk:
                print("unmapped", p)
                continue
            src = open(os.path.join(W, p)).read()
            for node, text, kind in candidates(src):
                new = apply(src, node, text)
                try:
                    compile(new, p, "exec")
                except SyntaxError:
                    continue
                al.append((p, node, text, kind, chk[0].split()))
    al.sort(key=lambda t: (t[0], t[1].lineno, t[1].col_offset, t[3], t[2]))
    print(len(al), "candidates", flush=True)
    random.Random(seed).shuffle(al)
    for p, node, text, kind, chk in al[:n]:
        full = os.path.join(W, p)
        src = open(full).read()
        new = apply(src, node, text)
        rec = {"file": p, "line": node.lineno, "kind": kind, "old": (ast.get_source_segment(src, node) or "")[:200], "new": text[:200]}
        try:
            open(full, "w").write(new)
            env = dict(os.environ, VERIF_REPO=W, VERIF_FAST="1", VERIF_SEED="1")
            rec["res"] = "survived"
            for c in chk:
                t = time.time()
                try:
                    r = subprocess.run(["./run.sh", c, "quick"], cwd=os.environ.get("MUT_VERIF", "/verif"), env=env, capture_output=True, text=True, timeout=300)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    rec["res"] = "%s rc=%s %.0fs" % (c, rc, time.time() - t)
                    break
        finally:
            open(full, "w").write(src)
        with open("/tmp/w/mut.jsonl", "a") as f:
            f.write(json.dumps(rec) + "\n")
    subprocess.run(["rm", "-rf", W])


main()
