#!/opt/venv/bin/python
"""Mutation campaign, outside /repo and /verif.

    mutate.py OUT.jsonl LANES N SEED FILE:CNN[,CNN...] ...

For each FILE (relative to the repository), N random small changes are made
one at a time in scratch copies of the repository, and the quick checks CNN
are run on the copy until one reports a violation. What survives is either
equivalent or a gap in the checks. Nothing here is run by the checks.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import queue

PY = "/opt/venv/bin/python"
ROOT = "/tmp/mut"


def seg(src, node):
    return ast.get_source_segment(src, node)


def offsets(src):
    o = [0]
    for l in src.encode().split(b"\n"):
        o.append(o[-1] + len(l) + 1)
    return o


CMP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==",
       "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
CT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==",
      ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
      ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"),
       ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "//")}


def mutants(src):
    """(start, end, replacement, description) by byte offsets"""
    b = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def pos(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def add(n, new, kind):
        s, e = pos(n)
        old = b[s:e].decode()
        if new != old:
            out.append((s, e, new, "%d: %s: %s -> %s" % (
                n.lineno, kind, old[:60], new[:60])))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                docs.update(ast.walk(d))
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def infunc(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, ast.FunctionDef):
                return True
        return False
    for n in ast.walk(tree):
        if not infunc(n) or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CT[type(n.ops[0])]
            add(n, "(%s %s %s)" % (seg(src, n.left), CMP[o],
                                   seg(src, n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s %s %s)" % (seg(src, n.left), BIN[type(n.op)][1],
                                   seg(src, n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(%s)" % o.join("(%s)" % seg(src, v) for v in n.values),
                "bool")
            add(n, "(%s)" % seg(src, n.values[0]), "bool1")
            add(n, "(%s)" % seg(src, n.values[-1]), "bool2")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                              ast.USub)):
            add(n, "(%s)" % seg(src, n.operand), "unary")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "(not (%s))" % seg(src, n.test), "if-not")
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add(n, "%r" % (n.value + 1), "const+1")
            if n.value:
                add(n, "%r" % (n.value - 1 if isinstance(n.value, int)
                               else n.value / 2), "const-1")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) \
                and not (isinstance(n, ast.Expr) and
                         isinstance(n.value, ast.Constant)):
            add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                add(n, "%s = %s" % (seg(src, n.target), seg(src, n.value)),
                    "aug")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in n.args):
            i = random.randrange(len(n.args) - 1)
            a, c = n.args[i], n.args[i + 1]
            s, e = pos(a)[0], pos(c)[1]
            mid = b[pos(a)[1]:pos(c)[0]].decode()
            if seg(src, a) != seg(src, c):
                out.append((s, e, seg(src, c) + mid + seg(src, a),
                            "%d: swap args %s" % (n.lineno,
                                                  seg(src, n)[:60])))
        elif isinstance(n, ast.Call) and n.keywords:
            pass
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ("copy", "conj", "ravel", "abs"):
            add(n, seg(src, n.func.value), "drop ." + n.func.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) \
                and len(n.slice.elts) >= 2 and len(
                    {seg(src, x) for x in n.slice.elts}) > 1:
            e = [seg(src, x) for x in n.slice.elts]
            i = random.randrange(len(e) - 1)
            e[i], e[i + 1] = e[i + 1], e[i]
            s, _ = pos(n.slice.elts[0])
            _, t = pos(n.slice.elts[-1])
            new = ", ".join(e)
            if b[s:t].decode() != new:
                out.append((s, t, new, "%d: swap index %s" % (
                    n.lineno, seg(src, n)[:60])))
    # names of the same function, one for another
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        loads = [n for n in ast.walk(f) if isinstance(n, ast.Name) and
                 isinstance(n.ctx, ast.Load) and n not in docs]
        names = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name)
                        and isinstance(n.ctx, ast.Store)} |
                       {a.arg for a in f.args.args})
        for n in loads:
            if n.id in names and len(names) > 1:
                other = random.choice([x for x in names if x != n.id])
                # similar names are likelier slips
                sim = [x for x in names if x != n.id and (
                    x[:2] == n.id[:2] or x[-2:] == n.id[-2:])]
                if sim:
                    other = random.choice(sim)
                add(n, other, "name")
    good = []
    for s, e, new, d in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        good.append((m, d))
    return good


def lane(i, q, out, lock, nproc):
    base = "%s/l%d" % (ROOT, i)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
    subprocess.check_call(["git", "clone", "-q", "/verif", base + "/verif"])
    for f in ("run.py", "vlib", "checks"):
        subprocess.check_call(["cp", "-a", "-T", "/verif/" + f,
                               base + "/verif/" + f])
    p = base + "/verif/run.py"
    s = open(p).read()
    s = s.replace('REPO = "/repo"', 'REPO = "%s/repo"' % base)
    s = s.replace("CASE_LIMIT = 150.0", "CASE_LIMIT = 110.0")
    s = s.replace("NPROC = max(1, min(8, os.cpu_count() or 1))",
                  "NPROC = %d" % nproc)
    s = s.replace("        time.sleep(0.1)\n", "        time.sleep(0.1)\n"
                  "        if violations:\n"
                  "            for j in running:\n"
                  "                j.kill()\n"
                  "            break\n")
    open(p, "w").write(s)
    p = base + "/verif/vlib/core.py"
    s = open(p).read()
    s = s.replace(", Phase.shrink)", ")")
    open(p, "w").write(s)
    while True:
        try:
            path, text, desc, props = q.get_nowait()
        except queue.Empty:
            break
        t = "%s/repo/%s" % (base, path)
        old = open(t).read()
        open(t, "w").write(text)
        r = dict(file=path, what=desc, result="SURVIVED")
        for c in props:
            pr = subprocess.run([PY, base + "/verif/run.py", c],
                                stdout=subprocess.PIPE, text=True,
                                stderr=subprocess.STDOUT)
            if pr.returncode == 1 and "VIOLATION" in pr.stdout:
                r["result"] = "caught " + c
                r["msg"] = pr.stdout[pr.stdout.find("  "):][:200]
                break
            if pr.returncode != 0:
                r["result"] = "HARNESS %s %s" % (c, pr.stdout[-600:])
                break
        open(t, "w").write(old)
        with lock:
            with open(out, "a") as f:
                f.write(json.dumps(r) + "\n")
    shutil.rmtree(base, ignore_errors=True)


def main():
    out, lanes, n, seed = sys.argv[1], *map(int, sys.argv[2:5])
    random.seed(seed)
    q = queue.Queue()
    todo = []
    for spec in sys.argv[5:]:
        path, props = spec.split(":")
        m = mutants(open("/repo/" + path).read())
        random.shuffle(m)
        print(path, len(m))
        todo += [(path, a, d, props.split(",")) for a, d in m[:n]]
    random.shuffle(todo)
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    ts = [threading.Thread(target=lane, args=(i, q, out, lock, max(
        2, 10 // lanes))) for i in range(lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
