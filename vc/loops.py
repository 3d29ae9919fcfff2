"""Which loop of the current source is which loop of the source the invariants were written for.

A loop invariant is bound to `function#k`, the k-th loop of the function.  loops.json records the loops
(text and nesting) of the source the proofs were made for; the loops of the current source are
aligned with them, in order, by similarity of their text, so that a loop that was added or removed elsewhere
in the function does not shift the others.  The alignment is never trusted: an invariant bound to a loop
it does not fit is not established or not preserved."""
import ast, os, json, difflib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def loops_of(tree):
    "qualified function name -> [[kind, depth, header, body]] in the order in which the loader numbers loops"
    out, qual = {}, []
    class V(ast.NodeVisitor):
        depth = 0
        def scope(s, node):
            qual.append(node.name); d, s.depth = s.depth, 0
            for x in node.body: s.visit(x)
            s.depth = d; qual.pop()
        visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = scope
        def loop(s, node, kind, head):
            if qual: out.setdefault('.'.join(qual), []).append([kind, s.depth, head, '\n'.join(ast.unparse(x) for x in node.body)])
            s.depth += 1
            for x in node.body: s.visit(x)
            s.depth -= 1
            for x in node.orelse: s.visit(x)
        def visit_For(s, node): s.loop(node, 'for', ast.unparse(node.target) + ' in ' + ast.unparse(node.iter))
        def visit_While(s, node): s.loop(node, 'while', ast.unparse(node.test))
    V().visit(tree)
    return out

def _like(a, b): return 1. if a == b else difflib.SequenceMatcher(None, a.split(), b.split(), autojunk=False).ratio()
def similarity(a, b):
    return .3 + .2 * (a[0] == b[0]) + .2 * (a[1] == b[1]) + _like(a[2], b[2]) + _like(a[3], b[3])
def align(old, new):
    "for every current loop its position in the recorded source, or None"
    if old == new or old is None: return list(range(len(new)))
    n, m = len(old), len(new)
    best = [[0.] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            best[i][j] = max(best[i + 1][j], best[i][j + 1], similarity(old[i], new[j]) + best[i + 1][j + 1])
    out, i, j = [], 0, 0
    while j < m:
        if i < n and best[i][j] == similarity(old[i], new[j]) + best[i + 1][j + 1]: out.append(i); i += 1; j += 1
        elif i < n and best[i][j] == best[i + 1][j]: i += 1
        else: out.append(None); j += 1
    return out

_REC = []
def recorded():
    if not _REC:
        p = os.path.join(HERE, 'loops.json')
        _REC.append(json.load(open(p)) if os.path.exists(p) else {})
    return _REC[0]

def numbering(tree, rel):
    "-> {function: [recorded position or None per current loop]}, sites whose loop is gone or was rebuilt"
    now, was = loops_of(tree), recorded().get(rel)
    if was is None: return {q: list(range(len(l))) for q, l in now.items()}, set()
    num, gone = {}, set()
    for q in set(now) | set(was):
        a, b = was.get(q), now.get(q, [])
        num[q] = align(a if a is not None else [], b) if a is not None or b else []
        for k in range(len(a or [])):
            if k not in num[q]: gone.add('%s#%d' % (q, k))
            else:
                c = b[num[q].index(k)]
                if c[:2] != a[k][:2]: gone.add('%s#%d' % (q, k))
    return num, gone

def record(pkg, repo):
    d = {}
    for top, _, fs in os.walk(pkg):
        if '/test' in top: continue
        for f in sorted(fs):
            if f.endswith('.py'): d[os.path.relpath(os.path.join(top, f), repo)] = loops_of(ast.parse(open(os.path.join(top, f)).read()))
    json.dump(d, open(os.path.join(HERE, 'loops.json'), 'w'), indent=0, sort_keys=True)
