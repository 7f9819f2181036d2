"""Which functions of the program can be reached from which, including the bodies of closures."""
from .execu import decay


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def is_rvoe(F):
    t = decay(F.tu.T(F.ret))
    return t.k == 'rec' and t.nn == 'std::expected'


def closures(F):
    """call operators of the closures created in F"""
    out = []
    for d in walk(F.body):
        if d.get('e') == 'lambda' and isinstance(d.get('t'), int):
            R = F.tu.T(d['t']).rec
            for i in (R.ops or []) if R is not None else []:
                G = F.tu.fns.get(i)
                if G is not None and G.body is not None:
                    out.append(G)
    return out


def callees(prog, F, deep=True):
    """[(program function or None, name)] called by F (closures of F included)"""
    out = []
    todo, seen = [F], set()
    while todo:
        X = todo.pop()
        if id(X) in seen:
            continue
        seen.add(id(X))
        for d in walk(X.body):
            f = d.get('f')
            if isinstance(f, dict) and 'n' in f:
                G = prog.resolve(X.tu, f)
                out.append((G if G is not None and G.body is not None else None, f['n']))
        if deep:
            todo += closures(X)
    return out


def reach(prog, roots):
    seen, todo = {}, list(roots)
    for F in roots:
        seen[id(F)] = F
    while todo:
        F = todo.pop()
        for G, n in callees(prog, F):
            if G is not None and id(G) not in seen:
                seen[id(G)] = G
                todo.append(G)
    return list(seen.values())
