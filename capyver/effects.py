"""Exception effects, inferred for every function of the program: may a C++ exception leave it?"""
from . import callgraph

SAFE = ('std::move', 'std::forward', 'std::swap', 'std::as_const')


class Throws:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def fn(self, F):
        """reason (text) why an exception may leave F, or None"""
        k = id(F)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None          # recursion: least fixed point
        r = self.node(F, F.body)
        if r is None and F.isctor:
            for i in F.inits or []:
                r = r or self.node(F, i.get('e'))
        self.memo[k] = r
        return r

    def node(self, F, n):
        if isinstance(n, list):
            for x in n:
                r = self.node(F, x)
                if r:
                    return r
            return None
        if not isinstance(n, dict):
            return None
        if n.get('e') == 'lambda':
            return self.node(F, n.get('inits'))
        if n.get('s') == 'try' or ('h' in n and 'b' in n and isinstance(n['h'], list)):
            if not any(h.get('all') for h in n['h']):
                r = self.node(F, n['b'])
                if r:
                    return r
            for h in n['h']:
                r = self.node(F, h['b'])
                if r:
                    return r
            return None
        if n.get('e') == 'throw':
            return 'throw (line %s)' % n.get('l')
        if n.get('e') == 'new':
            return 'new (line %s)' % n.get('l')
        f = n.get('f')
        if isinstance(f, dict) and 'n' in f:
            r = self.call(F, f)
            if r:
                return '%s (line %s)' % (r, n.get('l'))
        elif n.get('e') == 'call' and f is None:
            return 'call through a pointer (line %s)' % n.get('l')
        for k, x in n.items():
            if k != 'f' and isinstance(x, (dict, list)):
                r = self.node(F, x)
                if r:
                    return r
        return None

    def call(self, F, f):
        G = self.prog.resolve(F.tu, f)
        if G is not None and G.body is not None:
            r = self.fn(G)
            return '%s: %s' % (f['n'], r) if r else None
        if f.get('nothrow') or f['n'] in SAFE:
            return None
        return f['n']
