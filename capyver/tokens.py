"""Token readers over ropes: a small PDF lexer plus two grammars (object text, page content).

A reader state is a pair (lexer state, grammar state); `feed` advances a set of reader states over the pieces of a rope and
`summary` is what the loop abstraction of the verifier keeps of a text that a loop extends."""
import re
from .engine import Unsupported, State
from .values import *

BAD = ('bad',)
WS = b'\0\t\n\f\r '
DELIM = b'()<>[]{}/%'
NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)$')


class Grammar:
    def start(self):
        raise NotImplementedError

    def token(self, g, kind, text):
        """-> new state or BAD"""
        raise NotImplementedError

    def shape(self, g):
        """states of equal shape are merged where branches meet"""
        return g

    def union(self, g, h):
        return g

    def join(self, g, h):
        """state after text with effect h (read from start()) has been read in state g"""
        raise NotImplementedError


def bad(why):
    return ('bad', why)


def isbad(q):
    return q[0] == 'bad'


class TokDom:
    def __init__(self, E, grammar, classify=None):
        self.E = E
        self.g = grammar
        self.classify = classify or (lambda x: None)

    def start(self):
        return ('b', self.g.start())

    # ------------------------------------------------------------ lexer; q = (lex, g) or ('bad', why)
    def tok(self, g, kind, text=None):
        r = self.g.token(g, kind, text)
        return r

    def flush(self, q):
        """end of a pending token -> (lex 'b', g) or bad"""
        lex, g = q
        if lex == 'b':
            return q
        k = lex[0]
        if k == 'n':
            if not lex[1]:
                return bad('empty name')
            r = self.tok(g, '/', lex[2])
        elif k == 'num':
            r = self.tok(g, 'i' if lex[1] else 'n', None)
        elif k == 'V':
            r = self.tok(g, lex[1], None)
        elif k == 'w':
            t = lex[1]
            if NUM.match(t):
                r = self.tok(g, 'i' if t.isdigit() else 'n', t)
            elif t[0] in '+-.0123456789':
                return bad('malformed number ' + t)
            else:
                r = self.tok(g, 'kw', t)
        elif k == 'gt' or k == 'lt':
            return bad('stray angle bracket')
        elif k == 'c':
            return ('b', g)
        else:
            return bad('unterminated string')
        return r if isbad(r) else ('b', r)

    def char(self, q, c):
        if isbad(q):
            return q
        lex, g = q
        k = lex if lex == 'b' else lex[0]
        ch = bytes([c])
        if k == 'hx':
            return bad('bare hexadecimal digits')
        if k == 's':
            _, d, esc = lex
            if esc:
                return (('s', d, False), g)
            if ch == b'\\':
                return (('s', d, True), g)
            if ch == b'(':
                return (('s', d + 1, False), g)
            if ch == b')':
                if d == 1:
                    r = self.tok(g, 's')
                    return r if isbad(r) else ('b', r)
                return (('s', d - 1, False), g)
            return q
        if k == 'h':
            if ch == b'>':
                r = self.tok(g, 's')
                return r if isbad(r) else ('b', r)
            if c in WS or chr(c) in '0123456789abcdefABCDEF':
                return q
            return bad('bad character in a hexadecimal string')
        if k == 'c':
            return ('b', g) if ch in (b'\n', b'\r') else q
        if k == 'lt':
            if ch == b'<':
                r = self.tok(g, '<<')
                return r if isbad(r) else ('b', r)
            return self.char((('h',), g), c)
        if k == 'gt':
            if ch == b'>':
                r = self.tok(g, '>>')
                return r if isbad(r) else ('b', r)
            return bad('stray >')
        if c in WS or c in DELIM:
            q = self.flush(q)
            if isbad(q) or c in WS:
                return q
            g = q[1]
            if ch == b'(':
                return (('s', 1, False), g)
            if ch == b'<':
                return (('lt',), g)
            if ch == b'>':
                return (('gt',), g)
            if ch in (b'[', b']'):
                r = self.tok(g, ch.decode())
                return r if isbad(r) else ('b', r)
            if ch == b'/':
                return (('n', False, ''), g)
            if ch == b'%':
                return (('c',), g)
            return bad('stray delimiter ' + ch.decode('latin1'))
        if k == 'n':
            if c < 33 or c > 126:
                return bad('unescaped byte in a name')
            return (('n', True, None if lex[2] is None else lex[2] + chr(c)), g)
        if k == 'num':
            if ch.isdigit() and lex[1] != 'partial':
                return q if lex[1] else bad('digits after a number')
            return bad('text after a number')
        if k == 'V':
            return bad('text directly after a value')
        if k == 'w':
            return (('w', lex[1] + chr(c)), g) if len(lex[1]) < 40 else bad('overlong token')
        return (('w', chr(c)), g)

    def number(self, q, isint):
        lex, g = q
        if lex == 'b':
            return (('num', isint), g)
        if lex[0] == 'n':
            return (('n', True, None), g)
        if lex[0] == 'w' and lex[1] in ('-', '+'):
            return (('num', False), g)
        if lex[0] == 's':
            return q
        return bad('a number is joined to the text before it')

    def value(self, q, kind):
        """a complete self contained item: 's' 'obj' '/' 'n' 'i' 'v'"""
        lex, g = q
        if kind == 'namebody':
            if lex == 'b' or lex[0] != 'n':
                return bad('name text outside of a name')
            return (('n', True, None), g)
        if kind == 'namebody0':
            # possibly empty
            if lex == 'b' or lex[0] != 'n':
                return bad('name text outside of a name')
            return (('n', lex[1], None), g)
        if kind.startswith('pairs:'):
            # zero or more complete dictionary entries with keys among the named ones
            if lex != 'b':
                q = self.flush(q)
                if isbad(q):
                    return q
                lex, g = q
            r = self.g.pairs(g, kind[6:].split(','))
            return r if isbad(r) else ('b', r)
        if kind == 'strbody':
            return q if lex != 'b' and lex[0] == 's' and not lex[2] else bad('string text outside of a string')
        if lex != 'b':
            if kind in ('s', '/', 'obj!'):
                q = self.flush(q)
                if isbad(q):
                    return q
                lex, g = q
            else:
                return bad('a value is joined to the text before it')
        if kind == '/':
            return (('n', True, None), g)
        if kind in ('s', 'obj!'):
            r = self.tok(g, 's' if kind == 's' else 'v')
            return r if isbad(r) else ('b', r)
        if kind == 'i':
            return (('num', True), g)
        if kind == 'n':
            return (('num', False), g)
        return (('V', 'v'), g)

    # ------------------------------------------------------------ ropes; a world is (st, q)
    def piece(self, w, x):
        E = self.E
        st, q = w
        if isbad(q):
            return [w]
        if isinstance(x, bytes):
            for c in x:
                q = self.char(q, c)
                if isbad(q):
                    q = ('bad', q[1] + ' at ' + repr(x[:60]))
                    break
            return [(st, q)]
        k = x[0]
        if k == 'choice':
            d = E.decide3(st, x[1])
            out = []
            for val, br in ((True, x[2]), (False, x[3])):
                if d is not None and d is not val:
                    continue
                s2 = st
                if d is None:
                    s2 = st.copy()
                    s2.pc.append(zbool(x[1]) if val else zbool(znot(x[1])))
                out += self.feed([(s2, q)], br)
            return self.dedup(out, st) if d is None else out
        if k == 'fmt':
            _, kind, spec, v = x
            if kind == 'd':
                if not re.fullmatch(r'(\.\d+)?f', spec):
                    return [(st, bad('a number is not written in fixed-point notation'))]
                return [(st, self.number(q, False))]
            if kind in ('i', 'u'):
                if q[0] == ('lt',):
                    q = (('h',), q[1])
                    w = (st, q)
                if q[0] == 'b' and re.fullmatch(r'0?\d*[xX]', spec):
                    return [(st, (('hx',), q[1]))]
                if q[0] == ('hx',):
                    return [w] if re.fullmatch(r'0?\d*[xX]', spec) else [(st, bad('not hexadecimal'))]
                if q[0] != 'b' and q[0][0] == 'h':
                    return [w] if re.fullmatch(r'0?\d*[xX]', spec) else [(st, bad('not hexadecimal'))]
                if not re.fullmatch(r'0?\d*d?', spec):
                    return [(st, bad('number format ' + spec))]
                nonneg = kind == 'u'
                if not nonneg:
                    sgn = E.decide3(st, v >= 0) if is_z3(v) else v >= 0
                    nonneg = sgn is not False
                return [(st, self.number(q, nonneg))]
            if kind == 'b':
                return [(st, self.value(q, 'v'))]
            c = self.classify(x)
            if c is None:
                return [(st, bad('formatted value of unknown form %s' % (kind,)))]
            return [(st, self.value(q, c))]
        if k == 'abs':
            out = []
            for h in x[2]:
                out.append((st, self.join(q, h)))
            return out
        if k == 'ch':
            c = self.classify(x)
            if c is None and q[0] != 'b' and q[0][0] == 'h':
                return [(st, bad('unknown byte in a hexadecimal string'))]
            if c is None:
                return [(st, bad('raw data byte'))]
            return [(st, self.cls(q, c))]
        if k == 'in' and x[1] in E.seltab and x[2] == 0:
            out = set()
            for t in E.seltab[x[1]]:
                r = q
                for c in t:
                    r = self.char(r, c)
                    if isbad(r):
                        break
                if not isbad(r) and r[0] != 'b' and r[0][0] == 'n':
                    r = (('n', r[0][1], None), r[1])
                out.add(r)
            return [(st, r) for r in out]
        c = x[1] if k == 'cls' else self.classify(x)
        if c is None:
            if simp(tobv(E.piece_len(x), 64) == 0) is True:
                return [w]
            return [(st, bad('unescaped application data %s' % (x[1],)))]
        return [(st, self.cls(q, c))]

    def cls(self, q, c):
        if c == 'ws':
            # possibly empty run of blanks: both readings
            if q[0] == 'b' or q[0][0] in ('s', 'h', 'c'):
                return q
            return bad('optional blanks directly after a token')
        if c == 'any':
            return q if q[0] != 'b' and q[0][0] == 'c' else bad('arbitrary bytes')
        return self.value(q, c)

    def dedup(self, ws, st):
        seen = {}
        for s, q in ws:
            k = q if isbad(q) else (q[0], self.g.shape(q[1]))
            if k in seen:
                o = seen[k][1]
                seen[k] = (st, o if o == q else (q[0], self.g.union(o[1], q[1])))       # both branches agree: the condition does not matter
            else:
                seen[k] = (s, q)
        return list(seen.values())

    def join(self, q, h):
        if isbad(h):
            return h
        if h[0] == ('hx',) and h[1] == self.start()[1]:
            # a run of hexadecimal digits
            if q[0] in (('lt',), ('h',)):
                return (('h',), q[1])
            if q[0] in ('b', ('hx',)):
                return (('hx',), q[1])
        if q[0] == 'b':
            if h == self.start():
                return q
            g = self.g.join(q[1], h[1])
            return g if isbad(g) else (h[0], g)
        if h == self.start():
            return q
        return bad('text is appended in the middle of a token')

    def feed(self, ws, p):
        for x in p:
            nw = []
            for w in ws:
                nw += self.piece(w, x)
            if len(nw) > 400:
                raise Unsupported('too many reader states')
            ws = nw
        return ws

    def worlds(self, st, v, start=None):
        p = v.p
        if p and isinstance(p[0], tuple) and p[0][0] == 'in' and self.classify(p[0]) == 'base':
            p = p[1:]
        return self.feed([(st, start or self.start())], p)

    def summary(self, E, st, rope):
        return frozenset(q for _, q in self.worlds(st, rope))

    def compact(self, E, p, q):
        """what is kept of two texts where branches meet: their common reader state"""
        if len(p) == 1 and len(q) == 1 and not (isinstance(p[0], tuple) and p[0][0] == 'abs' or isinstance(q[0], tuple) and q[0][0] == 'abs'):
            if not isinstance(p[0], bytes) or not isinstance(q[0], bytes):
                return None
        st = State()
        r = []
        for x in (p, q):
            if x and isinstance(x[0], tuple) and x[0][0] == 'in':
                return None
            try:
                r += [q2 for _, q2 in self.worlds(st, StrV(x))]
            except Unsupported:
                return None
        if any(isbad(y) or (y[0] != 'b' and y[0][0] in ('n', 'w', 's', 'h', 'hx', 'lt', 'gt', 'c', 'V', 'num')) for y in r):
            return None
        if len({(y[0], self.g.shape(y[1])) for y in r}) != 1:
            return None
        if r[0] == self.start():
            return None
        g = r[0][1]
        for y in r[1:]:
            g = self.g.union(g, y[1])
        return (('abs', E.uid(), frozenset([(r[0][0], g)])),)

    def last_char(self, E, st, x, c):
        if isinstance(x, tuple) and x[0] == 'abs' and all(not isbad(q) and q[0] == 'b' for q in x[2]):
            pass


# ---------------------------------------------------------------- objects
class ObjGrammar(Grammar):
    """sequence of complete objects; state: tuple of open containers, bottom first.
    ('t', n, k): n complete objects so far (2 = more), k trailing integers that may begin a reference
    ('a', k)   ('d', 'k'|'v'|'v1'|'v2', keys)"""

    def start(self):
        return (('t', 0, 0),)

    def settle(self, f):
        """an item can no longer be part of a reference"""
        return f

    def add(self, f, kind, text):
        if f[0] == 't':
            n, k = f[1], f[2]
            if kind == 'i':
                return ('t', min(n + 1, 3), min(k + 1, 2))
            return ('t', min(n + 1, 3), 0)
        if f[0] == 'a':
            return ('a', min(f[1] + 1, 2) if kind == 'i' else 0)
        _, s, keys = f
        if s in ('k', 'v1'):
            if kind == 'i' and s == 'v1':
                return ('d', 'v2', keys)
            if kind != '/':
                return bad('a dictionary key is not a name')
            if text is not None:
                if text in keys:
                    return bad('duplicate dictionary key /%s' % text)
                keys = keys | {text}
            return ('d', 'v', keys)
        if s == 'v':
            return ('d', 'v1' if kind == 'i' else 'k', keys)
        return bad('two integers where one value belongs')

    def ref(self, f):
        if f[0] == 't':
            return ('t', f[1] - 1, 0) if f[2] == 2 else bad('R without object and generation number')
        if f[0] == 'a':
            return ('a', 0) if f[1] == 2 else bad('R without object and generation number')
        return ('d', 'k', f[2]) if f[1] == 'v2' else bad('R without object and generation number')

    def token(self, g, kind, text):
        f = g[-1]
        if kind == 'kw':
            if text == 'R':
                r = self.ref(f)
                return r if isbad(r) else g[:-1] + (r,)
            if text not in ('true', 'false', 'null'):
                return bad('unknown word %s' % text)
            kind = 'v'
        if kind in ('[', '<<'):
            # the container is a value of the enclosing one
            r = self.add(f, 'v', None)
            if isbad(r):
                return r
            if len(g) > 30:
                return bad('unbounded nesting')
            return g[:-1] + (r, ('a', 0) if kind == '[' else ('d', 'k', frozenset()))
        if kind == ']':
            return g[:-1] if f[0] == 'a' else bad('] does not close an array')
        if kind == '>>':
            if f[0] != 'd':
                return bad('>> does not close a dictionary')
            if f[1] == 'v':
                return bad('a dictionary key has no value')
            if f[1] == 'v2':
                return bad('two integers where one value belongs')
            return g[:-1]
        r = self.add(f, kind, text)
        return r if isbad(r) else g[:-1] + (r,)

    def join(self, g, h):
        # h was read as top level text: it must consist of complete objects
        if g == self.start():
            return h
        if h[0][0] != 't':
            return bad('incomplete text inserted')
        _, n, k = h[0]
        if n == 0:
            return g
        if n == 1:
            r = self.add(g[-1], 'i' if k else 'v', None)
            return r if isbad(r) else g[:-1] + (r,) + h[1:]
        if len(h) != 1:
            return bad('incomplete text inserted')
        if g[-1][0] == 'a':
            return g[:-1] + (('a', min(2, k)),)
        if g[-1][0] == 't':
            return (('t', min(3, g[0][1] + n), k),)
        return bad('several objects inserted into a dictionary')

    def pairs(self, g, keys):
        f = g[-1]
        if f[0] != 'd' or f[1] not in ('k', 'v1'):
            return bad('dictionary entries outside of a dictionary')
        for k in keys:
            if k in f[2]:
                return bad('duplicate dictionary key /%s' % k)
        return g[:-1] + (('d', 'k', f[2] | frozenset(keys)),)

    def shape(self, g):
        return tuple(f[:2] if f[0] == 'd' else f for f in g)

    def union(self, g, h):
        # keys that may have been written: a key is reported as duplicate when it may occur twice
        return tuple(('d', a[1], a[2] | b[2]) if a[0] == 'd' else a for a, b in zip(g, h))

    def one(self, q):
        """exactly one complete object has been read"""
        return not isbad(q) and q[1][-1][0] == 't' and len(q[1]) == 1 and q[1][0][1] == 1


# ---------------------------------------------------------------- page content
OPS = {}
for _o in 'b B b* B* f F f* h n s S W W* q Q BT ET EMC T*'.split():
    OPS[_o] = ''
for _o, _s in dict(c='nnnnnn', cm='nnnnnn', d='an', Do='/', G='n', g='n', gs='/', i='n', j='n', J='n', k='nnnn', K='nnnn', l='nn', m='nn', M='n', re='nnnn',
                   RG='nnn', rg='nnn', ri='/', sh='/', v='nnnn', w='n', y='nnnn', CS='/', cs='/', BMC='/', BDC='/p', MP='/', DP='/p', Tc='n', Td='nn', TD='nn',
                   Tf='/n', Tj='s', TJ='t', TL='n', Tm='nnnnnn', Tr='n', Ts='n', Tw='n', Tz='n').items():
    OPS[_o] = _s
OPEN = {'q': 'q', 'BT': 'T', 'BMC': 'M', 'BDC': 'M'}
CLOSE = {'Q': 'q', 'ET': 'T', 'EMC': 'M'}


class ContentGrammar(Grammar):
    """state: (operands, open containers inside operands, brackets closed below the start, brackets opened)"""

    def __init__(self, trace=False):
        self.trace = trace

    def start(self):
        return ('', (), '', '')

    def token(self, g, kind, text):
        ops, cont, closed, opened = g
        if cont:
            f = cont[-1]
            if kind in ('[', '<<'):
                if len(cont) > 10:
                    return bad('unbounded nesting')
                if f[0] == 'd':
                    if f[1] != 'v':
                        return bad('a dictionary key is not a name')
                    f = ('d', 'k')
                return (ops, cont[:-1] + (f, ('a', 't') if kind == '[' else ('d', 'k')), closed, opened)
            if kind == ']':
                if f[0] != 'a':
                    return bad('] does not close an array')
                return self.endcont(g, f[1])
            if kind == '>>':
                if f[0] != 'd' or f[1] != 'k':
                    return bad('>> does not close a dictionary')
                return self.endcont(g, 'p')
            if kind == 'kw':
                if text not in ('true', 'false', 'null'):
                    return bad('operator %s inside an array or dictionary' % text)
                kind = 'v'
            if f[0] == 'a':
                if kind not in ('n', 'i', 's'):
                    return bad('array element is neither number nor string')
                return g if kind == 's' or f[1] != 'a' else g
            if f[1] == 'k':
                if kind != '/':
                    return bad('a dictionary key is not a name')
                return (ops, cont[:-1] + (('d', 'v'),), closed, opened)
            return (ops, cont[:-1] + (('d', 'k'),), closed, opened)
        if kind == 'kw':
            return self.operator(g, text)
        if kind == '[':
            return (ops, (('a', 't'),), closed, opened)
        if kind == '<<':
            return (ops, (('d', 'k'),), closed, opened)
        if kind in (']', '>>'):
            return bad('stray ' + kind)
        return self.operand(g, {'i': 'n', 'v': '?'}.get(kind, kind))

    def operand(self, g, k):
        ops = g[0]
        if len(ops) >= 8 and k == 'n' and set(ops) == {'n'}:
            return ('n' * 8,) + g[1:]
        if len(ops) > 12:
            return bad('too many operands')
        return (ops + k,) + g[1:]

    def endcont(self, g, k):
        ops, cont, c, o = g
        cont = cont[:-1]
        if cont:
            return (ops, cont, c, o)
        return self.operand((ops, (), c, o), k)

    def operator(self, g, op):
        ops, cont, closed, opened = g
        if op in ('true', 'false', 'null'):
            return self.operand(g, '?')
        if op in ('SCN', 'scn'):
            if not re.fullmatch(r'n+/?|/', ops):
                return bad('operands "%s" of %s' % (ops, op))
        elif op in ('SC', 'sc'):
            if not re.fullmatch(r'n+', ops):
                return bad('operands "%s" of %s' % (ops, op))
        elif op not in OPS:
            return bad('unknown operator %s' % op)
        else:
            sig = OPS[op]
            if len(sig) != len(ops) or not all(a == b or (a == 'a' and b == 't') or (a == 'p' and b == '/') for a, b in zip(sig, ops)):
                return bad('operands "%s" of %s' % (ops, op))
        if op in OPEN:
            opened = opened + OPEN[op]
            if len(opened) > 6:
                return bad('unbounded bracket nesting')
        elif op in CLOSE:
            if opened:
                if opened[-1] != CLOSE[op]:
                    return bad('%s does not close the innermost bracket' % op)
                opened = opened[:-1]
            else:
                closed = closed + CLOSE[op]
                if len(closed) > 6:
                    return bad('unbounded bracket closing')
        return ('', (), closed, opened)

    def join(self, g, h):
        ops, cont, c, o = g
        hops, hcont, hc, ho = h
        if (ops or cont):
            if g == self.start():
                return h
            if hc or ho or hcont:
                return bad('incomplete text inserted')
            # operands only
            r = g
            if cont:
                for k in hops:
                    r = self.token(r, {'t': 's', 'p': 's', '?': 'kw'}.get(k, k), 'null')
                    if isbad(r):
                        return r
                return r
            for k in hops:
                r = self.operand(r, k)
                if isbad(r):
                    return r
            return r
        for k in hc:
            if o:
                if o[-1] != k:
                    return bad('bracket does not close the innermost one')
                o = o[:-1]
            else:
                c += k
        return (hops, hcont, c, o + ho)
