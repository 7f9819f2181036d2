"""Contracts of ObjectFormatter, and the ghost text they describe.

Each method is described by the tokens it appends to the formatter's text (canonical blanks between them); props/a01.py proves
that the code of every method appends exactly those tokens, blanks aside.  Application text inside a token is kept as the
identity of its rope, so that callers can be checked for what they write and not only for its form."""
from .spec import *
from .tokens import TokDom, ObjGrammar, isbad

NS = 'capypdf::internal::'
OF = NS + 'ObjectFormatter'
METHODS = ('begin_array', 'begin_dict', 'end_array', 'end_dict', 'add_token', 'add_token_pair', 'add_token_with_slash', 'add_object_ref', 'add_pdfstring',
           'add_bytestring', 'add_utf8_string', 'steal')
ARR, DICT = 0, 1


def loc_of(E, st, v):
    """location of the formatter object behind a reference, pointer or smart pointer"""
    return v


def text(E, st, v):
    """rope of a string argument (string, view, pointer to characters)"""
    v = E.rv(st, v) if isinstance(v, Loc) else v
    v = E.force(v, st)
    if isinstance(v, StrV):
        return v.p
    if isinstance(v, PtrV):
        return E.cstr(st, v).p
    if isinstance(v, SV):
        for x in v.f.values():
            x = E.force(x, st)
            if isinstance(x, StrV):
                return x.p
            if isinstance(x, SV):
                return text(E, st, x)
    raise Unsupported('text of %r' % (v,))


def stack_of(E, st, o):
    s = E.force(o.f['stack'], st)
    return E.force(s.f['c'], st) if isinstance(s, SV) else s


def with_stack(E, st, o, v):
    s = E.force(o.f['stack'], st)
    return o.set('stack', s.set('c', v) if isinstance(s, SV) else v)


class Fmt:
    def __init__(self, E):
        self.E = E
        self.on_steal = None

    def get(self, st, this):
        E = self.E
        o = E.force(E.load(st, this), st)
        b, s = E.force(o.f['buf'], st), stack_of(E, st, o)
        return o, b, s

    def put(self, st, this, o, buf, stack):
        E = self.E
        E.store(st, this, with_stack(E, st, o.set('buf', buf), stack))

    def nested(self, st, s):
        n = self.E.vsize(s)
        if isinstance(n, int):
            return n > 0
        return self.E.decide3(st, tobv(n, 64) != 0) is True

    def items(self, st, this, *toks):
        """append tokens"""
        E = self.E
        o, b, s = self.get(st, this)
        p = b.p
        sep = (b' ',) if self.nested(st, s) else ()
        for t in toks:
            p = E.cat(p, E.cat(tuple(t), sep))
        self.put(st, this, o, StrV(p), s)
        return VOID

    def push(self, st, this, kind):
        o, b, s = self.get(st, this)
        p = self.E.cat(b.p, (b'[ ' if kind == ARR else b'<< ',))
        self.put(st, this, o, StrV(p), VecV(s.et, s.buid, s.bsize, s.boff, s.tail + (kind,), s.known))
        return VOID

    def pop(self, st, this, kind, fn):
        E = self.E
        o, b, s = self.get(st, this)
        if not s.tail or s.tail[-1] is not kind and s.tail[-1] != kind:
            E.oblige(st, False, 'every container is closed by its own kind', fn=fn, detail='stack %r' % (s,))
            raise PathEnd()
        s = VecV(s.et, s.buid, s.bsize, s.boff, s.tail[:-1], s.known)
        p = E.cat(b.p, (b']' if kind == ARR else b'>>',))
        if self.nested(st, s):
            p = E.cat(p, (b' ',))
        self.put(st, this, o, StrV(p), s)
        return VOID

    def token(self, st, G, i, v):
        E = self.E
        t = decay(G.tu.T(G.params[i]['t']))
        v = E.rv(st, v) if isinstance(v, Loc) else v
        if t.k == 'ref':
            t = decay(t.t)
        if t.k == 'bool':
            return (('fmt', 'b', '', E.tobool(st, v)),)
        if t.k == 'int':
            return (('fmt', 'i' if t.s else 'u', '', v),)
        if t.k == 'float':
            return (('fmt', 'd', 'f', v),)
        if t.k == 'rec' and t.nn == NS + 'PdfName':
            return (('cls', '/', ('name', text(E, st, v))),)
        return text(E, st, v)

    def install(self):
        E = self.E
        for m in METHODS:
            E.fnhooks[OF + '::' + m] = getattr(self, 'h_' + m)

        def lit(kind, what):
            def h(E2, st, fr, G, this, argv, e):
                k = kind
                if kind == '/' and len(argv) > 1 and E2.tobool(st, argv[1]) is False:
                    k = 'namebody'
                elif kind == '/' and len(argv) > 1 and E2.tobool(st, argv[1]) is not True:
                    return NotImplemented
                if kind == 's' and len(argv) > 1:
                    b = E2.tobool(st, argv[1])
                    if b is False:
                        return StrV((('cls', 'hexbody', (what, text(E2, st, argv[0]))),))
                    if b is not True:
                        return NotImplemented
                return StrV((('cls', k, (what, text(E2, st, argv[0]))),))
            return h
        E.fnhooks[NS + 'bytes2pdfstringliteral'] = lit('/', 'name')
        E.fnhooks[NS + 'pdfstring_quote'] = lit('s', 'bytes')
        E.fnhooks[NS + 'utf8_to_pdfutf16be'] = lit('s', 'utf16')
        E.fnhooks[NS + 'u8str2u8textstring'] = lit('s', 'u8text')
        E.fnhooks[NS + 'u8str2filespec'] = lit('s', 'filespec')

    def h_begin_array(self, E2, st, fr, G, this, argv, e):
        return self.push(st, this, ARR)

    def h_begin_dict(self, E2, st, fr, G, this, argv, e):
        return self.push(st, this, DICT)

    def h_end_array(self, E2, st, fr, G, this, argv, e):
        return self.pop(st, this, ARR, E2.curfn)

    def h_end_dict(self, E2, st, fr, G, this, argv, e):
        return self.pop(st, this, DICT, E2.curfn)

    def h_add_token(self, E2, st, fr, G, this, argv, e):
        return self.items(st, this, self.token(st, G, 0, argv[0]))

    def h_add_token_pair(self, E2, st, fr, G, this, argv, e):
        ts = [decay(G.tu.T(p['t'])) for p in G.params]
        if all(t.k == 'ptr' for t in ts):
            return self.items(st, this, text(E2, st, argv[0]), text(E2, st, argv[1]))
        return NotImplemented

    def h_add_token_with_slash(self, E2, st, fr, G, this, argv, e):
        return self.items(st, this, E2.cat((b'/',), text(E2, st, argv[0])))

    def h_add_object_ref(self, E2, st, fr, G, this, argv, e):
        v = E2.rv(st, argv[0]) if isinstance(argv[0], Loc) else argv[0]
        return self.items(st, this, (('fmt', 'i', '', v), b' 0 R'))

    def h_add_pdfstring(self, E2, st, fr, G, this, argv, e):
        return self.items(st, this, (('cls', 's', ('bytes', text(E2, st, argv[0]))),))

    h_add_bytestring = h_add_pdfstring

    def h_add_utf8_string(self, E2, st, fr, G, this, argv, e):
        return self.items(st, this, (('cls', 's', ('utf16', text(E2, st, argv[0]))),))

    def h_steal(self, E2, st, fr, G, this, argv, e):
        o, b, s = self.get(st, this)
        E2.oblige(st, not self.nested(st, s) and not s.tail, 'an object is taken from the formatter only when every container is closed', fn=E2.curfn, detail='stack %r' % (s,))
        self.put(st, this, o, StrV(()), s)
        r = StrV(E2.cat(b.p, (b'\n',)))
        if self.on_steal:
            self.on_steal(E2, st, r)
        return r


def classify(x):
    if x[0] == 'in' and (str(x[1]).endswith('.indent')):
        return 'ws'
    return None


def setup(E, nested_base=True):
    f = Fmt(E)
    f.install()
    E.rope_dom = TokDom(E, ObjGrammar(), classify)
    return f


# ---------------------------------------------------------------- reading the ghost text back as tokens
def lex(E, st, p):
    """rope -> list of tokens: bytes (structure, names, words) | ('fmt', kind, value) | ('cls', kind, ident) | ('ref', value) | ('txt', pieces)"""
    out = []
    cur = []

    def end():
        if not cur:
            return
        if len(cur) == 1:
            x = cur[0]
            if isinstance(x, bytes):
                out.append(x)
            elif x[0] == 'fmt':
                out.append(('fmt', x[1], x[2], x[3]))
            elif x[0] == 'cls':
                out.append(x[:3])
            else:
                out.append(('txt', tuple(cur)))
        else:
            out.append(('txt', tuple(cur)))
        del cur[:]
    for x in p:
        if isinstance(x, bytes):
            for i in range(len(x)):
                c = x[i:i + 1]
                if c in b'\0\t\n\f\r ':
                    end()
                elif c in b'[]':
                    end()
                    out.append(c)
                elif c == b'/':
                    end()
                    cur.append(c)
                elif cur and isinstance(cur[-1], bytes):
                    cur[-1] += c
                else:
                    cur.append(c)
        elif x[0] == 'cls' and x[1] == 'ws':
            end()
        else:
            cur.append(x)
    end()
    # references
    r = []
    for t in out:
        if t == b'R' and len(r) >= 2 and r[-1] == b'0' and isinstance(r[-2], tuple) and r[-2][0] == 'fmt':
            v = r[-2][3]
            del r[-2:]
            r.append(('ref', v))
        else:
            r.append(t)
    return r
