"""A03: text in strings, names, hexadecimal strings and XML decodes to what was supplied."""
from ..spec import *
from ..domains import PosRope, Decoder, BAD
from .. import callgraph, native, objfmt
from . import a01, a02, a04, a14

NS = 'capypdf::internal::'
SIMPLE = {0x6E: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12}


class Chars(Decoder):
    """decoders that read one character at a time; a formatted number contributes its digits"""

    def cls_of(self, w, c, table):
        """branch on a character: [(world, key or None)] for the keys of the table"""
        if isinstance(c, int):
            return [(w, c if c in table else None)]
        out = []
        for k in table:
            r = self.dom.branch(w, c == k)
            rest = None
            for w2, d in r:
                if d:
                    out.append((w2, k))
                else:
                    rest = w2
            if rest is None:
                return out
            w = rest
        return out + [(w, None)]

    def sym(self, c):
        return z3.BitVecVal(c & 255, 8) if isinstance(c, int) else c

    def fmt(self, w, x):
        _, k, spec, v = x
        if spec not in ('02x', '02X', '%02x', '%02X') or not is_z3(v):
            return [w.with_(q=BAD)]
        if v.size() > 8:
            if self.dom.E.decide3(w.st, z3.ULT(v, 256)) is not True:
                return [w.with_(q=BAD)]
            v = z3.Extract(7, 0, v)
        return self.hexpair(w, z3.simplify(v))

    def hexpair(self, w, v):
        return [w.with_(q=BAD)]

    def rest(self, w):
        return w.q


class Literal(Chars):
    """( ... ) with escapes; states ('pre',k) ('in',) ('esc',) ('oct',value,count) ('end',); `lead`: bytes that precede the text"""

    def __init__(self, lead=b''):
        self.pre = b'(' + lead

    def start(self):
        return ('pre', 0)

    def accept(self, q):
        return q == ('end',)

    def char(self, w, c):
        q = w.q
        if q[0] == 'pre':
            if c != self.pre[q[1]]:
                return [w.with_(q=BAD)]
            return [w.with_(q=('pre', q[1] + 1) if q[1] + 1 < len(self.pre) else ('in',))]
        if q[0] == 'in':
            out = []
            for w2, k in self.cls_of(w, c, (0x28, 0x29, 0x5C, 0x0D)):
                if k is None:
                    out += self.out(w2, self.sym(c))
                elif k == 0x5C:
                    out.append(w2.with_(q=('esc',)))
                elif k == 0x29:
                    out.append(w2.with_(q=('end',)))
                else:
                    out.append(w2.with_(q=BAD))
            return out
        if q[0] == 'esc':
            out = []
            for w2, k in self.cls_of(w, c, tuple(SIMPLE) + (10, 13) + tuple(range(0x30, 0x38))):
                if k is None:
                    out += self.out(w2.with_(q=('in',)), self.sym(c))
                elif k in SIMPLE:
                    out += self.out(w2.with_(q=('in',)), z3.BitVecVal(SIMPLE[k], 8))
                elif k == 10:
                    out.append(w2.with_(q=('in',)))
                elif k == 13:
                    out.append(w2.with_(q=BAD))
                else:
                    out.append(w2.with_(q=('oct', k - 0x30, 1)))
            return out
        if q[0] == 'oct' and isinstance(c, int) and 0x30 <= c < 0x38:
            v = q[1] * 8 + c - 0x30
            if q[2] == 2:
                return self.out(w.with_(q=('in',)), z3.BitVecVal(v & 255, 8))
            return [w.with_(q=('oct', v, q[2] + 1))]
        return [w.with_(q=BAD)]

    def out(self, w, sym):
        return [self.dom.emit(w, sym)]


class FileSpec(Literal):
    """file specification: in the decoded string a slash that belongs to the name is preceded by a backslash"""

    def char(self, w, c):
        if w.q == ('esc',) and c == 0x5C:
            return [w.with_(q=('bs',))]
        if w.q == ('bs',):
            if c == 0x2F:
                return [self.dom.emit(w.with_(q=('in',)), z3.BitVecVal(0x2F, 8))]
            return [y for x in self.flush(w) for y in (self.char(x, c) if x.q != BAD else [x])]
        return Literal.char(self, w, c)

    def flush(self, w):
        return Literal.out(self, w.with_(q=('in',)), z3.BitVecVal(0x5C, 8)) if w.q == ('bs',) else [w]

    def out(self, w, sym):
        return [w2.with_(q=BAD) if d else self.dom.emit(w2, sym) for w2, d in self.dom.branch(w, sym == 0x2F)]


REGULAR_NOT = b'()<>[]{}/%#'


class Name(Chars):
    """/ followed by regular characters and #xx"""

    def __init__(self, slash):
        self.slash = slash

    def start(self):
        return ('pre',) if self.slash else ('in',)

    def accept(self, q):
        return q == ('in',)

    def char(self, w, c):
        q = w.q
        if q[0] == 'pre':
            return [w.with_(q=('in',) if c == 0x2F else BAD)]
        if q[0] == 'in':
            if isinstance(c, int):
                if c == 0x23:
                    return [w.with_(q=('hex',))]
                return [self.dom.emit(w, self.sym(c)) if 0x21 <= c <= 0x7E and c not in REGULAR_NOT else w.with_(q=BAD)]
            ok = z3.And(z3.UGE(c, 0x21), z3.ULE(c, 0x7E), *[c != x for x in REGULAR_NOT])
            return [self.dom.emit(w2, c) if d else w2.with_(q=BAD) for w2, d in self.dom.branch(w, ok)]
        if q[0] in ('hex', 'hex2') and isinstance(c, int) and chr(c) in '0123456789abcdefABCDEF':
            v = int(chr(c), 16)
            if q[0] == 'hex':
                return [w.with_(q=('hex2', v))]
            return [self.dom.emit(w.with_(q=('in',)), z3.BitVecVal(q[1] * 16 + v, 8))]
        return [w.with_(q=BAD)]

    def hexpair(self, w, v):
        if w.q != ('hex',):
            return [w.with_(q=BAD)]
        return [self.dom.emit(w.with_(q=('in',)), v)]


ENTITIES = {b'lt': 0x3C, b'gt': 0x3E, b'amp': 0x26, b'quot': 0x22, b'apos': 0x27}


class Xml(Chars):
    """character data of an element, or of a double quoted attribute value"""

    def __init__(self, attr=False):
        self.stop = (0x3C, 0x26, 0x0D) + ((0x22, 0x0A, 0x09) if attr else ())

    def start(self):
        return ('in',)

    def accept(self, q):
        return q == ('in',)

    def char(self, w, c):
        q = w.q
        if q[0] == 'in':
            out = []
            for w2, k in self.cls_of(w, c, self.stop):
                if k is None:
                    out.append(self.dom.emit(w2, self.sym(c)))
                else:
                    out.append(w2.with_(q=('ent', b'') if k == 0x26 else BAD))
            return out
        if q[0] == 'ent' and isinstance(c, int) and len(q[1]) < 8:
            if c != 0x3B:
                return [w.with_(q=('ent', q[1] + bytes([c])))]
            n = q[1]
            v = ENTITIES.get(n)
            if v is None and n[:1] == b'#':
                try:
                    v = int(n[2:], 16) if n[1:2] == b'x' else int(n[1:])
                except ValueError:
                    v = None
            if v is not None and 0 < v < 128:
                return [self.dom.emit(w.with_(q=('in',)), z3.BitVecVal(v, 8))]
        return [w.with_(q=BAD)]


def run_quoter(E, T, F, dec, args, st, n, out_of, name, src='text'):
    dom = PosRope(E, expect=lambda P: byte_at(src, P), step=lambda P: P + 1, decoder=dec)
    E.rope_dom = dom
    E.hooks['candidates'] = dom.candidates
    for s, k, v in call_fn(E, F, args, st=st):
        if k != 'n':
            E.oblige(s, False, 'quoting cannot fail', fn=F.name)
            continue
        dom.final(E, s, out_of(s, v), n, name, F.name)


def t_quote(fname, dec, name, extra=()):
    def run(prog, T):
        for F in findall(prog, NS + fname):
            E = T.engine(timeout=20000)
            n = len_name(E, 'text')
            E.axiom(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
            st = State()
            a = text_arg(E, st, F.tu.T(F.params[0]['t']), 'text')
            run_quoter(E, T, F, dec(), [a] + list(extra), st, n, lambda s, v: E.rv(s, v), name)
    return run


def t_xml(fname, attr=False):
    """text appended to `result`: nothing that was there changes"""
    def run(prog, T):
        F = find(prog, NS + fname)
        E = T.engine(timeout=20000)
        n = len_name(E, 'text')
        E.axiom(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
        st = State()
        a = text_arg(E, st, F.tu.T(F.params[0]['t']), 'text')
        out = E.heap('result', decay(F.tu.T(F.params[1]['t']).t), st, StrV(()))
        run_quoter(E, T, F, Xml(attr), [a, out], st, n, lambda s, v: E.force(E.load(s, out), s), 'the character data reads as the given text')
    return run


def t_content(F):
    """the text of an element is written between the tags as one quoted piece"""
    def run(prog, T):
        E = T.engine()
        seen = []

        def q(E2, st, fr, G, this, argv, e):
            o = E2.force(E2.rv(st, argv[1]), st)
            E2.store(st, argv[1], StrV(o.p + (('cls', 'xml', ('xml', objfmt.text(E2, st, argv[0]))),)))
            return VOID
        for n in ('quote_xml_element_data_into', 'quote_xml_element_data_unchecked_into'):
            E.fnhooks[NS + n] = q
        st = State()
        this = fresh_this(E, st, F)
        o = E.force(E.load(st, this), st)
        b0 = E.force(o.f['output'], st)
        E.store(st, this, o.set('output', b0))
        args = fresh_args(E, st, F)
        want = objfmt.text(E, st, args[0])
        for s, k, v in call_fn(E, F, args, this, st):
            if k != 'n':
                continue
            p = E.force(E.force(E.load(s, this), s).f['output'], s).p
            ok = p[:len(b0.p)] == b0.p and len(p) == len(b0.p) + 1 and p[-1][:2] == ('cls', 'xml') and p[-1][2][1] == want
            E.oblige(s, ok, 'the whole text of an element is quoted and appended', fn=F.name, detail=repr(p)[-200:])
            seen.append(1)
        if not seen:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


class Attr(Xml):
    """ x="...": the value of an attribute; line ends and tabs are not escaped (values are library constants)"""

    def __init__(self):
        self.pre = b' x="'
        self.stop = (0x3C, 0x26, 0x22)

    def start(self):
        return ('pre', 0)

    def accept(self, q):
        return q == ('end',)

    def char(self, w, c):
        q = w.q
        if q[0] == 'pre':
            if c != self.pre[q[1]]:
                return [w.with_(q=BAD)]
            return [w.with_(q=('pre', q[1] + 1) if q[1] + 1 < len(self.pre) else ('in',))]
        if q == ('in',) and isinstance(c, int) and c == 0x22:
            return [w.with_(q=('end',))]
        if q == ('end',):
            return [w.with_(q=BAD)]
        return Xml.char(self, w, c)


def t_attr(prog, T):
    F = find(prog, NS + 'XMLFormatter::add_tag_attribute')
    E = T.engine(timeout=20000)
    n = len_name(E, 'text')
    E.axiom(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    E.store(st, this, o.set('output', StrV(())))
    ok = []

    def out(s, v):
        return E.force(E.force(E.load(s, this), s).f['output'], s)
    E.fnhooks[[f for f in prog.fns if f.name.split('::')[-1] == 'is_valid_tag_name'][0].name] = lambda *a: True
    dom = PosRope(E, expect=lambda P: byte_at('text', P), step=lambda P: P + 1, decoder=Attr())
    E.rope_dom = dom
    E.hooks['candidates'] = dom.candidates
    for s, k, v in call_fn(E, F, [objfmt.cstr(E, s, 'x') if hasattr(objfmt, 'cstr') else StrV((b'x',)), E.str_fresh('text')], this, st):
        if k == 'n':
            dom.final(E, s, out(s, v), n, 'the attribute reads as the given text', F.name)
            ok.append(1)
    E.oblige(State(), bool(ok), 'an outcome exists', fn=F.name)


def text_arg(E, st, t, name):
    b = decay(getattr(t, 't', None) or t)
    if b.k == 'rec' and b.rec and any(f[0] == 'buf' for f in b.rec.fields):
        return E.heap(name, b, st, SV(b, {'buf': E.str_fresh(name)}))
    return E.str_fresh(name)


TEXT = {NS + 'u8string': 'u8', NS + 'asciistring': 'ascii', NS + 'PdfName': 'pdfname'}
QUOTERS = {'bytes2pdfstringliteral': 'name', 'pdfstring_quote': 'bytes', 'utf8_to_pdfutf16be': 'utf16', 'u8str2u8textstring': 'u8text', 'u8str2filespec': 'filespec'}
ENC = {'u8': ('utf16', 'u8text', 'filespec', 'xml'), 'ascii': ('bytes', 'name'), 'pdfname': ('name',)}


def whole(E, st, what, p):
    """None if application text is quoted as a whole and in the encoding of its type, else what is wrong"""
    for q, pp in a01.expand(E, st, p):
        for x in pp:
            if isinstance(x, bytes) or x[0] in ('fmt',):
                continue
            if x[0] == 'cls':
                if x[1] in ('/', 's', 'namebody', 'hexbody', 'xml') and isinstance(x[2], tuple) and x[2][0] in QUOTERS.values():
                    return 'text that is quoted already'
                continue
            if x[0] != 'in':
                return 'text of unknown origin %r' % (x[:2],)
            nm, off, ln = x[1], tobv(x[2], 64), tobv(x[3], 64)
            k = E.textkind.get(nm)
            n = len_name(E, nm)
            if k is not None and what not in ENC[k]:
                return 'text of type %s written as %s' % (k, what)
            full = z3.And(off == 0, ln == n)
            tail = z3.And(off == 1, ln == n - 1, z3.BoolVal(True) if k == 'pdfname' else byte_at(nm, B64(0)) == 0x2F)      # without the slash of a name
            if E.decide3(q, tail if k == 'pdfname' else z3.Or(full, tail)) is not True:
                return 'part of the text %s' % nm
    return None


def follow(E):
    """obligation at every call of a quoting function"""
    E.textkind = {}
    E.nquoted = 0
    prev = E.hooks.get('fresh')

    def fresh(E2, t, name, st):
        k = TEXT.get(t.nn) if t.k == 'rec' else None
        if k:
            E.textkind[name + '.buf'] = k
        return prev(E2, t, name, st) if prev else None
    E.hooks['fresh'] = fresh

    def wrap(h, what):
        def g(E2, st, fr, G, this, argv, e):
            p = objfmt.text(E2, st, argv[0])
            bad = whole(E2, st, what, p)
            E2.oblige(st, bad is None, 'text is written as a whole, by the quoting function of its type', fn=E2.curfn, detail=bad)
            E.nquoted += 1
            return h(E2, st, fr, G, this, argv, e)
        return g
    for q, what in QUOTERS.items():
        h = E.fnhooks.get(NS + q)
        if h is None:
            def h(E2, st, fr, G, this, argv, e, what=what):
                return StrV((('cls', '/' if what == 'name' else 's', (what, objfmt.text(E2, st, argv[0]))),))
        E.fnhooks[NS + q] = wrap(h, what)
    for m, what in (('add_pdfstring', 'bytes'), ('add_bytestring', 'bytes'), ('add_utf8_string', 'utf16')):
        h = E.fnhooks.get(objfmt.OF + '::' + m)
        if h:
            E.fnhooks[objfmt.OF + '::' + m] = wrap(h, what)

    def xml(E2, st, fr, G, this, argv, e):
        return VOID
    E.fnhooks[NS + 'XMLFormatter::add_content'] = wrap(xml, 'xml')


def flows(prog):
    """functions that hand text to a quoting function"""
    out = []
    skip = (objfmt.OF + '::', NS + 'XMLFormatter::')
    for F in prog.fns:
        if F.body is None or F.name.startswith(skip) or F.name in [NS + q for q in QUOTERS]:
            continue
        for G, n in callgraph.callees(prog, F):
            if G is None:
                continue
            b = G.name[len(NS):]
            if F.name == NS + 'subsetfontname2pdfname':
                break       # the name comes from the font file
            if b in QUOTERS or b in ('XMLFormatter::add_content',) or b.startswith('ObjectFormatter::add_') and b.endswith('string'):
                out.append(F)
                break
    return out


def t_flow(F):
    def run(prog, T):
        E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
        a01.install(E)
        for n in a01.VALUE_WRITERS:
            E.fnhooks[n] = a01.one_value
        for n in a01.PAIR_WRITERS:
            if n != F.name:
                E.fnhooks[n] = a01.pairs
        for G in prog.fns:
            if G.name != F.name and G.name in a01.OWN and G.name not in E.fnhooks or G.name.startswith(NS) and G.name.split('::')[-1] in a01.PLAIN:
                E.fnhooks[G.name] = a01.callee
        E.fnhooks[NS + 'current_date_string'] = lambda *a: StrV((('cls', 's', ('date',)),))
        follow(E)
        st = State()
        args = fresh_args(E, st, F)
        for s, k, v in call_fn(E, F, args, None, st):
            pass
        keep(E, F)
    return run


def keep(E, F):
    """only the obligations of this property; there is at least one"""
    E.oblige(State(), E.nquoted > 0, 'the text reaches a quoting function', fn=F.name)


def t_stream(F):
    """the same for content streams"""
    def extra(E, me):
        follow(E)
        E.a03 = True
    return a02.t_method(F, 'cmds', extra)


def t_entry(F):
    """a formatter of content streams: key and value are quoted as a whole"""
    def run(prog, T):
        E = T.engine()
        a02.str_contracts(E)
        follow(E)
        for s, k, v in call_fn(E, F):
            pass
        keep(E, F)
    return run


TAKERS = tuple(c + '::from_' for c in TEXT)


def t_taken(F):
    """a C function takes the whole text it is given: up to the terminating NUL, or as many bytes as its length argument says"""
    def run(prog, T):
        E = T.engine(nopeel=True)
        st = State()
        args = fresh_args(E, st, F)
        lens, last = {}, None       # text parameter -> its length parameter
        for a, p in zip(args, F.params):
            t = decay(F.tu.T(p['t']))
            if t.k == 'int' and t.w == 32 and last:
                lens[last] = tobv(E.rv(st, a), 32)
            last = p['name'] if t.k == 'ptr' else None
        n = [0]

        def take(E2, s, fr, G, this, argv, e):
            if not G.name.startswith(TAKERS):
                if G.name.startswith(NS + 'Pdf') and callgraph.is_rvoe(G):
                    return a02.rvoe_fresh(E2, s, G)
                return NotImplemented
            p = objfmt.text(E2, s, argv[0])
            ok = len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'in'
            if ok or not p:
                f = z3.BoolVal(False)
                if ok:
                    off, ln = tobv(p[0][2], 64), tobv(p[0][3], 64)
                    full = len_name(E2, p[0][1])
                    s.pc.append(z3.ULT(full, 1 << 31))
                    l = lens.get(p[0][1])
                    if len(argv) > 1:
                        ln = E2.rv(s, argv[1])
                        ln = E2.ext(ln, 64, False) if z3.is_bv(ln) else tobv(ln, 64)
                    f = z3.And(off == 0, ln == full if l is None else z3.If(l < 0, ln == full, ln == z3.ZeroExt(32, l)))
                E2.oblige(s, f, 'the whole text of the caller is taken', fn=F.name, detail=repr((p, argv[1:])))
            else:
                c = all(isinstance(x, bytes) for x in p)
                E2.oblige(s, c, 'the whole text of the caller is taken', fn=F.name, detail=repr((p, argv[1:])))
            n[0] += 1
            return a02.rvoe_fresh(E2, s, G)
        E.hooks['anyfn'] = take
        for s, k, v in call_fn(E, F, args, None, st):
            pass
        E.oblige(State(), n[0] > 0, 'the text is taken', fn=F.name)
    return run


def takers(prog):
    out = []
    for F in a14.interface(prog):
        if any(G is not None and G.name.split('::')[-1] in ('validate_ascii', 'validate_utf8', 'validate_pdfname') or G is not None and G.name.startswith(TAKERS) for G, _ in callgraph.callees(prog, F)):
            out.append(F)
    return out


def tasks(prog, tier):
    ts = [Task('pdfstring_quote', t_quote('pdfstring_quote', Literal, 'the literal string decodes to the given bytes'), 120, 1),
          Task('u8str2u8textstring', t_quote('u8str2u8textstring', lambda: Literal(b'\xef\xbb\xbf'), 'the text string decodes to the given text'), 120, 2),
          Task('u8str2filespec', t_quote('u8str2filespec', lambda: FileSpec(b'\xef\xbb\xbf'), 'the file specification denotes the given name'), 120, 1),
          Task('bytes2pdfstringliteral (name)', t_quote('bytes2pdfstringliteral', lambda: Name(True), 'the name decodes to the given bytes', (True,)), 120, 1),
          Task('bytes2pdfstringliteral (without slash)', t_quote('bytes2pdfstringliteral', lambda: Name(False), 'the name decodes to the given bytes', (False,)), 120, 1),
          Task('quote_xml_element_data_unchecked_into', t_xml('quote_xml_element_data_unchecked_into'), 120, 1),
          Task('quote_xml_element_data_into', t_xml('quote_xml_element_data_into'), 120, 1),
          Task('XMLFormatter::add_tag_attribute', t_attr, 60, 1),
          Task('utf8_to_pdfutf16be (text string)', a04.t_utf16(True), 300),
          Task('utf8_to_pdfutf16be (plain)', a04.t_utf16(False), 300)]
    ts += [Task('XMLFormatter::add_content ' + F.tu.T(F.params[0]['t']).key[-24:], t_content(F), 60, 1) for F in findall(prog, NS + 'XMLFormatter::add_content')]
    a01.OWN.clear()
    a01.OWN.update(F.name for F in a01.functions(prog))
    ms = {id(F) for F in a02.methods(prog)} if hasattr(a02, 'methods') else set()
    for F in flows(prog):
        if F.name.startswith(a02.CSF + '::'):
            ts.append(Task('entry %s/%d' % (F.name[len(NS):], len(F.params)), t_entry(F), 60))
        elif F.name.startswith(a02.DC + '::'):
            ts.append(Task('stream %s/%d' % (F.name[len(NS):], len(F.params)), t_stream(F), 150))
        else:
            ts.append(Task('flow %s' % F.name[len(NS):], t_flow(F), 150))
    for F in takers(prog):
        ts.append(Task('taken ' + F.name, t_taken(F), 60))
    return ts


def replay(tier, seed):
    return native.run_harness('h_text', [tier, str(seed)])


HOW = 'harness/h_text.cpp: quoting functions on all short byte strings of special characters and random longer ones, each result read by an independent decoder; documents with random text in every place that takes text, read back from the written file'
ASSUME = ['texts are shorter than 2^40 bytes',
          'in XML only the characters XML can represent; attribute values (library constants) hold no line ends or tabs',
          'the names of subset fonts come from the font file; they are not application text',
          'numbers and dates formatted by the library are not application text',
          'which dictionary key a text is written under is not part of the proof; the harness looks for the text in the document, and for the structure of the entries see A01, A11, A15',
          'text that reaches the file without a quoting function is an obligation of A01 (only complete tokens are written)']
