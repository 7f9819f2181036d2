"""Structured view of the ghost text: loops stay visible as ('loop', id), with the text one iteration appends.

With joint loop invariants the text at a loop head is abstract; the engine records what it stood for (the text before the loop
followed by any number of iterations).  A content property of a text written by a loop is then: the text before the loop, the text
an iteration for element i appends, the text after the loop - and that the iterations run over the elements 0..n-1 in order."""
from .spec import *
from . import objfmt


def unfold(E, p, stop=()):
    out = []
    for x in p:
        if isinstance(x, tuple) and x[0] == 'abs' and x[1] in E.absof and x[1] not in stop:
            lid, pre = E.absof[x[1]]
            out += unfold(E, pre, stop) + [('loop', lid)]
        elif isinstance(x, tuple) and x[0] == 'choice':
            a, b = unfold(E, x[2], stop), unfold(E, x[3], stop)
            out.append(('choice', x[1], tuple(a), tuple(b)))
        else:
            out.append(x)
    return out


def expand(E, s, p):
    """[(state, pieces)] without choices"""
    out = [(s, ())]
    for x in p:
        nx = []
        for q, r in out:
            if isinstance(x, tuple) and x[0] == 'choice':
                for val, br in ((True, x[2]), (False, x[3])):
                    q2 = q.copy()
                    q2.pc.append(zbool(x[1]) if val else zbool(znot(x[1])))
                    if E.feasible(q2):
                        nx += [(q3, E.cat(r, r3)) for q3, r3 in expand(E, q2, br)]
            else:
                nx.append((q, E.cat(r, (x,))))
        out = nx
    return out


def tokens(E, s, p, stop=(), keys=None):
    """[(state, tokens)] of a text; loops appear as ('txt', (('loop', id),)) -> ('loop', id)"""
    r = []
    up = unfold(E, p, stop)
    if keys:
        up = prune(up, keys)
    for q, pp in expand(E, s, up):
        ts = []
        for t in objfmt.lex(E, q, tuple(y for x in pp for y in ((b' ', x, b' ') if isinstance(x, tuple) and x[0] in ('loop', 'abs') else (x,)))):
            if isinstance(t, tuple) and t[0] == 'txt' and len(t[1]) == 1:
                t = t[1][0]
            ts.append(t)
        r.append((q, ts))
    return r


def iterations(E, lid, pick):
    """[(base, after, [(state, tokens)])]: text appended by one iteration to the text `pick(state)`"""
    out = []
    for base, a in E.loops[lid]['its']:
        b = pick(base)
        if len(b) != 1 or b[0][0] != 'abs':
            raise Unsupported('loop text is not abstract')
        r = []
        for q, ts in tokens(E, a, pick(a), (b[0][1],)):
            if not ts or ts[0][:2] != ('abs', b[0][1]):
                raise Unsupported('a loop that does not only append')
            r.append((q, ts[1:]))
        out.append((base, a, r))
    return out


def indices(E, lid, size, first=0):
    """locations of a variable that counts the iterations first..size-1 (size: state -> term).  Proof obligations are settled here."""
    L = E.loops[lid]
    st = L['entry']
    if L.get('breaks'):
        return []
    cands = []
    if not L['its']:
        return []
    base, a = L['its'][0]
    for r, v0 in base.mem.items():
        v = E.force(v0, base) if isinstance(v0, LazyV) else v0
        if not z3.is_bv(v) or r not in a.mem or a.mem[r] is v0:
            continue
        cands.append(r)
    good = []
    for r in cands:
        ok = True
        v = st.mem.get(r)
        if v is None or not must(E, st, tobv(v, 64 if isinstance(v, int) else v.size()) == first):
            continue
        for base, a in L['its']:
            i, j = base.mem[r], a.mem.get(r)
            if not z3.is_bv(i) or j is None:
                ok = False
                break
            w = i.size()
            n = tobv(size(a), 64)
            iw = z3.ZeroExt(64 - w, i) if w < 64 else i
            if not must(E, a, z3.Implies(z3.ULE(iw, n), z3.And(tobv(j, w) == i + 1, z3.ULT(iw, n)))):    # induction hypothesis: i <= n
                ok = False
                break
        for base, a in L['exits']:
            if not ok:
                break
            i = base.mem[r]
            w = i.size()
            iw = z3.ZeroExt(64 - w, i) if w < 64 else i
            if not must(E, a, z3.Implies(z3.ULE(iw, tobv(size(a), 64)), z3.UGE(iw, tobv(size(a), 64)))):
                ok = False
        if ok:
            good.append(Loc(r))
    return good


def must(E, s, f):
    """the formula holds in the state"""
    return E.decide3(s, f) is True


def mentions(p, keys):
    """the pieces contain one of the byte strings"""
    for x in p:
        if isinstance(x, bytes):
            if any(k in x for k in keys):
                return True
        elif x[0] == 'choice' and (mentions(x[2], keys) or mentions(x[3], keys)):
            return True
    return False


def prune(p, keys):
    """alternatives that do not mention the keys are irrelevant: one opaque token"""
    out = []
    for x in p:
        if isinstance(x, tuple) and x[0] == 'choice':
            if mentions((x,), keys):
                out.append(('choice', x[1], tuple(prune(x[2], keys)), tuple(prune(x[3], keys))))
            else:
                out += [b' ', ('cls', 'any', 0), b' ']
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- objects in a token list
def parse(ts):
    """tokens -> list of values: ('dict', {key: [value tokens/values]}, order), ('arr', [..]), token"""
    pos = [0]

    def val():
        t = ts[pos[0]]
        pos[0] += 1
        if t == b'<<':
            d, order = {}, []
            while True:
                if pos[0] >= len(ts):
                    raise Unsupported('dictionary is not closed')
                k = ts[pos[0]]
                if k == b'>>':
                    pos[0] += 1
                    return ('dict', d, order)
                if isinstance(k, tuple) and (k[:2] == ('cls', 'any') or k[0] == 'cls' and str(k[1]).startswith('pairs')):
                    pos[0] += 1
                    continue
                if not (isinstance(k, bytes) and k[:1] == b'/'):
                    raise Unsupported('dictionary key %r' % (k,))
                pos[0] += 1
                v = val()
                d.setdefault(k, []).append(v)
                order.append(k)
        if t == b'[':
            a = []
            while True:
                if pos[0] >= len(ts):
                    raise Unsupported('array is not closed')
                if ts[pos[0]] == b']':
                    pos[0] += 1
                    return ('arr', a)
                a.append(val())
        if t in (b'>>', b']'):
            raise Unsupported('misplaced %r' % t)
        return t
    out = []
    while pos[0] < len(ts):
        out.append(val())
    return out


def wide(v, signed):
    if not is_z3(v):
        return z3.BitVecVal(int(v), 64)
    n = 64 - v.size()
    return v if n == 0 else z3.SignExt(n, v) if signed else z3.ZeroExt(n, v)


def is_num(t, v, signed=False):
    """formula: the token is the integer v"""
    if isinstance(t, bytes):
        try:
            return wide(v, signed) == int(t)
        except ValueError:
            return z3.BoolVal(False)
    if not (isinstance(t, tuple) and t[0] == 'fmt' and t[1] in ('u', 'i') and t[2] in ('', 'd')):
        return z3.BoolVal(False)
    return wide(t[3], t[1] == 'i') == wide(v, signed)


def is_ref(t, v):
    """formula: the token is a reference to object number v (32 bit term)"""
    if not (isinstance(t, tuple) and t[0] == 'ref'):
        return z3.BoolVal(False)
    return tobv(t[1], 32) == tobv(v, 32)


def one(d, k):
    """the single value of a key, or None"""
    x = d.get(k)
    return x[0] if x and len(x) == 1 else None
