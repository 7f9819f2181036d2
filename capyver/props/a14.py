"""A14: the C interface reports every failure by its error code, never otherwise."""
import json, os
from ..spec import *
from .. import callgraph, effects, native, objfmt, text, front
from . import a02, a07

NS = 'capypdf::internal::'
TABLE = os.path.join(os.path.dirname(__file__), 'a14_table.json')


def interface(prog):
    return [F for F in prog.fns if F.name.startswith('capy_') and F.cls is None and F.body is not None]


def local(F):
    """helpers of the file that implements the interface are verified together with its functions"""
    return F.file.endswith('capi.cpp') or F.isctor or F.name == NS + 'create_error'


def contract(E, throws):
    """every operation of the library may succeed, report an error, or raise an exception"""
    def h(E2, st, fr, G, this, argv, e):
        if local(G) or G.name.endswith('operator()') or not G.name.startswith(('capypdf', 'capy_')):
            return NotImplemented
        rv = callgraph.is_rvoe(G)
        may = throws.fn(G) is not None
        if not rv and not may and small(G):
            return NotImplemented
        rt = decay(G.tu.T(G.ret))
        c = E2.choose((2 if rv else 1) + (1 if may else 0))
        nm = G.name.split('::')[-1]
        st.ghost['ops'] = st.ghost.get('ops', ()) + (nm,)
        a07.havoc_frame(E2, st, G, this, argv)
        if this is not None and not G.const and not G.isctor:
            st.ghost['changed'] = st.ghost.get('changed', ()) + (nm,)
        if c and not (rv and c == 1):
            st.ghost['failed'] = st.ghost.get('failed', ()) + (nm,)
            raise CppThrow('any exception')
        if rv:
            r = a02.rvoe_fresh(E2, st, G)
            if c == 1:
                st.pc.append(z3.Not(zbool(r.ok)))
                st.ghost['failed'] = st.ghost.get('failed', ()) + (nm,)
            else:
                st.pc.append(zbool(r.ok))
                st.ghost['vals'] = st.ghost.get('vals', ()) + ((G, r),)
            return r
        return VOID if rt.k == 'void' else E2.fresh_result(st, fr, G.tu.T(G.ret), 'res!%s!%d' % (nm, uid()))
    return h


def small(G):
    return sum(1 for _ in callgraph.walk(G.body)) < 60


def setup(T, F, throws, null=False):
    E = T.engine(joint=lambda root, path: None, nopeel=True, check_null=null)
    E.hooks['anyfn'] = contract(E, throws)
    st = State()
    args = fresh_args(E, st, F)
    vals = [E.force(E.rv(st, a), st) for a in args]
    return E, st, args, vals


def pointee(E, st, v):
    return E.force(E.load(st, v.loc), st) if isinstance(v, PtrV) and v.loc is not None else None


def rc_of(E, s, v):
    return tobv(E.rv(s, v), 32)


def same_memory(E, s, st, roots):
    """what the arguments point to is as it was"""
    for r in roots:
        a, b = st.mem.get(r), s.mem.get(r)
        if a is b or same_val(a, b):
            continue
        if isinstance(a, LazyV) or isinstance(a, SV) and not a.f:
            t = getattr(b, 't', None)
            if t is None or t.k != 'rec' or isinstance(b, LazyV):
                if isinstance(b, LazyV) and b.name in (getattr(a, 'name', None), 'cast!' + r):
                    continue            # only looked at
                return False, r
            a = LazyV(t, a.name if isinstance(a, LazyV) and t.key == a.t.key else 'cast!' + r)
            a = E.force(a, s)
        try:
            if not all(text.must(E, s, zbool(f)) for _, f in eq_state(E, s, a, b)):
                return False, r
        except Unsupported:
            return False, r
    return True, ''


def t_outcome(F, outs, throws):
    def run(prog, T):
        E, st, args, vals = setup(T, F, throws)
        ret = F.tu.T(F.ret)
        if ret.k != 'int' and ret.k != 'enum':
            for s, k, v in call_fn(E, F, args, None, st):
                E.oblige(s, k == 'n', 'no exception leaves the function', fn=F.name)
            return
        pre = {}
        for p, v in zip(F.params, vals):
            if p['name'] in outs and isinstance(v, PtrV) and v.loc is not None:
                pre[p['name']] = (v, E.force(E.load(st, v.loc), st))
        n = 0
        for s, k, v in call_fn(E, F, args, None, st):
            if k != 'n':
                E.oblige(s, False, 'no exception leaves the function', fn=F.name)
                continue
            n += 1
            rc = rc_of(E, s, v)
            bad = s.ghost.get('failed', ())
            if bad:
                E.oblige(s, rc != 0, 'an error or exception inside the library becomes a nonzero error code', fn=F.name, detail=', '.join(bad))
            for name, (pv, x0) in sorted(pre.items()):
                x1 = E.force(E.load(s, pv.loc), s)
                kept = same_val(x0, x1) or (isinstance(x0, (z3.ExprRef,)) and isinstance(x1, z3.ExprRef) and x0.eq(x1))
                s1, s2 = s.copy(), s.copy()
                s1.pc.append(rc == 0)
                s2.pc.append(rc != 0)
                if kept:
                    E.oblige(s, rc != 0, 'a result is stored when success is reported', fn=F.name, detail=name)
                elif E.feasible(s2):
                    E.oblige(s2, unchanged(E, s2, x0, x1), 'nothing is stored when an error is reported', fn=F.name, detail=name)
                if not kept and E.feasible(s1):
                    whole(E, s1, x1, F, name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def unchanged(E, s, a, b):
    try:
        return z3.And(*[zbool(f) for _, f in eq_state(E, s, a, b)] or [z3.BoolVal(True)])
    except Unsupported:
        return False


def whole(E, s, x, F, name):
    """the stored result is what the operation produced (when the operation produces a value of this type)"""
    want = [r for G, r in s.ghost.get('vals', ()) if r.t.args and r.t.args[0].key == typename(x)]
    if not want:
        return
    w = E.force(want[-1].v, s)
    try:
        f = unchanged(E, s, w, x)
    except Unsupported:
        return
    E.oblige(s, f, 'the stored result is the one the operation produced', fn=F.name, detail=name)


def typename(x):
    t = getattr(x, 't', None)
    return t.key if t is not None and hasattr(t, 'key') else None


def t_reject(F, kind, name, throws):
    """a bad argument is rejected before anything is changed"""
    def run(prog, T):
        E, st, args, vals = setup(T, F, throws, kind == 'null')
        hit = [v for p, v in zip(F.params, vals) if p['name'] == name]
        if not hit:
            idx = None
            E.oblige(State(), False, 'the parameter exists', fn=F.name, detail=name)
            return
        v = hit[0]
        if kind == 'null':
            st.pc.append(zbool(v.null))
        elif kind == 'bool':
            b = tobv(v, 32)
            st.pc.append(z3.Or(b < 0, b > 1))
        else:
            w = v.size() if z3.is_bv(v) else 32
            st.pc.append(tobv(v, w) < -1)
        for x in vals:
            if isinstance(x, PtrV) and x is not v:
                st.pc.append(z3.Not(zbool(x.null)))      # the other arguments are there
        for x in vals:
            if isinstance(x, PtrV) and x.loc is not None:
                E.force(E.load(st, x.loc), st) if not isinstance(E.load(st, x.loc), LazyV) else None
        roots = [x.loc.root for x in vals if isinstance(x, PtrV) and x.loc is not None and x is not v]
        n = 0
        what = {'null': 'a null pointer that is checked for is rejected', 'bool': 'a boolean that is neither 0 nor 1 is rejected', 'len': 'a length below -1 is rejected'}[kind]
        for s, k, r in call_fn(E, F, args, None, st):
            n += 1
            if k != 'n':
                E.oblige(s, False, 'no exception leaves the function', fn=F.name)
                continue
            E.oblige(s, rc_of(E, s, r) != 0, what, fn=F.name, detail=name)
            same, root = same_memory(E, s, st, roots)
            same = same and not s.ghost.get('changed')
            E.oblige(s, same, 'a bad argument is rejected before anything is changed', fn=F.name, detail='%s: %s' % (name, root))
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_nothrow(prog, T):
    E = T.engine()
    th = effects.Throws(prog)
    fs = interface(prog)
    for F in fs:
        r = th.fn(F)
        E.oblige(State(), r is None, 'no exception leaves the function', fn=F.name, detail=r)
    if len(fs) < 250:
        E.oblige(State(), False, 'the interface is there', fn='capi')
    # destructors that run while the interface works
    used = {}
    for F in callgraph.reach(prog, fs):
        for d in callgraph.walk(F.body):
            if isinstance(d.get('t'), int) and 'id' in d and 'name' in d:
                t = decay(F.tu.T(d['t']))
                if t.k == 'rec' and t.rec is not None and t.rec.dtor is not None:
                    used[t.nn] = t
    for F in prog.fns:
        if '::~' in F.name and F.body is not None and F.name.split('::~')[0] in used:
            E.oblige(State(), th.fn(F) is None, 'no exception leaves a destructor', fn=F.name, detail=th.fn(F))


def t_codes(prog, T):
    """no error is reported with the code of success"""
    E = T.engine()
    n = 0
    code0 = [x for x in prog.enums if x.endswith('internal::ErrorCode')]
    vals = prog.enums[code0[0]]['values']
    names = {v: k for k, v in vals.items()}
    seen = set()
    for F in prog.fns:
        if F.body is None or not F.name.startswith('capy'):
            continue
        for X in [F] + callgraph.closures(F):
            for d in callgraph.walk(X.body):
                f = d.get('f')
                if not isinstance(f, dict):
                    continue
                if f.get('n') == NS + 'create_error':
                    c = const_of(d['a'][0])
                    n += 1
                    E.oblige(State(), c is not None and c != 0, 'an error has a code other than success', fn=F.name, line=d.get('l'), detail=repr(c))
                elif norm(f.get('n', '')).startswith('std::unexpected::unexpected') and F.name != NS + 'create_error':
                    a = d.get('a', [])
                    if not a or is_error_call(a[0]) or const_of(a[0]) not in (None, 0):
                        n += 1
                        E.oblige(State(), bool(a), 'an error has a code other than success', fn=F.name, line=d.get('l'))
                    elif copied(F, X, a[0]):
                        continue
                    else:
                        n += 1
                        E.oblige(State(), const_of(a[0]) is None and nonzero_local(X, a[0]), 'an error has a code other than success', fn=F.name, line=d.get('l'))
    if n < 200:
        E.oblige(State(), False, 'errors are created somewhere', fn='errors')


def norm(n):
    return front.norm_name(n)


def const_of(n):
    while isinstance(n, dict):
        if n.get('e') in ('int', 'enum', 'const') and isinstance(n.get('v'), (int, str)):
            try:
                return int(n['v'])
            except ValueError:
                return None
        if 'x' in n and isinstance(n['x'], dict):
            n = n['x']
            continue
        if n.get('a') and len(n['a']) == 1:
            n = n['a'][0]
            continue
        return None
    return None


def is_error_call(n):
    return any(isinstance(d.get('f'), dict) and norm(d['f'].get('n', '')) == 'std::expected::error' for d in callgraph.walk(n))


def copied(F, X, n):
    """copy of an existing error value"""
    t = decay(X.tu.T(n['t'])) if isinstance(n, dict) and isinstance(n.get('t'), int) else None
    return t is not None and t.k == 'rec' and t.nn == 'std::unexpected'


def nonzero_local(X, n):
    return False


def table():
    return json.load(open(TABLE))


def tasks(prog, tier):
    th = effects.Throws(prog)
    tab = table()
    fs = {F.name: F for F in interface(prog)}
    ts = [Task('exceptions', t_nothrow, 200, 250), Task('error codes', t_codes, 200, 100)]
    for n, F in sorted(fs.items()):
        t = tab.get(n, {})
        outs = [F.params[i]['name'] for i in t.get('out', ()) if i < len(F.params)]
        ts.append(Task(n, t_outcome(F, outs, th), 100, 0))
        for kind in ('null', 'bool', 'len'):
            for name in t.get(kind, ()):
                i = int(name)
                if i < len(F.params):
                    ts.append(Task('%s %s %s' % (n, kind, F.params[i]['name']), t_reject(F, kind, F.params[i]['name'], th), 100, 1))
    for n in tab:
        if n not in fs:
            ts.append(Task('%s is gone' % n, missing(n), 10, 1))
    return ts


def missing(n):
    def run(prog, T):
        raise Unsupported('function %s is not in the source' % n)
    return run


def replay(tier, seed):
    r = native.run_harness('h_capi', [tier, str(seed)], timeout=600)
    if tier != 'quick':
        r2 = native.run_harness('h_capi', ['quick', str(seed + 1)], san='asan', timeout=900)
        r['fails'] += r2['fails']
        r['evaluations'] += r2['evaluations']
    return r


HOW = 'harness/h_capi.cpp: every exported function called with ordinary arguments, with every bad argument of the reviewed table and with a failing memory allocation at each point inside the call'
ASSUME = ['a handle points to the object the library created for its type',
          'functions outside the library (standard library, FreeType, lcms2, image libraries) report failure by return value or C++ exception only; std::terminate by memory exhaustion inside noexcept functions is not modelled',
          'the argument checks expected of each function are the reviewed table capyver/props/a14_table.json']
