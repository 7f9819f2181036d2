"""Contracts of the C library's file operations and of std::filesystem, with a ghost trace of what was done to files.
Every operation may fail; ghost['io'] is the tuple of (operation, details, succeeded) of the path."""
import z3
from .engine import *
from .models import model, methods, ctor, MODELS
from .values import *
from . import objfmt

PATH = 'std::filesystem::path'


def uid_():
    from .values import uid
    return uid()


# ---------------------------------------------------------------- paths are their text
@ctor(PATH)
def path_ctor(E, st, fr, t, a, e):
    if not a:
        return StrV(())
    return StrV(objfmt.text(E, st, a[0]))


@methods(PATH, 'operator+=', 'concat')
def path_cat(E, st, fr, c):
    v = E.force(E.load(st, c.obj), st)
    E.store(st, c.obj, StrV(E.cat(v.p, objfmt.text(E, st, c.args[0]))))
    return c.obj


@methods(PATH, 'operator=', 'assign')
def path_assign(E, st, fr, c):
    E.store(st, c.obj, StrV(objfmt.text(E, st, c.args[0])))
    return c.obj


@methods(PATH, 'replace_extension', 'replace_filename', 'remove_filename', 'operator/=', 'append', 'make_preferred')
def path_change(E, st, fr, c):
    # nothing is known about the result
    E.store(st, c.obj, E.str_fresh('path%d' % uid_()))
    return c.obj


@methods(PATH, 'string', 'native', 'u8string', 'generic_string')
def path_string(E, st, fr, c):
    return StrV(objfmt.text(E, st, c.obj))


@methods(PATH, 'c_str')
def path_cstr(E, st, fr, c):
    return MODELS['std::basic_string::c_str'](E, st, fr, c)


@methods(PATH, 'extension', 'parent_path', 'filename', 'stem', 'root_path', 'lexically_normal')
def path_part(E, st, fr, c):
    return E.str_fresh('path%d' % uid_())


@model('std::filesystem::operator/')
def path_div(E, st, fr, c):
    return E.str_fresh('path%d' % uid_())


# ---------------------------------------------------------------- error codes: 0 is success
@ctor('std::error_code')
def ec_ctor(E, st, fr, t, a, e):
    return z3.BitVecVal(0, 32) if not a else NotImplemented


@methods('std::error_code', 'operator bool')
def ec_bool(E, st, fr, c):
    return tobv(E.rv(st, c.obj), 32) != 0


@methods('std::error_code', 'value')
def ec_value(E, st, fr, c):
    return tobv(E.rv(st, c.obj), 32)


@methods('std::error_code', 'category')
def ec_cat(E, st, fr, c):
    return OpqV(c.type, 'errcat', None)


@model('std::error_category::message', 'std::error_code::message', 'strerror')
def ec_msg(E, st, fr, c):
    return E.str_fresh('msg%d' % uid_())


# ---------------------------------------------------------------- files
def io(st, op, info, ok):
    st.ghost['io'] = st.ghost.get('io', ()) + ((op, info, ok),)


def stream(E, st, v):
    """identity of a stream"""
    v = E.rv(st, v)
    return v.loc.root if isinstance(v, PtrV) and v.loc is not None else repr(v)


def install(E):
    def fopen(E2, st, fr, c):
        null = z3.Bool('nofile%d' % uid_())
        root = 'FILE!%d' % uid_()
        t = c.type
        loc = E2.heap(root, t.t, st, OpqV(t.t, root, None))
        mode = objfmt.text(E2, st, c.args[1])
        io(st, 'open', (StrV(objfmt.text(E2, st, c.args[0])), mode, loc.root), z3.Not(null))
        return PtrV(null, loc, None, t)

    def simple(op, good):
        def h(E2, st, fr, c):
            r = z3.BitVec('%s%d' % (op, uid_()), 32)
            ok = good(r)
            io(st, op, stream(E2, st, c.args[0]) if c.args else None, ok)
            return r
        return h

    def fileno(E2, st, fr, c):
        r = z3.BitVec('fd%d' % uid_(), 32)
        st.ghost['fd'] = st.ghost.get('fd', ()) + ((r, stream(E2, st, c.args[0])),)
        return r

    def sync(E2, st, fr, c):
        r = z3.BitVec('fsync%d' % uid_(), 32)
        fd = E2.rv(st, c.args[0])
        who = [x for f, x in st.ghost.get('fd', ()) if same_term(f, fd)]
        io(st, 'sync', who[0] if who else None, r == 0)
        return r

    def fwrite(E2, st, fr, c):
        r = z3.BitVec('written%d' % uid_(), 64)
        n = tobv(E2.rv(st, c.args[2]), 64)
        st.pc.append(z3.ULE(r, n))
        io(st, 'write', (E2.rv(st, c.args[0]), tobv(E2.rv(st, c.args[1]), 64), n, stream(E2, st, c.args[3])), r == n)
        return r

    def rename(E2, st, fr, c):
        a, b = (StrV(objfmt.text(E2, st, x)) for x in c.args[:2])
        if len(c.args) > 2:
            r = z3.BitVec('rename%d' % uid_(), 32)
            io(st, 'rename', (a, b), r == 0)
            E2.store(st, c.args[2], r)
            return VOID
        if c.type.k == 'void':
            if E2.choose(2):
                io(st, 'rename', (a, b), z3.BoolVal(False))
                raise CppThrow(OpqV(None, 'filesystem_error', None))
            io(st, 'rename', (a, b), z3.BoolVal(True))
            return VOID
        r = z3.BitVec('rename%d' % uid_(), 32)
        io(st, 'rename', (a, b), r == 0)
        return r

    def other(op):
        def h(E2, st, fr, c):
            a = []
            for x in c.args:
                try:
                    a.append(StrV(objfmt.text(E2, st, x)))
                except Unsupported:
                    pass
            io(st, op, tuple(a), z3.BoolVal(True))
            return VOID if c.type.k == 'void' else E2.fresh(c.type, '%s%d' % (op, uid_()), st)
        return h

    def ftell(E2, st, fr, c):
        return E2.fresh(c.type, 'ftell%d' % uid_(), st)
    ov = E.overrides
    ov['fopen'] = ov['fopen64'] = ov['std::fopen'] = fopen
    ov['fflush'] = ov['std::fflush'] = simple('flush', lambda r: r == 0)
    ov['fclose'] = ov['std::fclose'] = simple('close', lambda r: r == 0)
    ov['fileno'] = fileno
    ov['fsync'] = ov['fdatasync'] = sync
    ov['fwrite'] = ov['std::fwrite'] = fwrite
    ov['ftell'] = ov['ftello'] = ov['std::ftell'] = ftell
    for n in ('rename', 'std::rename', 'std::filesystem::rename'):
        ov[n] = rename
    for n in ('remove', 'std::remove', 'unlink', 'std::filesystem::remove', 'std::filesystem::remove_all', 'std::filesystem::copy', 'std::filesystem::copy_file',
              'std::filesystem::resize_file', 'truncate', 'std::filesystem::create_directories', 'link', 'symlink'):
        ov[n] = other(n.split('::')[-1])

    def dtor(E2, st, fr, loc, t):
        v = E2.force(E2.load(st, loc), st)
        if not isinstance(v, PtrV) or v.null is True or not t.args:
            return
        pt = t.args[0]
        if not isinstance(pt, (int, str)) and 'FILE' in repr(pt.key if hasattr(pt, 'key') else pt):
            # the deleter closes the stream, nobody looks at the result
            if v.null is False or E2.feasible(st, zbool(znot(v.null))):
                io(st, 'close', v.loc.root if v.loc is not None else None, z3.Bool('unseen%d' % uid_()))
    E.hooks['uptr_dtor'] = dtor
