"""Models of the library functions the repository uses (std, smallvec, log, fmt, ...).

Each model states what the callee does to values and memory; anything without a model is an
uninterpreted function of its arguments that may overwrite whatever it gets by `&mut`.
"""
import re
from .terms import *
from .terms import _atom
from . import engine as E_
from .engine import OPTION, RESULT, CF, INTS, FLOATS, strip_generics, strip_ref, _gargs

EX = {}
RX = []


def m(*paths):
    def d(f):
        for p in paths:
            EX[p] = f
        return f
    return d


# models that must win over a local implementation of the same trait method
OVERRIDE = {'core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'core::clone::Clone::clone'}


def lookup(path, f, target):
    if target is not None:
        if path in OVERRIDE and target.get('derived'):
            return EX[path]
        return None
    r = EX.get(path)
    if r is not None:
        return r
    for rx, g in RX:
        if rx.match(path):
            return g
    return None


def tup(*vs):
    return mk('agg', 'tuple', '', '', tuple(str(i) for i in range(len(vs))), tuple(vs))


# ------------------------------------------------------------------ logging and progress output: no effect on results
@m('log::max_level')
def _maxlvl(E, fr, st, ci):
    return mk('loglevel')


@m('log::__private_api_log', 'log::__private_api_log_lit', 'log::__private_api::log')
def _log(E, fr, st, ci):
    return UNIT


@m('core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::ge', 'core::cmp::PartialOrd::gt')
def _ord(E, fr, st, ci):
    a, b = (E.norm(st, x) for x in ci.args)
    op = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[ci.path.rsplit('::', 1)[1]]
    ty = strip_ref(ci.gargs[0]) if ci.gargs else ''
    if ty.startswith('log::') or 'LevelFilter' in ty or contains(b, lambda x: x.op == 'loglevel'):
        return FALSE  # logging is skipped
    if ty in INTS or ty in FLOATS:
        return E.bin2(st, op, a, b, ty)
    return mk('ord', op, a, b)


@m('core::cmp::PartialEq::eq')
def _eq(E, fr, st, ci):
    a, b = ci.args
    ty = strip_ref(ci.gargs[0]) if ci.gargs else ''
    if ty in INTS or ty in FLOATS:
        return E.bin2(st, 'Eq', E.norm(st, a), E.norm(st, b), ty)
    return E.eqvals(st, a, b)


@m('core::cmp::PartialEq::ne')
def _ne(E, fr, st, ci):
    a, b = ci.args
    ty = strip_ref(ci.gargs[0]) if ci.gargs else ''
    if ty in INTS or ty in FLOATS:
        return E.bin2(st, 'Ne', E.norm(st, a), E.norm(st, b), ty)
    # `ne` defaults to !eq of the (possibly local) eq
    return NOT(cond(_call_trait_eq(E, fr, st, ci)))


def _call_trait_eq(E, fr, st, ci):
    sty = strip_ref(ci.gargs[0]) if ci.gargs else ''
    c, tm = E.p.find_impl('core::cmp::PartialEq', 'eq', sty)
    if c is not None and not c.get('derived'):
        v = E.enter(fr, st, c, ci.args, tm, ci.argtys, ci.ret)
        return v if v is not None else FALSE
    return E.eqvals(st, *ci.args)


# ------------------------------------------------------------------ transparent functions
@m('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut',
   'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut', 'core::hint::must_use', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
   'alloc::string::String::as_str', 'smallvec::SmallVec::<A>::as_slice', 'core::iter::traits::collect::IntoIterator::into_iter_id',
   'std::path::Path::new', 'std::path::PathBuf::as_path', 'core::pin::Pin::<Ptr>::new', 'alloc::boxed::Box::<T, A>::as_ref', 'core::convert::identity',
   'std::path::Path::display', 'core::mem::manually_drop::ManuallyDrop::<T>::new', 'alloc::rcs::arc::Arc::<T, A>::as_ref')
def _id(E, fr, st, ci):
    return ci.args[0]


@m('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::vec::from_slice', 'smallvec::SmallVec::<A>::from_slice', 'alloc::slice::<impl [T]>::to_vec',
   'std::path::Path::to_path_buf', 'alloc::slice::<impl [T]>::into_vec', 'alloc::borrow::Cow::<\'_, B>::into_owned', 'alloc::string::ToString::to_string',
   'core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::clone::impls::clone')
def _clone(E, fr, st, ci):
    v = ci.args[0]
    if ci.path == 'alloc::string::ToString::to_string':
        v = E.norm(st, v)
        ty = strip_ref(ci.gargs[0]) if ci.gargs else ''
        if ty in INTS or ty in FLOATS or not (ty in ('str', 'alloc::string::String')):
            if v.op == 'fmt':
                return v
            if ty in ('str', 'alloc::string::String', ''):
                return v
            return mk('fmt', (('arg', 'display', v, 0),))
        return v
    if 'Option::<&T>' in ci.path:
        return opt_map(E, st, v, lambda x: E.deref(st, x))
    return E.deref(st, v) if v.op in ('ref', 'ite') else v


@m('alloc::boxed::box_assume_init_into_vec_unsafe')
def _vecmacro(E, fr, st, ci):
    # vec![..]: the array has just been stored behind the box
    v = ci.args[0]
    if v.op == 'call' and v.a[0].endswith('::new_uninit'):
        x = st.mem.pop(('p', v), None)
        return v if x is None else x
    return v


@m('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::rc::Rc::<T>::new', 'core::cell::RefCell::<T>::new', 'alloc::rcs::rc::Rc::<T>::new')
def _boxnew(E, fr, st, ci):
    return ci.args[0]


@m('core::convert::Into::into', 'core::convert::From::from', 'core::convert::TryInto::try_into')
def _into(E, fr, st, ci):
    a = ci.args[0]
    if ci.path.endswith('Into::into') and len(ci.gargs) >= 2:
        src, dst = ci.gargs[0], ci.gargs[1]
    elif ci.path.endswith('From::from') and len(ci.gargs) >= 2:
        dst, src = ci.gargs[0], ci.gargs[1]
    else:
        return NotImplemented
    # a local From impl for the pair?
    for c in E.p.impls.get(('core::convert::From', 'from'), []):
        if c['impl_self'] == dst or strip_generics(c['impl_self']) == strip_generics(dst):
            aty = c['locals'][1]
            if aty == src or (re.match(r'^[A-Z]\w*$', aty)) or (strip_generics(aty) == strip_generics(src) and strip_ref(aty) == strip_ref(src)):
                if len(_gargs(dst)) and c['impl_self'] != dst and not re.search(r'<.*\b[A-Z]\b', c['impl_self']):
                    continue
                gen = [g for g in c.get('generics') or [] if not g.startswith("'")]
                tm = {}
                if re.match(r'^[A-Z]\w*$', aty):
                    tm[aty] = src
                v = E.enter(fr, st, c, [a], tm, ci.argtys, ci.ret)
                return v
    s, d = strip_ref(src), strip_ref(dst)
    if s in INTS and d in FLOATS:
        return E.cast(fr, st, E.norm(st, a), {'from': s, 'to': d, 'ck': ''})
    if (s in INTS or s == 'bool') and d in INTS or s in FLOATS and d in FLOATS:
        return E.cast(fr, st, E.norm(st, a), {'from': s, 'to': d, 'ck': ''})
    if src == dst:
        return a
    if dst.startswith('alloc::boxed::Box') or dst.startswith('alloc::string::String') or dst.startswith('std::path::PathBuf') or dst.startswith('alloc::vec::Vec') or dst.startswith('smallvec'):
        return a if a.op != 'ref' else E.deref(st, a)
    if dst.startswith(OPTION):
        return E.some(a)
    if s.startswith('kissunits::') and d.startswith('kissunits::') and s != d:
        return mk('unitconv', s.split('::')[-1], d.split('::')[-1], E.deref(st, a) if a.op == 'ref' else a)
    return E.deref(st, a) if a.op == 'ref' else a


# ------------------------------------------------------------------ fmt
def decode_fmt(tpl, args):
    i, ai, out = 0, 0, []
    n = len(tpl)
    while i < n:
        b = tpl[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(('lit', bytes(tpl[i:i + b]).decode('utf8', 'replace')))
            i += b
        elif b == 0x80:
            ln = tpl[i] | tpl[i + 1] << 8
            i += 2
            out.append(('lit', bytes(tpl[i:i + ln]).decode('utf8', 'replace')))
            i += ln
        else:
            spec = []
            if b & 1:
                spec.append(tuple(tpl[i:i + 4]))
                i += 4
            if b & 2:
                spec.append(('w',) + tuple(tpl[i:i + 2]))
                i += 2
            if b & 4:
                spec.append(('p',) + tuple(tpl[i:i + 2]))
                i += 2
            if b & 8:
                ai = tpl[i] | tpl[i + 1] << 8
                i += 2
            a = args[ai] if ai < len(args) else None
            ai += 1
            kind, v = (a.a[0], a.a[1]) if a is not None and a.op == 'fmtarg' else ('?', a if a is not None else UNDEF)
            out.append(('arg', kind, v, str(spec) if spec else 0))
    return out


def mkfmt(parts):
    """canonical: nested formatted strings inlined, constants rendered, literals joined"""
    flat = []
    for p in parts:
        if p[0] == 'lit':
            flat.append(p)
        else:
            _, kind, v, spec = p
            if kind == 'display' and not spec:
                if v.op == 'fmt':
                    flat.extend(v.a[0])
                    continue
                if v.op == 'c' and v.a[0] in ('str', 'int', 'char'):
                    flat.append(('lit', str(v.a[1])))
                    continue
            flat.append(p)
    out = []
    for p in flat:
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        elif p[0] == 'lit' and p[1] == '':
            continue
        else:
            out.append(p)
    if len(out) == 1 and out[0][0] == 'lit':
        return S(out[0][1])
    return mk('fmt', tuple(out))


def _fmtarg(kind):
    def g(E, fr, st, ci):
        v = E.norm(st, ci.args[0])
        return mk('fmtarg', kind, v)
    return g


for k in ('display', 'debug', 'lower_exp', 'upper_exp', 'lower_hex', 'upper_hex', 'pointer', 'octal', 'binary'):
    EX["core::fmt::rt::Argument::<'_>::new_" + k] = _fmtarg(k)
EX["core::fmt::rt::Argument::<'_>::from_usize"] = _fmtarg('usize')


@m("core::fmt::Arguments::<'a>::new")
def _fmtnew(E, fr, st, ci):
    tpl = E.norm(st, ci.args[0])
    arr = E.norm(st, ci.args[1])
    if tpl.op == 'agg' and all(x.op == 'c' for x in tpl.a[4]):
        tpl = [x.a[1] for x in tpl.a[4]]
    elif tpl.op == 'c' and tpl.a[0] == 'bytes':
        tpl = list(tpl.a[1])
    else:
        return mk('fmtopaque', tpl, arr)
    if arr.op != 'agg':
        return mk('fmtopaque', mk('c', 'bytes', tuple(tpl)), arr)
    return mkfmt(decode_fmt(tpl, list(arr.a[4])))


@m("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _fmtstr(E, fr, st, ci):
    return E.norm(st, ci.args[0])


@m('alloc::fmt::format')
def _format(E, fr, st, ci):
    return ci.args[0]


# ------------------------------------------------------------------ writers
def wbase(v):
    while v.op in ('dirty', 'clean', 'mut'):
        v = v.a[0] if v.op != 'mut' else v.a[2]
    return v


def astext(v):
    """bytes of a text as this text"""
    while True:
        if v.op == 'call' and re.search(r'::(as_bytes|into_bytes|as_str|borrow|as_ref|deref)$', v.a[0]) and len(v.a[2]) == 1:
            v = v.a[2][0]
        elif v.op == 'c' and v.a[0] == 'bytes':
            try:
                return mk('c', 'str', bytes(v.a[1]).decode())
            except Exception:
                return v
        else:
            return v


@m('core::io::write::Write::write_fmt', 'core::io::write::Write::write_all', 'core::io::write::Write::write', 'core::fmt::Write::write_str',
   'core::fmt::Write::write_fmt', "core::fmt::Formatter::<'a>::write_fmt", "core::fmt::Formatter::<'a>::write_str", 'core::fmt::Write::write_char')
def _write(E, fr, st, ci):
    w, what = ci.args[0], E.norm(st, ci.args[1])
    if not ci.path.endswith('write_fmt'):
        what = lift(astext, what)
    # resolve chains of references to the writer itself
    p = w
    while p.op == 'ref':
        q = E.load(st, p)
        if q.op == 'ref':
            p = q
        else:
            break
    cur = E.load(st, p) if p.op == 'ref' else p
    wid = lift(wbase, cur)
    r = mk('call', ci.path, (), (wid, what), (fr.ctx, fr.bb))
    E.effect('write', ci.path, (p, what), st, fr, val=r, vals=(wid, what))
    if p.op == 'ref':
        E.store(st, p, lift(lambda q: mk('dirty', wbase(q)), cur))
    return r


@m('core::io::write::Write::flush')
def _flush(E, fr, st, ci):
    p = ci.args[0]
    while p.op == 'ref':
        q = E.load(st, p)
        if q.op == 'ref':
            p = q
        else:
            break
    cur = E.load(st, p) if p.op == 'ref' else p
    wid = lift(wbase, cur)
    r = mk('call', ci.path, (), (wid,), (fr.ctx, fr.bb))
    E.effect('flush', ci.path, (p,), st, fr, val=r, vals=(wid,))
    if p.op == 'ref':
        E.store(st, p, lift(lambda q: mk('clean', wbase(q)), cur))
    return r


@m('alloc::io::buffered::bufwriter::BufWriter::<W>::new', 'alloc::io::buffered::bufwriter::BufWriter::<W>::with_capacity')
def _bufw(E, fr, st, ci):
    v = mk('bufw', ci.args[-1])
    E.effect('bufwriter', ci.path, (ci.args[-1],), st, fr, val=v)
    return v


@m('alloc::io::buffered::bufwriter::BufWriter::<W>::into_inner')
def _into_inner(E, fr, st, ci):
    w = lift(wbase, ci.args[0])
    r = mk('call', ci.path, (), (w,), (fr.ctx, fr.bb))
    E.effect('flush', ci.path, (ci.args[0],), st, fr, val=r, vals=(w,))
    return r


# ------------------------------------------------------------------ file opening
@m('std::fs::OpenOptions::new')
def _oo_new(E, fr, st, ci):
    return mk('oopt', ())


def _oo_set(name):
    def f(E, fr, st, ci):
        p = target(E, st, ci.args[0])
        cur = E.load(st, p) if p.op == 'ref' else p
        v = ci.args[1]

        def one(q):
            if q.op != 'oopt':
                return mk('mut', 'OpenOptions', name, q)
            d = dict(q.a[0])
            d[name] = v
            return mk('oopt', tuple(sorted(d.items())))
        if p.op == 'ref':
            E.store(st, p, lift(one, cur))
            return p
        return lift(one, cur)
    return f


for _n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
    m('std::fs::OpenOptions::' + _n)(_oo_set(_n))


@m('progressing::Baring::has_progressed_significantly')
def _progressed(E, fr, st, ci):
    return _atom(mk('call', ci.path, (), (), (fr.ctx, fr.bb)))


@m('progressing::Baring::add', 'progressing::Baring::set', 'progressing::Baring::remember_significant_progress')
def _progress(E, fr, st, ci):
    # bars counting successes are used for more than output
    if ci.path.endswith('::add') and 'bernoulli' in (ci.argtys[0] if ci.argtys else ''):
        p = target(E, st, ci.args[0])
        if p.op == 'ref':
            x = E.load(st, p)
            v = E.norm(st, ci.args[1])
            E.effect('baradd', ci.path, ci.args, st, fr, vals=(x, v))
            E.store(st, p, mk('baradd', x, v))
    return UNIT


# ------------------------------------------------------------------ Option / Result
def opt_ty(ci, i=0):
    t = strip_ref(ci.argtys[i]) if ci.argtys else ''
    return strip_generics(t)


@m('core::ops::try_trait::Try::branch')
def _branch(E, fr, st, ci):
    x = ci.args[0]
    ty = strip_generics(strip_ref(ci.gargs[0]))

    def one(q):
        if q.op == 'agg' and q.a[0] == 'adt':
            if q.a[2] in ('Ok', 'Some'):
                return mk('agg', 'adt', CF, 'Continue', ('0',), (q.a[4][0],))
            return mk('agg', 'adt', CF, 'Break', ('0',), (mk('resid', q, ty),))
        if q is UNDEF:
            return UNDEF
        return mk('branch', q, ty)
    return lift(one, x)


@m('core::ops::try_trait::FromResidual::from_residual')
def _from_res(E, fr, st, ci):
    def one(q):
        if q.op == 'resid':
            x, ty = q.a
            if ty == OPTION:
                return E.NONE
            return E.err(E.err_payload(x))
        return E.err(q)
    return lift(one, ci.args[0])


def opt_map(E, st, x, f):
    c = E.is_(x, OPTION, 'Some')
    return ITE(restrict(c, st.pc), E.some(f(E.proj(x, ('vf', 'Some', '0', OPTION)))), E.NONE)


def guarded(E, st, c, f):
    """evaluate f under the additional condition c; the effects carry it"""
    pc = st.pc
    st.pc = AND(pc, c)
    if st.pc is FALSE:
        st.pc = pc
        return UNDEF
    mem0 = dict(st.mem)
    v = f()
    if v is None:
        v = UNDEF
        st.mem = mem0
        st.pc = AND(pc, NOT(c))
        return v
    # conditional memory
    if c is not TRUE:
        s1 = E_.St(st.mem, st.pc)
        s2 = E_.St(mem0, AND(pc, NOT(c)))
        mm = E.merge([s1, s2], ('g', id(c)))
        st.mem = mm.mem
        st.pc = OR(s1.pc, s2.pc)
    else:
        st.pc = pc if st.pc is AND(pc, c) else st.pc
    return v


def _some_or_ok(E, x, ty):
    return E.is_ok(x, ty)


@m('core::option::Option::<T>::expect', 'core::option::Option::<T>::unwrap', 'core::result::Result::<T, E>::expect', 'core::result::Result::<T, E>::unwrap',
   'core::option::Option::<T>::unwrap_unchecked', 'core::result::Result::<T, E>::unwrap_unchecked')
def _expect(E, fr, st, ci):
    x = ci.args[0]
    ty = RESULT if 'Result' in ci.path else OPTION
    if x.op == 'ite':
        x = restrict(x, st.pc)
    ok = restrict(E.is_ok(x, ty), st.pc)
    if ok is not TRUE:
        s = E_.St(st.mem, AND(st.pc, NOT(ok)))
        E.effect('panic', ci.path, (x,), s, fr, vals=(E.norm(st, x),))
    st.pc = AND(st.pc, ok)
    if st.pc is FALSE:
        return None
    return restrict(E.ok_payload(x, ty), st.pc)


@m('core::option::Option::<T>::unwrap_or', 'core::result::Result::<T, E>::unwrap_or')
def _unwrap_or(E, fr, st, ci):
    x, d = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    return ITE(E.is_ok(x, ty), E.ok_payload(x, ty), d)


@m('core::option::Option::<T>::unwrap_or_else', 'core::result::Result::<T, E>::unwrap_or_else')
def _unwrap_or_else(E, fr, st, ci):
    x, f = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    c = restrict(E.is_ok(x, ty), st.pc)
    d = guarded(E, st, NOT(c), lambda: E.call_value(fr, st, f, [] if ty == OPTION else [E.err_payload(x)]))
    return ITE(c, E.ok_payload(x, ty), d)


@m('core::option::Option::<T>::unwrap_or_default', 'core::result::Result::<T, E>::unwrap_or_default')
def _unwrap_or_default(E, fr, st, ci):
    x = ci.args[0]
    ty = RESULT if 'Result' in ci.path else OPTION
    rt = ci.ret or ''
    d = I(0) if rt in INTS else F(0) if rt in FLOATS else FALSE if rt == 'bool' else mk('default', rt)
    return ITE(E.is_ok(x, ty), E.ok_payload(x, ty), d)


@m('core::option::Option::<T>::is_some', 'core::result::Result::<T, E>::is_ok')
def _is_some(E, fr, st, ci):
    return E.is_ok(E.norm1(st, ci.args[0]), RESULT if 'Result' in ci.path else OPTION)


@m('core::option::Option::<T>::is_none', 'core::result::Result::<T, E>::is_err')
def _is_none(E, fr, st, ci):
    return NOT(E.is_ok(E.norm1(st, ci.args[0]), RESULT if 'Result' in ci.path else OPTION))


def norm1(self, st, v):
    """the pointee if v is a reference"""
    n = 0
    while v.op == 'ref' and n < 5:
        v = self.load(st, v)
        n += 1
    if v.op == 'ite':
        return lift(lambda q: self.norm1(st, q) if q.op == 'ref' else q, v)
    return v


E_.Engine.norm1 = norm1


@m('core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut', 'core::option::Option::<T>::as_deref', 'core::result::Result::<T, E>::as_ref')
def _opt_as_ref(E, fr, st, ci):
    p = ci.args[0]
    x = E.norm1(st, p)
    res = 'Result' in ci.path
    if p.op == 'ref':
        q = p
        while True:
            v = E.load(st, q)
            if v.op == 'ref':
                q = v
            else:
                break
        inner = E.extend(q, ('vf', 'Ok' if res else 'Some', '0', RESULT if res else OPTION))
    else:
        inner = E.ok_payload(x, RESULT if res else OPTION)
    if res:
        return ITE(E.is_(x, RESULT, 'Ok'), E.ok(inner), E.err(E.err_payload(x)))
    return ITE(E.is_(x, OPTION, 'Some'), E.some(inner), E.NONE)


@m('core::option::Option::<T>::ok_or')
def _ok_or(E, fr, st, ci):
    x, e = ci.args
    return ITE(E.is_(x, OPTION, 'Some'), E.ok(E.ok_payload(x, OPTION)), E.err(e))


@m('core::option::Option::<T>::ok_or_else')
def _ok_or_else(E, fr, st, ci):
    x, f = ci.args
    c = restrict(E.is_(x, OPTION, 'Some'), st.pc)
    e = guarded(E, st, NOT(c), lambda: E.call_value(fr, st, f, []))
    return ITE(c, E.ok(E.ok_payload(x, OPTION)), E.err(e))


@m('core::result::Result::<T, E>::ok')
def _ok(E, fr, st, ci):
    x = ci.args[0]
    return ITE(E.is_(x, RESULT, 'Ok'), E.some(E.ok_payload(x, RESULT)), E.NONE)


@m('core::result::Result::<T, E>::err')
def _errm(E, fr, st, ci):
    x = ci.args[0]
    return ITE(E.is_(x, RESULT, 'Ok'), E.NONE, E.some(E.err_payload(x)))


@m('core::option::Option::<T>::map')
def _omap(E, fr, st, ci):
    x, f = ci.args
    c = restrict(E.is_(x, OPTION, 'Some'), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, OPTION)]))
    return ITE(c, E.some(v), E.NONE)


@m('core::option::Option::<T>::map_or', 'core::result::Result::<T, E>::map_or')
def _omap_or(E, fr, st, ci):
    x, d, f = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    c = restrict(E.is_ok(x, ty), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, ty)]))
    return ITE(c, v, d)


@m('core::option::Option::<T>::map_or_else', 'core::result::Result::<T, E>::map_or_else')
def _omap_or_else(E, fr, st, ci):
    x, d, f = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    c = restrict(E.is_ok(x, ty), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, ty)]))
    w = guarded(E, st, NOT(c), lambda: E.call_value(fr, st, d, [] if ty == OPTION else [E.err_payload(x)]))
    return ITE(c, v, w)


@m('core::option::Option::<T>::is_some_and', 'core::result::Result::<T, E>::is_ok_and')
def _is_some_and(E, fr, st, ci):
    x, f = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    c = restrict(E.is_ok(x, ty), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, ty)]))
    return AND(c, cond(v)) if v is not UNDEF else FALSE


@m('core::option::Option::<T>::and_then', 'core::result::Result::<T, E>::and_then')
def _and_then(E, fr, st, ci):
    x, f = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    c = restrict(E.is_ok(x, ty), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, ty)]))
    return ITE(c, v, E.NONE if ty == OPTION else E.err(E.err_payload(x)))


@m('core::result::Result::<T, E>::map')
def _rmap(E, fr, st, ci):
    x, f = ci.args
    c = restrict(E.is_(x, RESULT, 'Ok'), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, RESULT)]))
    return ITE(c, E.ok(v), E.err(E.err_payload(x)))


@m('core::result::Result::<T, E>::map_err')
def _rmap_err(E, fr, st, ci):
    x, f = ci.args
    c = restrict(E.is_(x, RESULT, 'Ok'), st.pc)
    v = guarded(E, st, NOT(c), lambda: E.call_value(fr, st, f, [E.err_payload(x)]))
    return ITE(c, E.ok(E.ok_payload(x, RESULT)), E.err(v))


@m('core::option::Option::<T>::or', 'core::result::Result::<T, E>::or')
def _oor(E, fr, st, ci):
    x, y = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    return ITE(E.is_ok(x, ty), x, y)


@m('core::option::Option::<T>::or_else', 'core::result::Result::<T, E>::or_else')
def _oor_else(E, fr, st, ci):
    x, f = ci.args
    ty = RESULT if 'Result' in ci.path else OPTION
    c = restrict(E.is_ok(x, ty), st.pc)
    v = guarded(E, st, NOT(c), lambda: E.call_value(fr, st, f, [] if ty == OPTION else [E.err_payload(x)]))
    return ITE(c, x, v)


@m('core::option::Option::<T>::filter')
def _ofilter(E, fr, st, ci):
    x, f = ci.args
    c = restrict(E.is_(x, OPTION, 'Some'), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, [E.ok_payload(x, OPTION)]))
    return ITE(AND(c, cond(v)), x, E.NONE)


@m('core::option::Option::<T>::take', 'core::mem::take', 'core::mem::replace')
def _take(E, fr, st, ci):
    p = ci.args[0]
    old = E.load(st, p)
    if ci.path.endswith('replace'):
        E.store(st, p, ci.args[1])
    elif 'Option' in ci.path:
        E.store(st, p, E.NONE)
    else:
        E.store(st, p, mk('default', ci.gargs[0] if ci.gargs else ''))
    E.effect('store', ci.path, (p, E.load(st, p)), st, fr)
    return old


@m('core::mem::swap')
def _swap(E, fr, st, ci):
    a, b = ci.args
    va, vb = E.load(st, a), E.load(st, b)
    E.store(st, a, vb)
    E.store(st, b, va)
    return UNIT


@m('core::mem::drop')
def _mdrop(E, fr, st, ci):
    E.effect('drop', ci.gargs[0] if ci.gargs else '', (UNDEF, ci.args[0]), st, fr)
    return UNIT


# ------------------------------------------------------------------ numbers
@m('core::cmp::min', 'core::cmp::Ord::min')
def _min(E, fr, st, ci):
    a, b = (E.norm(st, x) for x in ci.args)
    ty = ci.gargs[0] if ci.gargs else ''
    if ty in INTS:
        return ITE(cond(E.bin2(st, 'Le', a, b, ty)), a, b)
    return mk('call', ci.path, (), (a, b), None)


@m('core::cmp::max', 'core::cmp::Ord::max')
def _max(E, fr, st, ci):
    a, b = (E.norm(st, x) for x in ci.args)
    ty = ci.gargs[0] if ci.gargs else ''
    if ty in INTS:
        return ITE(cond(E.bin2(st, 'Le', a, b, ty)), b, a)
    return mk('call', ci.path, (), (a, b), None)


def _arith(op):
    def g(E, fr, st, ci):
        a, b = (E.norm(st, x) for x in ci.args)
        ty = strip_ref(ci.gargs[0]) if ci.gargs else ''
        if ty in INTS or ty in FLOATS:
            return E.bin2(st, op, a, b, ty)
        return NotImplemented
    return g


for _p, _o in (('Add::add', 'Add'), ('Sub::sub', 'Sub'), ('Mul::mul', 'Mul'), ('Div::div', 'Div'), ('Rem::rem', 'Rem')):
    EX['core::ops::arith::' + _p] = _arith(_o)


def _arith_assign(op):
    def g(E, fr, st, ci):
        a, b = (E.norm(st, x) for x in ci.args)
        ty = strip_ref(ci.gargs[0]) if ci.gargs else ''
        if ty in INTS or ty in FLOATS:
            v = E.bin2(st, op, a, b, ty)
            E.store(st, ci.args[0], v)
            E.effect('store', '', (ci.args[0], v), st, fr)
            return UNIT
        return NotImplemented
    return g


for _p, _o in (('AddAssign::add_assign', 'Add'), ('SubAssign::sub_assign', 'Sub'), ('MulAssign::mul_assign', 'Mul'), ('DivAssign::div_assign', 'Div')):
    EX['core::ops::arith::' + _p] = _arith_assign(_o)


@m('core::ops::bit::Not::not')
def _not(E, fr, st, ci):
    a = E.norm(st, ci.args[0])
    if strip_ref(ci.gargs[0]) == 'bool':
        return NOT(cond(a))
    return NotImplemented


@m('core::mem::size_of')
def _size_of(E, fr, st, ci):
    return mk('sizeof', ci.gargs[0] if ci.gargs else '')


@m('core::default::Default::default')
def _default(E, fr, st, ci):
    t = ci.gargs[0] if ci.gargs else ''
    if t in INTS:
        return I(0)
    if t in FLOATS:
        return F(0)
    if t == 'bool':
        return FALSE
    if strip_generics(t) == OPTION:
        return E.NONE
    if strip_generics(t) in VECS:
        return EMPTY
    return mk('default', t)


@m('core::intrinsics::discriminant_value')
def _dv(E, fr, st, ci):
    return E.discr(E.norm1(st, ci.args[0]), strip_ref(ci.gargs[0]))


# ------------------------------------------------------------------ containers
VECS = {'alloc::vec::Vec', 'smallvec::SmallVec'}
EMPTY = mk('agg', 'array', '', '', (), ())


@m('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'smallvec::SmallVec::<A>::new', 'smallvec::SmallVec::<A>::with_capacity', 'alloc::vec::Vec::<T>::new_in')
def _vnew(E, fr, st, ci):
    return EMPTY


@m('alloc::string::String::new', 'alloc::string::String::with_capacity')
def _strnew(E, fr, st, ci):
    return S('')


@m('alloc::vec::from_elem', 'smallvec::SmallVec::<A>::from_elem')
def _from_elem(E, fr, st, ci):
    return mk('repeat', E.norm(st, ci.args[0]), ci.args[1])


@m('smallvec::SmallVec::<A>::from_vec', 'smallvec::SmallVec::<A>::from', 'smallvec::SmallVec::<A>::into_vec', 'smallvec::SmallVec::<A>::from_buf')
def _sv_from(E, fr, st, ci):
    return ci.args[0]


@m('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'smallvec::SmallVec::<A>::len', 'alloc::string::String::len', 'core::str::<impl str>::len')
def _len(E, fr, st, ci):
    return E.length(E.norm1(st, ci.args[0]))


@m('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'smallvec::SmallVec::<A>::is_empty', 'alloc::string::String::is_empty', 'core::str::<impl str>::is_empty')
def _is_empty(E, fr, st, ci):
    return izero(E.length(E.norm1(st, ci.args[0])))


def target(E, st, p):
    """innermost reference of a chain of references"""
    n = 0
    while p.op == 'ref' and n < 6:
        q = E.load(st, p)
        if q.op == 'ref':
            p = q
        else:
            break
        n += 1
    return p


@m('alloc::vec::Vec::<T, A>::push', 'smallvec::SmallVec::<A>::push')
def _push(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    x = ci.args[1]
    v = E.load(st, p)
    E.effect('push', ci.path, (p, x), st, fr, vals=(v, E.norm(st, x)))

    def one(q):
        if q.op == 'agg' and q.a[0] == 'array' and len(q.a[4]) < 24:
            return mk('agg', 'array', '', '', (), q.a[4] + (x,))
        return mk('push', q, x)
    E.store(st, p, lift(one, v))
    return UNIT


@m('alloc::vec::Vec::<T, A>::pop', 'smallvec::SmallVec::<A>::pop')
def _pop(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    r = mk('call', 'Vec::pop', (), (v,), (fr.ctx, fr.bb))
    E.effect('pop', ci.path, (p,), st, fr, val=r, vals=(v,))
    E.store(st, p, mk('popped', v if v.op != 'popped' else v.a[0]))
    return r


@m('alloc::vec::Vec::<T, A>::clear', 'smallvec::SmallVec::<A>::clear', 'alloc::collections::binary_heap::BinaryHeap::<T, A>::clear',
   'std::collections::hash::map::HashMap::<K, V, S, A>::clear', 'std::collections::hash::set::HashSet::<T, S, A>::clear', 'alloc::string::String::clear')
def _clear(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    E.effect('clear', ci.path, (p,), st, fr, vals=(E.load(st, p),))
    E.store(st, p, EMPTY)
    return UNIT


@m('alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'smallvec::SmallVec::<A>::shrink_to_fit', 'smallvec::SmallVec::<A>::reserve')
def _noop(E, fr, st, ci):
    E.effect('cap', ci.path, ci.args, st, fr)
    return UNIT


@m('alloc::vec::Vec::<T, A>::resize', 'smallvec::SmallVec::<A>::resize')
def _resize(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    E.effect('resize', ci.path, (p,) + tuple(ci.args[1:]), st, fr, vals=(v,) + tuple(E.norm(st, a) for a in ci.args[1:]))
    x = E.norm(st, ci.args[2])
    if v is EMPTY:
        E.store(st, p, mk('repeat', x, ci.args[1]))
    else:
        E.store(st, p, mk('resized', v, ci.args[1], x))
    return UNIT


@m('alloc::vec::Vec::<T, A>::truncate')
def _trunc(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    E.effect('truncate', ci.path, (p, ci.args[1]), st, fr, vals=(v, ci.args[1]))
    E.store(st, p, mk('truncated', v, ci.args[1]))
    return UNIT


@m('core::slice::<impl [T]>::reverse')
def _reverse(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    E.effect('reverse', ci.path, (p,), st, fr, vals=(v,))
    E.store(st, p, v.a[0] if v.op == 'reversed' else mk('reversed', v))
    return UNIT


@m('core::slice::<impl [T]>::swap')
def _sswap(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    E.effect('swap', ci.path, (p,) + tuple(ci.args[1:]), st, fr, vals=(v,) + tuple(ci.args[1:]))
    i, j = ci.args[1:]
    a, b = E.index(v, i), E.index(v, j)
    E.store(st, p, mk('swapped', v, i, j))
    return UNIT


RANGES = {'core::ops::range::Range', 'core::ops::range::RangeFrom', 'core::ops::range::RangeTo', 'core::ops::range::RangeInclusive', 'core::ops::range::RangeFull', 'core::ops::range::RangeToInclusive'}


def _index_ptr(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    i = ci.args[1]
    ity = ci.argtys[1] if ci.argtys else ''
    if strip_generics(ity) in RANGES or (i.op == 'agg' and i.a[1] in RANGES):
        v = E.norm1(st, p)
        r = E.norm(st, i)
        if r.op == 'agg' and r.a[1] == 'core::ops::range::RangeFull':
            return p
        E.effect('slice', ci.path, (p, r), st, fr, vals=(v, r))
        if r.op == 'agg' and r.a[1] == 'core::ops::range::RangeFrom':
            return mk('subfrom', v, r.a[4][0])
        return mk('subrange', v, r)
    i = E.norm(st, i)
    sty = strip_ref(ci.argtys[0]) if ci.argtys else ''
    if strip_generics(sty).startswith(('std::collections', 'alloc::collections', 'flat_map')):
        return NotImplemented
    E.effect('index', ci.path, (p, i), st, fr, vals=(E.load(st, p) if p.op == 'ref' else p, i))
    return E.extend(p, ('i', i))


EX['core::ops::index::Index::index'] = _index_ptr
EX['core::ops::index::IndexMut::index_mut'] = _index_ptr


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _get(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    i = E.norm(st, ci.args[1])
    v = E.load(st, p) if p.op == 'ref' else p
    if strip_generics(ci.argtys[1] if ci.argtys else '') in RANGES:
        return NotImplemented
    c = ineg(isub(i, E.length(v)), True)
    return ITE(c, E.some(E.extend(p, ('i', i))), E.NONE)


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def _first(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p) if p.op == 'ref' else p
    n = E.length(v)
    i = I(0) if 'first' in ci.path else isub(n, I(1))
    return ITE(NOT(izero(n)), E.some(E.extend(p, ('i', i))), E.NONE)


@m('core::slice::<impl [T]>::contains')
def _contains(E, fr, st, ci):
    v, x = E.norm(st, ci.args[0]), E.norm(st, ci.args[1])
    if v.op == 'agg' and v.a[0] == 'array':
        return OR(*[E.eqvals(None, q, x) for q in v.a[4]])
    return mk('call', ci.path, (), (v, x), None)


@m('core::ops::range::Range::<Idx>::contains', 'core::ops::range::RangeInclusive::<Idx>::contains')
def _rcontains(E, fr, st, ci):
    r, x = E.norm(st, ci.args[0]), E.norm(st, ci.args[1])
    ty = strip_ref(ci.gargs[0])
    if r.op == 'agg' and (ty in INTS or ty in FLOATS):
        lo, hi = r.a[4][0], r.a[4][1]
        up = 'Le' if 'Inclusive' in ci.path else 'Lt'
        return AND(cond(E.bin2(st, 'Le', lo, x, ty)), cond(E.bin2(st, up, x, hi, ty)))
    return NotImplemented


@m('core::ops::range::RangeInclusive::<Idx>::new')
def _ri_new(E, fr, st, ci):
    return mk('agg', 'adt', 'core::ops::range::RangeInclusive', 'RangeInclusive', ('start', 'end', 'exhausted'), (ci.args[0], ci.args[1], FALSE))


def _sort(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    j = mk('rng', fr.ctx, fr.bb, E.length(v), 'sort')
    key = None
    name = ci.path.rsplit('::', 1)[1]
    if len(ci.args) > 1:
        tmp = ('L', fr.ctx, 'sortelem', fr.bb)
        st.mem[tmp] = E.index(v, j)
        a = [mk('ref', tmp, ())]
        if name in ('sort_by', 'sort_unstable_by', 'dedup_by'):
            tmp2 = ('L', fr.ctx, 'sortelem2', fr.bb)
            st.mem[tmp2] = E.index(v, mk('rng', fr.ctx, fr.bb, E.length(v), 'sort2'))
            a.append(mk('ref', tmp2, ()))
        mem0 = dict(st.mem)
        key = E.call_value(fr, st, ci.args[1], a)
        key = E.norm(st, key) if key is not None else UNDEF
        st.mem = mem0
    E.effect('sort' if 'sort' in name else 'dedup', ci.path, (p, key if key is not None else UNDEF), st, fr, vals=(v, key if key is not None else UNDEF, j))
    E.store(st, p, mk('sorted' if 'sort' in name else 'deduped', v, name, key if key is not None else UNDEF, j))
    return UNIT


for _n in ('sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key'):
    EX['alloc::slice::<impl [T]>::' + _n] = _sort
for _n in ('sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key'):
    EX['core::slice::<impl [T]>::' + _n] = _sort
for _n in ('dedup', 'dedup_by_key', 'dedup_by'):
    EX['alloc::vec::Vec::<T, A>::' + _n] = _sort


@m('core::slice::<impl [T]>::binary_search_by_key', 'core::slice::<impl [T]>::binary_search_by')
def _bsearch(E, fr, st, ci):
    """search of a key in a list: (list, searched key, key of an element, position of this element)"""
    v = E.norm(st, ci.args[0])
    by = ci.path.endswith('_by')
    f = ci.args[1 if by else 2]
    j = mk('rng', fr.ctx, fr.bb, E.length(v), 'search')
    tmp = ('L', fr.ctx, 'searched', fr.bb)
    st.mem[tmp] = E.index(v, j)
    mem0 = dict(st.mem)
    n = len(E.eff)
    y = E.call_value(fr, st, f, [mk('ref', tmp, ())])
    st.mem = mem0
    if y is None:
        return NotImplemented
    y = E.norm(st, y)
    if by:
        if y.op == 'call' and y.a[0].endswith('::cmp') and len(y.a[2]) == 2 and not contains(y.a[2][1], lambda t: t is j):
            k, y = y.a[2][1], y.a[2][0]
        else:
            return NotImplemented
    else:
        k = E.norm(st, ci.args[1])
    r = mk('call', 'core::slice::<impl [T]>::binary_search_by_key', (), (v, k, y, j), None)
    E.effect('call', 'core::slice::<impl [T]>::binary_search_by_key', ci.args, st, fr, val=r, vals=(v, k, y, j))
    return r


# ------------------------------------------------------------------ iterators
def is_it(v):
    return v.op in ('it', 'itp')


def as_iter(E, st, v, ty=''):
    """iterator value of something iterable"""
    if v.op in ('it', 'itp'):
        return v
    if v.op == 'ite':
        r = restrict(v, st.pc)
        if r.op != 'ite':
            return as_iter(E, st, r, ty)
        return mk('it', 'opq', v)
    if v.op == 'ref':
        p = target(E, st, v)
        x = E.load(st, p)
        if x.op in ('it', 'itp') or _phi_iter(E, x) is not None:
            return mk('it', 'byref', p)
        if x.op == 'agg' and x.a[0] == 'adt' and x.a[1] in RANGES:
            return mk('it', 'byref', p)
        return mk('it', 'slice', p)
    if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] == 'core::ops::range::Range':
        return mk('it', 'range', v.a[4][0], v.a[4][1])
    if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] == 'core::ops::range::RangeInclusive':
        return mk('it', 'range', v.a[4][0], iadd(v.a[4][1], I(1)))
    if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] == 'core::ops::range::RangeFrom':
        return mk('it', 'range', v.a[4][0], mk('inf'))
    if strip_generics(ty) == OPTION or (v.op == 'agg' and v.a[1] == OPTION):
        return mk('it', 'opt', v)
    if v.op == 'agg' and v.a[0] == 'adt':
        return v  # a local iterator type: its `next` is analysed itself
    return mk('it', 'val', v)


def _phi_iter(E, x, d=0):
    """the iterator a loop-carried location was initialised with"""
    if x.op == 'phi' and d < 6:
        o = E.phi_ops.get(x)
        if o and o[0] is not None:
            return _phi_iter(E, o[0], d + 1)
        return None
    if x.op == 'itp':
        return x
    if x.op == 'it':
        return mk('itp', x, I(0))
    if x.op == 'agg' and x.a[0] == 'adt' and x.a[1] in RANGES:
        return mk('itp', as_iter(E, None, x), I(0))
    return None


def count_of(E, st, it):
    k = it.a[0]
    if k == 'slice':
        return E.length(E.load(st, it.a[1]))
    if k == 'val':
        return E.length(it.a[1])
    if k == 'range':
        return isub(it.a[2], it.a[1]) if it.a[2].op != 'inf' else it.a[2]
    if k in ('map', 'rev', 'enumerate', 'cloned'):
        return count_of(E, st, it.a[1])
    if k == 'windows':
        n = iadd(isub(E.length(it.a[1]), it.a[2]), I(1))
        return n if cint(n) is None or cint(n) >= 0 else I(0)
    if k == 'zip':
        a, b = count_of(E, st, it.a[1]), count_of(E, st, it.a[2])
        if a.op == 'inf':
            return b
        if b.op == 'inf':
            return a
        return a if a is b else mk('minlen', *sorted((a, b), key=lambda x: x.id))
    if k == 'skip':
        return isub(count_of(E, st, it.a[1]), it.a[2])
    if k == 'chain':
        a, b = count_of(E, st, it.a[1]), count_of(E, st, it.a[2])
        if all(x.op not in ('count', 'minlen', 'inf') for x in (a, b)):
            return iadd(a, b)
    return mk('count', it)


def elem_at(E, fr, st, it, j):
    """(extra condition, element) of iterator `it` at position j; None if the closure diverges"""
    k = it.a[0]
    if k == 'slice':
        return TRUE, E.extend(it.a[1], ('i', j))
    if k == 'val':
        return TRUE, E.index(it.a[1], j)
    if k == 'range':
        return TRUE, iadd(it.a[1], j)
    if k == 'windows':
        return TRUE, mk('subrange', it.a[1], mk('agg', 'adt', 'core::ops::range::Range', 'Range', ('start', 'end'), (j, iadd(j, it.a[2]))))
    if k == 'opt':
        return E.is_(it.a[1], OPTION, 'Some'), E.ok_payload(it.a[1], OPTION)
    if k == 'opq':
        return TRUE, mk('idx', it.a[1], j)
    if k == 'byref':
        x = E.load(st, it.a[1])
        i2 = _phi_iter(E, x)
        if i2 is not None:
            return elem_at(E, fr, st, i2.a[0], iadd(i2.a[1], j))
        return TRUE, mk('idx', x, j)
    if k == 'enumerate':
        r = elem_at(E, fr, st, it.a[1], j)
        if r is None:
            return None
        c, v = r
        n = j if c is TRUE else mk('nth', j)
        return c, tup(n, v)
    if k == 'zip':
        a = elem_at(E, fr, st, it.a[1], j)
        b = elem_at(E, fr, st, it.a[2], j)
        if a is None or b is None:
            return None
        return AND(a[0], b[0]), tup(a[1], b[1])
    if k == 'rev':
        n = count_of(E, st, it.a[1])
        if n.op in ('count', 'minlen', 'inf'):
            return elem_at(E, fr, st, it.a[1], mk('revidx', j))
        return elem_at(E, fr, st, it.a[1], isub(isub(n, I(1)), j))
    if k == 'skip':
        return elem_at(E, fr, st, it.a[1], iadd(j, it.a[2]))
    if k == 'take':
        return elem_at(E, fr, st, it.a[1], j)
    if k == 'stepby':
        return elem_at(E, fr, st, it.a[1], imul(j, it.a[2]))
    if k == 'cloned':
        r = elem_at(E, fr, st, it.a[1], j)
        if r is None:
            return None
        return r[0], E.norm1(st, r[1])
    if k == 'chain':
        a = elem_at(E, fr, st, it.a[1], j)
        n = count_of(E, st, it.a[1])
        ex = n.op not in ('count', 'minlen', 'inf')
        b = elem_at(E, fr, st, it.a[2], isub(j, n) if ex else j)
        if a is None or b is None:
            return None
        s = ineg(isub(j, n)) if ex else _atom(mk('chainfirst', j))
        return ITE(s, a[0], b[0]), ITE(s, a[1], b[1])
    if k in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
        r = elem_at(E, fr, st, it.a[1], j)
        if r is None:
            return None
        c, v = r
        if k == 'map':
            y = guarded(E, st, c, lambda: E.call_value(fr, st, it.a[2], [v]))
            return (c, y) if y is not UNDEF or v is UNDEF else None
        if k == 'inspect':
            tmp = ('L', fr.ctx, 'insp', fr.bb, it.id)
            st.mem[tmp] = v
            guarded(E, st, c, lambda: E.call_value(fr, st, it.a[2], [mk('ref', tmp, ())]))
            return c, v
        if k in ('filter', 'take_while', 'skip_while'):
            tmp = ('L', fr.ctx, 'filt', fr.bb, it.id)
            st.mem[tmp] = v
            y = guarded(E, st, c, lambda: E.call_value(fr, st, it.a[2], [mk('ref', tmp, ())]))
            if y is UNDEF:
                return None
            if k == 'skip_while':
                return c, v
            return AND(c, cond(y)), v
        y = guarded(E, st, c, lambda: E.call_value(fr, st, it.a[2], [v]))
        if y is UNDEF:
            return None
        c2 = E.is_(y, OPTION, 'Some')
        return AND(c, c2), restrict(E.ok_payload(y, OPTION), c2)
    if k in ('flat_map', 'flatten'):
        r = elem_at(E, fr, st, it.a[1], j)
        if r is None:
            return None
        c, v = r
        if k == 'flat_map':
            v = guarded(E, st, c, lambda: E.call_value(fr, st, it.a[2], [v]))
        inner = as_iter(E, st, v)
        if inner.op == 'itp':
            inner = inner.a[0]
        n = count_of(E, st, inner)
        j2 = mk('rng', fr.ctx, fr.bb, n, 'flat')
        r2 = elem_at(E, fr, st, inner, j2)
        if r2 is None:
            return None
        return AND(c, r2[0]), r2[1]
    return TRUE, mk('idx', it, j)


def plain(it):
    return it.a[0] if it.op == 'itp' else it


@m('core::slice::<impl [T]>::windows')
def _windows(E, fr, st, ci):
    p = target(E, st, ci.args[0]) if ci.args[0].op == 'ref' else ci.args[0]
    v = E.load(st, p) if p.op == 'ref' else p
    n = E.norm(st, ci.args[1])
    return mk('it', 'windows', v, n)


@m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::option::Option::<T>::iter')
def _iter(E, fr, st, ci):
    v = ci.args[0]
    if 'Option' in ci.path:
        return mk('it', 'opt', E.norm1(st, v))
    p = v if v.op != 'ref' else target(E, st, v)
    if p.op not in ('ref',):
        return mk('it', 'val', p) if p.op != 'ite' else mk('it', 'slice', p)
    return mk('it', 'slice', p)


@m('core::iter::traits::collect::IntoIterator::into_iter')
def _into_iter(E, fr, st, ci):
    return as_iter(E, st, ci.args[0], ci.argtys[0] if ci.argtys else '')


@m('alloc::vec::Vec::<T, A>::drain')
def _drain(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    r = E.norm(st, ci.args[1])
    E.effect('drain', ci.path, (p, r), st, fr, vals=(v, r))
    E.store(st, p, EMPTY if r.op == 'agg' and r.a[1].endswith('RangeFull') else mk('drained', v, r))
    if r.op == 'agg' and r.a[1].endswith('RangeFull'):
        return mk('it', 'val', v)
    return mk('it', 'val', mk('subrange', v, r))


def _adapt1(kind):
    def g(E, fr, st, ci):
        it = as_iter(E, st, ci.args[0], ci.argtys[0] if ci.argtys else '')
        if it.op == 'itp':
            it = it.a[0] if cint(it.a[1]) == 0 else mk('it', 'skip', it.a[0], it.a[1])
        return mk('it', kind, it, *ci.args[1:])
    return g


_IT = 'core::iter::traits::iterator::Iterator::'
for _k in ('map', 'filter', 'filter_map', 'enumerate', 'rev', 'take_while', 'skip_while', 'map_while', 'inspect', 'flat_map', 'flatten', 'skip', 'take'):
    EX[_IT + _k] = _adapt1(_k)
EX[_IT + 'step_by'] = _adapt1('stepby')
EX[_IT + 'cloned'] = EX[_IT + 'copied'] = _adapt1('cloned')


@m(_IT + 'peekable', _IT + 'fuse')
def _fuse(E, fr, st, ci):
    return as_iter(E, st, ci.args[0])


@m(_IT + 'by_ref')
def _byref(E, fr, st, ci):
    return ci.args[0]


@m(_IT + 'zip')
def _zip(E, fr, st, ci):
    a = as_iter(E, st, ci.args[0], ci.argtys[0] if ci.argtys else '')
    b = as_iter(E, st, ci.args[1], ci.argtys[1] if ci.argtys else '')
    f = lambda x: x.a[0] if x.op == 'itp' and cint(x.a[1]) == 0 else (mk('it', 'skip', x.a[0], x.a[1]) if x.op == 'itp' else x)
    return mk('it', 'zip', f(a), f(b))


@m(_IT + 'chain')
def _chain(E, fr, st, ci):
    a = as_iter(E, st, ci.args[0], ci.argtys[0] if ci.argtys else '')
    b = as_iter(E, st, ci.args[1], ci.argtys[1] if ci.argtys else '')
    return mk('it', 'chain', plain(a), plain(b))


@m('core::iter::adapters::zip::zip')
def _zipf(E, fr, st, ci):
    return _zip(E, fr, st, ci)


@m(_IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _next(E, fr, st, ci):
    back = ci.path.endswith('next_back')
    p = target(E, st, ci.args[0])
    x = E.load(st, p) if p.op == 'ref' else p
    if x.op == 'it' and x.a[0] == 'byref':
        p = x.a[1]
        x = E.load(st, p)
    loop = x.op == 'phi'
    base = _phi_iter(E, x)
    if base is None or back:
        r = mk('call', ci.path, (), (E.norm(st, x),), (fr.ctx, fr.bb))
        E.effect('call', ci.path, ci.args, st, fr, val=r, vals=(E.norm(st, x),))
        if p.op == 'ref':
            E.store(st, p, mk('mut', r, 0, x if x.op != 'mut' else x.a[2]))
        return r
    it, pos = base.a
    n = count_of(E, st, it)
    if loop:
        # an arbitrary iteration
        j = mk('rng', fr.ctx, fr.bb, isub(n, pos) if n.op not in ('inf', 'count', 'minlen') else n, '')
        E.store(st, p, mk('itp', it, mk('nextpos', j)))
        r = elem_at(E, fr, st, it, iadd(pos, j))
        if r is None:
            return mk('nx', it, j, TRUE, UNDEF, 'loop')
        E.elems[j] = (it, r[0], st.pc, (fr.fn['path'], fr.bb))
        return mk('nx', it, j, r[0], r[1], 'loop')
    j = pos
    E.store(st, p, mk('itp', it, iadd(pos, I(1))))
    r = elem_at(E, fr, st, it, j)
    jj = mk('at', j, it) if True else j
    if r is None:
        return mk('nx', it, jj, TRUE, UNDEF, 'seq')
    if n.op not in ('inf', 'count', 'minlen') and r[0] is TRUE:
        return ITE(ineg(isub(j, n), True), E.some(r[1]), E.NONE)
    return mk('nx', it, jj, r[0], r[1], 'seq')


def consume(E, fr, st, ci, tag, body):
    """run body(state, j, cond, elem) once for an arbitrary element; returns (rng, cond, result)"""
    x = ci.args[0]
    if x.op == 'ref':
        p = target(E, st, x)
        v = E.load(st, p)
        b = _phi_iter(E, v)
        if b is not None:
            x = b
            E.store(st, p, mk('itp', b.a[0], mk('end')))
    it = as_iter(E, st, x, ci.argtys[0] if ci.argtys else '')
    if it.op == 'itp':
        it = it.a[0] if cint(it.a[1]) == 0 else mk('it', 'skip', it.a[0], it.a[1])
    j = mk('rng', fr.ctx, fr.bb, count_of(E, st, it), '')
    out = {}

    def run(s):
        pc0 = s.pc
        r = elem_at(E, fr, s, it, j)
        if r is None:
            out['r'] = (TRUE, UNDEF, UNDEF)
            return
        c, v = r
        E.elems[j] = (it, c, s.pc, (fr.fn['path'], fr.bb))
        s.pc = AND(s.pc, _atom(mk('more', j)), c)
        if s.pc is FALSE:
            out['r'] = (c, v, UNDEF)
            s.pc = pc0
            return
        y = body(s, j, c, v)
        out['r'] = (c, v, y)

    E.pseudo_loop(fr, st, tag, run)
    c, v, y = out['r']
    return it, j, c, v, y


@m(_IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter', 'smallvec::SmallVec::<A>::from_iter')
def _collect(E, fr, st, ci):
    it, j, c, v, _ = consume(E, fr, st, ci, 'collect', lambda s, j, c, v: E.norm(s, v))
    v = E.norm(st, v)
    ret = ci.ret or ''
    if strip_generics(ret) == RESULT:
        ok = E.is_(v, RESULT, 'Ok')
        bad = _atom(mk('any', j, AND(c, NOT(ok))))
        if ok is TRUE:
            return E.ok(mk('collect', j, c, E.ok_payload(v, RESULT)))
        return ITE(bad, E.err(mk('firsterr', j, v)), E.ok(mk('collect', j, c, restrict(E.ok_payload(v, RESULT), ok))))
    if strip_generics(ret) == OPTION:
        ok = E.is_(v, OPTION, 'Some')
        bad = _atom(mk('any', j, AND(c, NOT(ok))))
        return ITE(bad, E.NONE, E.some(mk('collect', j, c, restrict(E.ok_payload(v, OPTION), ok))))
    # collecting a sequence unchanged is the sequence
    if c is TRUE and v.op == 'idx' and v.a[1] is j and not contains(v.a[0], lambda x: x is j):
        return v.a[0]
    return mk('collect', j, c, v)


@m(_IT + 'for_each')
def _for_each(E, fr, st, ci):
    f = ci.args[1]
    consume(E, fr, st, ci, 'each', lambda s, j, c, v: E.call_value(fr, s, f, [v]))
    return UNIT


@m(_IT + 'try_for_each')
def _try_for_each(E, fr, st, ci):
    f = ci.args[1]
    it, j, c, v, y = consume(E, fr, st, ci, 'each', lambda s, j, c, v: E.call_value(fr, s, f, [v]))
    if y is None or y is UNDEF:
        return mk('call', ci.path, (), (), (fr.ctx, fr.bb))
    ok = E.is_(y, RESULT, 'Ok')
    bad = _atom(mk('any', j, AND(c, NOT(ok))))
    return ITE(bad, E.err(mk('firsterr', j, y)), E.ok(UNIT))


@m(_IT + 'any', _IT + 'all')
def _any(E, fr, st, ci):
    f = ci.args[1]
    it, j, c, v, y = consume(E, fr, st, ci, 'any', lambda s, j, c, v: E.call_value(fr, s, f, [v]))
    if y is None or y is UNDEF:
        return mk('call', ci.path, (), (), (fr.ctx, fr.bb))
    return any_(E, st, it, j, c, cond(y), ci.path.endswith('all'))


def any_(E, st, it, j, c, y, neg):
    if neg:
        y = NOT(y)
    y = AND(c, y)
    n = cint(j.a[2])
    if n is not None and 0 <= n <= 8:
        # over a fixed number of elements: expand
        from .lib import rebuild
        r = OR(*[rebuild(E, y, pre={j: E.int(i) if hasattr(E, 'int') else mk('c', 'int', i)}) for i in range(n)], FALSE)
        return NOT(r) if neg else r
    c = TRUE
    r = _atom(mk('any', j, AND(c, y)))
    return NOT(r) if neg else r


@m(_IT + 'position', _IT + 'find', _IT + 'find_map', _IT + 'rposition')
def _position(E, fr, st, ci):
    f = ci.args[1]
    name = ci.path.rsplit('::', 1)[1]

    def body(s, j, c, v):
        if name == 'find':
            tmp = ('L', fr.ctx, 'find', fr.bb)
            s.mem[tmp] = v
            v = mk('ref', tmp, ())
        return E.call_value(fr, s, f, [v])
    it, j, c, v, y = consume(E, fr, st, ci, name, body)
    if y is None or y is UNDEF:
        return mk('call', ci.path, (), (), (fr.ctx, fr.bb))
    y = E.norm(st, y)
    ok = E.is_(y, OPTION, 'Some') if name == 'find_map' else cond(y)
    a = _atom(mk('any', j, AND(c, ok)))
    k = mk('first', j, AND(c, ok))
    sub = lambda t: rewrite(t, lambda x: k if x is j else x)
    if name in ('position', 'rposition'):
        return ITE(a, E.some(k), E.NONE)
    if name == 'find':
        return ITE(a, E.some(sub(v)), E.NONE)
    return ITE(a, E.some(sub(restrict(E.ok_payload(y, OPTION), ok))), E.NONE)


@m(_IT + 'sum', _IT + 'product')
def _sum(E, fr, st, ci):
    it, j, c, v, _ = consume(E, fr, st, ci, 'sum', lambda s, j, c, v: v)
    v = E.norm(st, v)
    isf = (ci.ret or '') in FLOATS
    return mk('sum' if 'sum' in ci.path else 'product', j, c, F(0) if isf else I(0), v)


@m(_IT + 'count')
def _count(E, fr, st, ci):
    it, j, c, v, _ = consume(E, fr, st, ci, 'count', lambda s, j, c, v: v)
    if c is TRUE:
        n = count_of(E, st, it)
        return n
    return mk('countif', j, c)


@m(_IT + 'fold')
def _fold(E, fr, st, ci):
    init, f = ci.args[1], ci.args[2]
    cell = ('L', fr.ctx, 'acc', fr.bb)
    st.mem[cell] = init

    def body(s, j, c, v):
        r = E.call_value(fr, s, f, [s.mem[cell], v])
        if r is not None:
            s.mem[cell] = r
        return r
    it, j, c, v, y = consume(E, fr, st, ci, 'fold', body)
    acc = st.mem.pop(cell)
    if c is not TRUE and y is not None:
        # elements filtered out leave the accumulator unchanged
        pass
    return loop_value(E, acc, j, c)


def loop_value(E, acc, j, c):
    """canonical form of an accumulator after a loop: sums and products"""
    if acc.op != 'phi':
        return acc
    ops = E.phi_ops.get(acc)
    if not ops or ops[0] is None or ops[1] is None:
        return acc
    init, nxt = ops
    if nxt.op == 'lin':
        cst, ms = nxt.a
        d = dict(ms)
        if d.get(acc) == 1:
            del d[acc]
            e = mklin(cst, d)
            if not contains(e, lambda x: x is acc):
                return mk('sum', j, c, init, e)
    if nxt.op == 'bin' and nxt.a[0] in ('Add', 'Mul'):
        a, b = nxt.a[1], nxt.a[2]
        for x, y in ((a, b), (b, a)):
            if x is acc and not contains(y, lambda q: q is acc):
                return mk('sum' if nxt.a[0] == 'Add' else 'product', j, c, init, y)
    return acc


@m(_IT + 'last', _IT + 'max', _IT + 'min', _IT + 'max_by', _IT + 'min_by', _IT + 'max_by_key', _IT + 'min_by_key', _IT + 'nth', _IT + 'unzip')
def _opq_consume(E, fr, st, ci):
    it, j, c, v, _ = consume(E, fr, st, ci, 'opq', lambda s, j, c, v: v)
    v = E.norm(st, v)
    if ci.path.endswith('unzip') and v.op == 'agg':
        return tup(mk('collect', j, c, v.a[4][0]), mk('collect', j, c, v.a[4][1]))
    r = mk('call', ci.path, (), (mk('collect', j, c, v),) + tuple(E.norm(st, a) for a in ci.args[1:] if a.op != 'agg'), None)
    return r


@m('core::iter::traits::exact_size::ExactSizeIterator::len')
def _elen(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    x = E.load(st, p) if p.op == 'ref' else p
    if is_it(x):
        return count_of(E, st, plain(x))
    return E.length(x)


@m('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::vec::Vec::<T, A>::append', 'smallvec::SmallVec::<A>::extend_from_slice')
def _extend(E, fr, st, ci):
    p = target(E, st, ci.args[0])
    v = E.load(st, p)
    it = as_iter(E, st, ci.args[1])
    it = plain(it)
    j = mk('rng', fr.ctx, fr.bb, count_of(E, st, it), '')
    r = elem_at(E, fr, st, it, j)
    if r is None:
        return None
    c, x = r
    x = E.norm(st, x)
    s = E_.St(st.mem, AND(st.pc, c))
    E.effect('push', ci.path, (p, x), s, fr, vals=(v, x), extra=('extend', j))
    E.store(st, p, mk('extended', v, mk('collect', j, c, x)))
    if ci.path.endswith('append'):
        E.store(st, ci.args[1], EMPTY)
    return UNIT


# ------------------------------------------------------------------ closures and function traits
@m('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def _callf(E, fr, st, ci):
    f, a = ci.args
    n = 0
    while f.op == 'ref' and n < 4:
        f = E.load(st, f)
        n += 1
    args = list(a.a[4]) if a.op == 'agg' else [a]
    return E.call_value(fr, st, f, args)


# ------------------------------------------------------------------ panics
@m('core::panicking::panic_display', 'core::panicking::panic_fmt', 'core::panicking::panic', 'std::panicking::begin_panic', 'core::panicking::assert_failed',
   'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'std::rt::panic_display', 'std::rt::begin_panic', 'core::option::expect_failed', 'core::option::unwrap_failed')
def _panic(E, fr, st, ci):
    E.effect('panic', ci.path, ci.args, st, fr, vals=tuple(E.norm(st, a) for a in ci.args))
    st.pc = FALSE
    return None


@m('std::process::exit')
def _exit(E, fr, st, ci):
    E.effect('exit', ci.path, ci.args, st, fr, vals=tuple(ci.args))
    st.pc = FALSE
    return None


# ------------------------------------------------------------------ strings
@m('core::str::<impl str>::parse', 'core::str::traits::FromStr::from_str')
def _parse(E, fr, st, ci):
    s = E.norm(st, ci.args[0])
    ty = ci.gargs[0]
    for c in E.p.impls.get(('core::str::traits::FromStr', 'from_str'), []):
        if c['impl_self'] == ty:
            return E.enter(fr, st, c, [ci.args[0]], {}, ci.argtys, ci.ret)
    r = mk('call', 'parse', (ty,), (s,), None)
    E.effect('call', ci.path, ci.args, st, fr, val=r, vals=(s,))
    return r


@m('core::ops::range::Range::<Idx>::is_empty')
def _rempty(E, fr, st, ci):
    r = E.norm(st, ci.args[0])
    if r.op == 'agg':
        return NOT(cond(E.bin2(st, 'Lt', r.a[4][0], r.a[4][1], 'usize')))
    return NotImplemented


# atomic orderings / misc that only forward
@m('core::iter::sources::repeat::repeat')
def _repeat(E, fr, st, ci):
    return mk('it', 'val', mk('repeat', ci.args[0], mk('inf')))


@m('core::iter::sources::once::once')
def _once(E, fr, st, ci):
    return mk('it', 'val', mk('agg', 'array', '', '', (), (ci.args[0],)))


@m('core::iter::sources::empty::empty')
def _iempty(E, fr, st, ci):
    return mk('it', 'val', EMPTY)


@m('core::cmp::Ordering::then_with')
def _then_with(E, fr, st, ci):
    a, f = ci.args
    ORD = 'core::cmp::Ordering'
    c = restrict(E.is_(a, ORD, 'Equal'), st.pc)
    v = guarded(E, st, c, lambda: E.call_value(fr, st, f, []))
    return ITE(c, v, a)
