"""Interprocedural value-flow analysis over MIR.

`Engine.run(fn)` computes, without executing anything, for one function with everything local inlined:
the returned value, the final content of memory reachable from its arguments and the list of effects
(calls, stores, writes, panics), each as a term over the arguments together with the condition (a decision
diagram over atomic facts) under which control reaches it.  Loops are solved by fixpoint iteration with
one symbolic phi per location that changes; `for x in v` and `for i in 0..v.len()` yield the same terms.
"""
import re
from .terms import *

INTS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
FLOATS = {'f32', 'f64'}
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
PCCAP, VALCAP = 3000, 3000
CF = 'core::ops::control_flow::ControlFlow'


class Effect:
    __slots__ = ('kind', 'name', 'args', 'pc', 'ctx', 'bb', 'fn', 'sp', 'loops', 'val', 'n', 'vals', 'ret', 'extra')

    def __repr__(self):
        return '<%s %s%s | %s @%s:%s>' % (self.kind, _short(self.name), show(tuple(self.args), 7), show(self.pc, 6), self.sp[0] if self.sp else '', self.sp[1] if self.sp else '')

    def where(self):
        return '%s:%s' % (self.sp[0], self.sp[1]) if self.sp else self.fn

    def loc(self):
        return '%s in %s' % (self.where(), self.fn)


class St:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self):
        return St(dict(self.mem), self.pc)


class Frame:
    __slots__ = ('fn', 'ctx', 'tmap', 'depth', 'bb', 'keys')


class Budget(Exception):
    pass


class Body:
    """control-flow facts of one MIR body"""

    def __init__(self, fn):
        self.fn = fn
        bl = fn['blocks']
        n = len(bl)
        self.succ = [self._succ(b['t']) for b in bl]
        order, seen, onst = [], set(), set()
        self.back = set()
        # iterative DFS
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        onst.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
                elif s in onst:
                    self.back.add((b, s))
            else:
                st.pop()
                onst.discard(b)
                order.append(b)
        order.reverse()
        self.rpo = order
        self.num = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        self.loops = {}  # header -> set of blocks
        for (b, h) in self.back:
            body = self.loops.setdefault(h, {h})
            stk = [b]
            while stk:
                x = stk.pop()
                if x in body:
                    continue
                body.add(x)
                stk.extend(pred[x])
        self.inner = {}
        for b in order:
            hs = [h for h, bs in self.loops.items() if b in bs]
            hs.sort(key=lambda h: len(self.loops[h]))
            self.inner[b] = hs  # innermost first

    @staticmethod
    def _succ(t):
        k = t['t']
        if k == 'goto':
            return [t['to']]
        if k == 'switch':
            r = []
            for _, b in t['targets']:
                if b not in r:
                    r.append(b)
            if t['otherwise'] is not None and t['otherwise'] not in r:
                r.append(t['otherwise'])
            return r
        if k in ('call', 'assert', 'drop'):
            return [t['to']] if t['to'] is not None else []
        return []


class Program:
    def __init__(self, facts):
        self.fns = {}
        self.adts = {}
        self.by_path = {}
        self.impls = {}
        for n, d in facts.items():
            for a in d['adts']:
                o = self.adts.get(a['path'])
                if o is None or (a.get('local') and not o.get('local')):
                    self.adts[a['path']] = a
            for f in d['fns']:
                f['crate'] = n
                self.fns[f['key']] = f
                self.by_path.setdefault(f['path'], []).append(f)
                if f.get('impl_trait_path'):
                    self.impls.setdefault((f['impl_trait_path'], f['name']), []).append(f)
        self._body = {}

    def body(self, fn):
        b = self._body.get(id(fn))
        if b is None:
            b = self._body[id(fn)] = Body(fn)
        return b

    def find(self, path, crate=None):
        l = self.by_path.get(path, [])
        if crate:
            l = [f for f in l if f['crate'] == crate]
        return l[0] if l else None

    def find_impl(self, trait, method, ty):
        """the local implementation of a trait's method for a type, and its type arguments; exact implementations win over generic ones"""
        l = self.impls.get((trait, method), [])
        for c in l:
            if c['impl_self'] == ty:
                return c, {}
        for c in sorted(l, key=lambda c: -len(c['impl_self'])):
            gen = [g for g in c.get('generics') or [] if not g.startswith("'")]
            if not gen or c['impl_self'] in gen:
                continue
            tm = unify(c['impl_self'], ty, gen)
            if tm is not None:
                return c, tm
        return None, {}

    def variants(self, adt):
        a = self.adts.get(strip_generics(adt))
        return a['variants'] if a else None


def unify(pat, ty, gen):
    """types as text: the generics making pat equal to ty; None if there are none"""
    tok = lambda s: re.findall(r"'\w+|[\w:]+|[^\s\w]", re.sub(r"&'\w+ ", '&', s))
    P, T = tok(pat), tok(ty)

    def go(i, j, tm):
        if i == len(P):
            return tm if j == len(T) else None
        if P[i] in gen:
            d = 0
            for e in range(j, len(T)):
                if T[e] in '<([':
                    d += 1
                elif T[e] in '>)]':
                    d -= 1
                if d < 0 or (d == 0 and T[e] == ','):
                    break
                if d == 0 and e + 1 <= len(T):
                    v = ''.join(T[j:e + 1]).replace(',', ', ')
                    if tm.get(P[i], v) == v:
                        r = go(i + 1, e + 1, dict(tm, **{P[i]: v}))
                        if r is not None:
                            return r
            return None
        return go(i + 1, j + 1, tm) if j < len(T) and P[i] == T[j] else None
    return go(0, 0, {})


def strip_generics(t):
    i = t.find('<')
    if t.startswith('<'):
        return t
    return t[:i] if i >= 0 else t


def _gargs(t):
    """top-level generic arguments of a type string"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return []
    s, d, cur, out = t[i + 1:-1], 0, '', []
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_ref(t):
    while True:
        m = re.match(r"&('[a-z_0-9]+ )?(mut )?", t)
        if m and t.startswith('&'):
            t = t[m.end():]
        else:
            return t


BOXY = {'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::pin::Pin', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::maybe_dangling::MaybeDangling'}


_MORES = {}


def mores_of(c):
    """loop positions a condition asks for"""
    r = _MORES.get(c)
    if r is None:
        out, seen, st = set(), set(), [c]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'ite':
                st += x.a
            elif x.op == 'more':
                out.add(x)
        r = _MORES[c] = frozenset(out)
    return r


class Engine:
    def __init__(self, prog, max_depth=40, max_steps=400000, no_inline=()):
        self.p = prog
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.no_inline = set(no_inline)
        self.init()

    def init(self):
        self.eff = []
        self.loopstack = []
        self.phi_sticky = {}
        self.phi_ops = {}
        self.back_pc = {}
        self.exits = {}
        self.elems = {}
        self.lens = {}
        self.phi_care = {}
        self.ctxs = {}
        self.ctxinfo = {}
        self.tmaps = {}
        self.steps = 0
        self.inlined = set()
        self.opaque_local = set()
        self.notes = set()
        self.prom = {}
        self._triv = {}

    # -------------------------------------------------------------- entry
    def run(self, fn, args=None, assume=None, tmap=None, pre=None):
        """analyse fn.  args: {index: value} overrides; assume: f(list of pointee values)->cond"""
        self.init()
        if isinstance(fn, str):
            f = self.p.find(fn) or self.p.fns.get(fn)
            if f is None:
                raise KeyError(fn)
            fn = f
        mem = {}
        vals = []
        names = {}
        for n, p in fn['names']:
            if len(p) == 1 and 1 <= p[0] <= fn['argc']:
                names.setdefault(p[0], n)
        for i in range(fn['argc']):
            ty = fn['locals'][i + 1]
            v = (args or {}).get(i)
            if v is None:
                v = mk('arg', i)
            if ty.startswith('&') and v.op != 'ref':
                cell = ('A', i)
                mem[cell] = v
                v = mk('ref', cell, ())
            vals.append(v)
        st = St(mem, TRUE)
        if pre:
            pre(self, st)
        if assume is not None:
            st.pc = assume([self.norm(st, v) for v in vals])
        fr = Frame()
        fr.fn, fr.ctx, fr.tmap, fr.depth, fr.bb, fr.keys = fn, 0, tmap or {}, 0, 0, ()
        ret = self.inline(fn, vals, st, fr, dict(tmap or {}), root=True)
        self.final = st
        self.ret = ret
        self.argvals = vals
        return ret

    def ctx(self, parent, bb, key, sp=None):
        k = (parent, bb, key)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
            self.ctxinfo[c] = k
        return c

    def chain(self, ctx):
        """call chain of a context, outermost first: [(caller ctx, bb, callee key)]"""
        out = []
        while ctx in self.ctxinfo:
            k = self.ctxinfo[ctx]
            out.append(k)
            ctx = k[0]
        return out[::-1]

    # -------------------------------------------------------------- effects
    def effect(self, kind, name, args, st, fr, sp=None, val=None, vals=None, ret=None, extra=None):
        e = Effect()
        e.kind, e.name, e.args, e.pc = kind, name, tuple(args), st.pc
        e.ctx, e.bb, e.fn = fr.ctx, fr.bb, fr.fn['path']
        e.sp = sp if sp is not None else fr.fn['blocks'][fr.bb]['t'].get('sp')
        e.loops = tuple(self.loopstack)
        e.val = val
        e.vals = vals
        e.ret = ret
        e.extra = extra
        e.n = len(self.eff)
        self.eff.append(e)
        return e

    # -------------------------------------------------------------- memory
    def load(self, st, ptr):
        if ptr.op == 'ite':
            ptr = restrict(ptr, st.pc)
            return lift(lambda q: self.load(st, q), ptr)
        if ptr.op != 'ref':
            if ptr is UNDEF:
                return UNDEF
            return self._rd(st, ('p', ptr), ())
        return self._rd(st, ptr.a[0], ptr.a[1])

    def _rd(self, st, cell, path):
        v = self.prom.get(cell) if cell[0] == 'P' else st.mem.get(cell)
        if v is None:
            v = cell[1] if cell[0] == 'p' else (mk('arg', cell[1]) if cell[0] == 'A' else UNDEF)
        for e in path:
            if v.op == 'ite':
                v = restrict(v, st.pc)
            v = self.proj(v, e)
        if v.op == 'ite':
            v = restrict(v, st.pc)
        return v

    def store(self, st, ptr, x):
        if ptr.op == 'ite':
            ptr = restrict(ptr, st.pc)
        if ptr.op == 'ite':
            for c, q in leaves(ptr):
                if q is UNDEF:
                    continue
                old = self.load(st, q)
                self.store(st, q, ITE(c, x, old))
            return
        if ptr.op == 'ref':
            cell, path = ptr.a
        elif ptr is UNDEF:
            return
        else:
            cell, path = ('p', ptr), ()
        v = st.mem.get(cell)
        if v is None:
            v = cell[1] if cell[0] == 'p' else (mk('arg', cell[1]) if cell[0] == 'A' else UNDEF)
        st.mem[cell] = self.upd(v, path, x)

    def proj(self, v, e):
        if v.op == 'ite':
            return lift(lambda q: self.proj(q, e), v)
        if v is UNDEF:
            return UNDEF
        k = e[0]
        if k == 'f':
            name, owner = e[1], e[2]
            if strip_generics(owner) in BOXY:
                return v
            if v.op == 'agg' and v.a[0] != 'array':
                fs = v.a[3]
                if name in fs:
                    return v.a[4][fs.index(name)]
                return UNDEF
            if v.op == 'with':
                for n, x in v.a[1]:
                    if n == e:
                        return x
                return self.proj(v.a[0], e)
            if v.op == 'dirty' or v.op == 'clean':
                return self.proj(v.a[0], e)
            return mk('fld', v, strip_generics(owner), name)
        if k == 'vf':
            var, name, owner = e[1], e[2], e[3]
            if v.op == 'agg':
                if v.a[0] == 'adt' and v.a[2] != var:
                    return UNDEF
                fs = v.a[3]
                return v.a[4][fs.index(name)] if name in fs else UNDEF
            if v.op == 'with':
                for n, x in v.a[1]:
                    if n == e:
                        return x
                return self.proj(v.a[0], e)
            if v.op == 'nx':
                return v.a[3] if var == 'Some' else UNDEF
            if v.op == 'branch':
                x = v.a[0]
                if var == 'Continue':
                    return self.ok_payload(x, v.a[1])
                return mk('resid', x, v.a[1])
            return mk('vfld', v, var, name)
        if k == 'i':
            return self.index(v, e[1])
        if k == 'ci':
            return mk('idx', v, I(e[1])) if not e[2] else mk('idxend', v, I(e[1]))
        if k == 'ss':
            return mk('subslice', v, I(e[1]), I(e[2]))
        return mk('proj', v, str(e))

    def index(self, v, i):
        if i.op == 'ite' and nleaves(i) <= 8:
            return lift(lambda q: self.index(v, q), i)
        if v.op == 'ite':
            return lift(lambda q: self.index(q, i), v)
        if v is UNDEF:
            return UNDEF
        n = cint(i)
        if v.op == 'agg' and v.a[0] in ('array', 'tuple'):
            if n is not None:
                return v.a[4][n] if n < len(v.a[4]) else UNDEF
            if v.a[4] and all(x is v.a[4][0] for x in v.a[4]):
                return v.a[4][0]
        if v.op == 'repeat':
            return v.a[0]
        if v.op == 'resized':
            pass
        if v.op == 'store':
            b, j, x = v.a
            if j is i:
                return x
            d = isub(i, j)
            if cint(d) is not None and cint(d) != 0:
                return self.index(b, i)
        if v.op == 'push':
            b, x = v.a
            d = isub(i, self.length(b))
            if cint(d) == 0:
                return x
            if cint(d) is not None and cint(d) < 0:
                return self.index(b, i)
        if v.op == 'subfrom':
            return self.index(v.a[0], iadd(v.a[1], i))
        if v.op == 'subrange' and v.a[1].op == 'agg' and v.a[1].a[1] in ('core::ops::range::Range', 'core::ops::range::RangeTo'):
            return self.index(v.a[0], iadd(v.a[1].a[4][0], i) if v.a[1].a[1].endswith('Range') else i)
        if v.op == 'reversed':
            n = self.length(v.a[0])
            if n is not UNDEF:
                return self.index(v.a[0], isub(isub(n, I(1)), i))
        if v.op == 'collect':
            # element i of an unfiltered collected sequence
            rng, extra, elem = v.a[0], v.a[1], v.a[2]
            if extra is TRUE:
                return rewrite(elem, lambda x: i if x is rng else x) if n is not None or i.op == 'rng' or True else mk('idx', v, i)
        return mk('idx', v, i)

    def length(self, v):
        if v.op == 'ite':
            return lift(self.length, v)
        if v is UNDEF:
            return UNDEF
        if v.op == 'agg' and v.a[0] in ('array', 'tuple'):
            return I(len(v.a[4]))
        if v.op == 'repeat':
            return v.a[1]
        if v.op == 'store':
            return self.length(v.a[0])
        if v.op == 'with':
            return self.length(v.a[0])
        if v.op == 'push':
            return iadd(self.length(v.a[0]), I(1))
        if v.op in ('sorted', 'reversed', 'swapped'):
            return self.length(v.a[0])
        if v.op == 'subrange' and v.a[1].op == 'agg' and v.a[1].a[1] == 'core::ops::range::Range':
            return isub(v.a[1].a[4][1], v.a[1].a[4][0])
        if v.op == 'subrange' and v.a[1].op == 'agg' and v.a[1].a[1] == 'core::ops::range::RangeTo':
            return v.a[1].a[4][0]
        if v.op == 'subfrom':
            return isub(self.length(v.a[0]), v.a[1])
        if v.op == 'resized':
            return v.a[1]
        if v.op == 'collect' and v.a[1] is TRUE:
            return v.a[0].a[2]
        if v.op == 'c' and v.a[0] == 'str':
            return I(len(v.a[1].encode()))
        if v in self.lens:
            return I(self.lens[v])
        return mk('len', v)

    def upd(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if v.op == 'ite':
            if nleaves(v) <= 16:
                return lift(lambda q: self.upd(q, path, x), v)
        if e[0] in ('f', 'vf'):
            name = e[1] if e[0] == 'f' else e[2]
            owner = e[2] if e[0] == 'f' else e[3]
            if e[0] == 'f' and strip_generics(owner) in BOXY:
                return self.upd(v, path[1:], x)
            nx = self.upd(self.proj(v, e), path[1:], x)
            if v.op == 'agg' and name in v.a[3] and (e[0] == 'f' or v.a[2] == e[1] or v.a[0] != 'adt'):
                i = v.a[3].index(name)
                vals = list(v.a[4])
                vals[i] = nx
                return mk('agg', v.a[0], v.a[1], v.a[2], v.a[3], tuple(vals))
            if v is UNDEF:
                return mk('with', UNDEF, ((e, nx),))
            base, fs = (v.a[0], dict(v.a[1])) if v.op == 'with' else (v, {})
            if self.proj(base, e) is nx and base is not UNDEF:
                fs.pop(e, None)
            else:
                fs[e] = nx
            if not fs:
                return base
            return mk('with', base, tuple(sorted(fs.items(), key=lambda z: str(z[0][:3]))))
        if e[0] == 'i':
            nx = self.upd(self.index(v, e[1]), path[1:], x)
            n = cint(e[1])
            if v.op == 'agg' and v.a[0] == 'array' and n is not None and n < len(v.a[4]):
                vals = list(v.a[4])
                vals[n] = nx
                return mk('agg', v.a[0], v.a[1], v.a[2], v.a[3], tuple(vals))
            if v.op == 'store' and v.a[1] is e[1]:
                return mk('store', v.a[0], e[1], nx)
            return mk('store', v, e[1], nx)
        return mk('updopaque', v, x)

    def extend(self, ptr, e):
        """pointer to a component"""
        if ptr.op == 'ite':
            return lift(lambda q: self.extend(q, e), ptr)
        if ptr is UNDEF:
            return UNDEF
        if ptr.op != 'ref':
            ptr = mk('ref', ('p', ptr), ())
        if e[0] == 'f' and strip_generics(e[2]) in BOXY:
            return ptr
        return mk('ref', ptr.a[0], ptr.a[1] + (e,))

    def deref(self, st, v):
        """value of `*v` for a (possibly transparent) reference value"""
        if v.op == 'ite':
            return lift(lambda q: self.deref(st, q), v)
        if v.op == 'ref':
            return self.load(st, v)
        c = st.mem.get(('p', v))
        return c if c is not None else v

    def norm(self, st, v, d=0):
        """strip references: the pointee's current value, recursively in aggregates"""
        if d > 12:
            return v
        if v.op == 'ite':
            if nleaves(v) > 40:
                return v
            return lift(lambda q: self.norm(st, q, d + 1), v)
        if v.op == 'ref':
            return self.norm(st, self.load(st, v), d + 1)
        if v.op == 'agg' and v.a[4] and v.a[0] != 'closure':
            vs = tuple(self.norm(st, x, d + 1) for x in v.a[4])
            if vs != v.a[4]:
                return mk('agg', v.a[0], v.a[1], v.a[2], v.a[3], vs)
        if v.op in ('fmtarg', 'fmt', 'itp', 'it', 'nx') and any(isinstance(x, T) or isinstance(x, tuple) for x in v.a):
            def nn(x):
                if isinstance(x, T):
                    return self.norm(st, x, d + 1)
                if isinstance(x, tuple):
                    return tuple(nn(y) for y in x)
                return x
            return mk(v.op, *[nn(x) for x in v.a])
        if v.op == 'with' and any(x.op == 'ref' for _, x in v.a[1]):
            return mk('with', v.a[0], tuple((n, self.norm(st, x, d + 1)) for n, x in v.a[1]))
        return v

    # -------------------------------------------------------------- conditions on variants
    def is_(self, x, adt, var):
        adt = strip_generics(adt)
        if x.op == 'ite':
            return cond(lift(lambda q: self.is_(q, adt, var), x))
        if x is UNDEF:
            return FALSE
        if x.op == 'agg' and x.a[0] == 'adt':
            return B(x.a[2] == var)
        if x.op == 'with':
            return self.is_(x.a[0], adt, var)
        if x.op == 'nx':
            c = AND(_atom(mk('more', x.a[1])), x.a[2])
            return c if var == 'Some' else NOT(c)
        if x.op == 'branch':
            ok = self.is_ok(x.a[0], x.a[1])
            return ok if var == 'Continue' else NOT(ok)
        vs = self.p.variants(adt)
        if not vs:
            return _atom(mk('is', x, adt, var))
        if len(vs) == 1:
            return TRUE
        names = [v['name'] for v in vs]
        if adt == OPTION:
            names = ['Some', 'None']
        r = TRUE
        for v in names[:-1]:
            a = _atom(mk('is', x, adt, v))
            if v == var:
                return AND(r, a)
            r = AND(r, NOT(a))
        return r if var == names[-1] else FALSE

    def is_ok(self, x, ty):
        if strip_generics(ty) == OPTION:
            return self.is_(x, OPTION, 'Some')
        if strip_generics(ty) == RESULT:
            return self.is_(x, RESULT, 'Ok')
        return _atom(mk('isok', x))

    def ok_payload(self, x, ty):
        if strip_generics(ty) == OPTION:
            return self.proj(x, ('vf', 'Some', '0', OPTION))
        return self.proj(x, ('vf', 'Ok', '0', RESULT))

    def err_payload(self, x):
        return self.proj(x, ('vf', 'Err', '0', RESULT))

    def some(self, v):
        return mk('agg', 'adt', OPTION, 'Some', ('0',), (v,))

    NONE = mk('agg', 'adt', OPTION, 'None', (), ())

    def ok(self, v):
        return mk('agg', 'adt', RESULT, 'Ok', ('0',), (v,))

    def err(self, v):
        return mk('agg', 'adt', RESULT, 'Err', ('0',), (v,))

    def discr(self, x, ty):
        adt = strip_generics(ty)
        vs = self.p.variants(adt)

        def one(q):
            if q.op == 'agg' and q.a[0] == 'adt' and vs:
                for v in vs:
                    if v['name'] == q.a[2]:
                        return I(int(v['discr']))
            if q is UNDEF:
                return UNDEF
            return mk('discr', q, adt)

        return lift(one, x)

    def eqcond(self, o, val):
        """condition `o == val` for a switch operand"""
        def one(q):
            if q.op == 'c':
                if q.a[0] == 'bool':
                    return B(int(q.a[1]) == val)
                return B(q.a[1] == val)
            if q is UNDEF:
                return FALSE
            if q.op == 'discr':
                for v in self.p.variants(q.a[1]) or []:
                    if int(v['discr']) == val:
                        return self.is_(q.a[0], q.a[1], v['name'])
                return _atom(mk('zero', mklin(-val, {q: 1})))
            return izero(isub(q, I(val)))

        return cond(lift(one, o))

    # -------------------------------------------------------------- interpretation
    def inline(self, fn, vals, st, fr, tmap, root=False):
        """run the body of fn in st; returns its value or None if it never returns"""
        key = fn['key']
        nf = Frame()
        nf.fn = fn
        nf.ctx = self.ctx(fr.ctx, fr.bb, key) if not root else 0
        nf.tmap = tmap
        nf.depth = fr.depth + 1
        nf.keys = fr.keys + (key,)
        nf.bb = 0
        self.inlined.add(key)
        ctx = nf.ctx
        for i, v in enumerate(vals):
            st.mem[('L', ctx, i + 1)] = v
        body = self.p.body(fn)
        rets = []
        self.region(nf, body, body.rpo, None, {0: [(None, st.copy())]}, rets)
        if not rets:
            st.pc = FALSE
            return None
        st2 = self.merge([s for s in rets], ('ret', ctx))
        ret = self.norm_ret(st2, st2.mem.get(('L', ctx, 0), UNIT))
        for c in [c for c in st2.mem if c[0] == 'L' and c[1] == ctx]:
            del st2.mem[c]
        st.mem = st2.mem
        st.pc = st2.pc
        return ret

    def search_exits(self, fr, h, entry, sticky, outs):
        """a loop that changes nothing and is left early is a search for the first position with the condition of that exit"""
        if len(sticky) != 1 or sum(len(v) for v in sticky.values()) != 1:
            return
        exits = [s for l in outs.values() for _, s in l]
        early = []
        for s in exits:
            js = [m.a[0] for m in mores_of(s.pc) - mores_of(entry.pc) if m.a[0].op == 'rng' and m.a[0].a[0] == fr.ctx and AND(s.pc, NOT(m)) is FALSE]
            if js:
                early.append((s, js))
        if len(early) != 1 or len(early[0][1]) != 1:
            return
        s, (j,) = early[0]
        own = lambda c: c[0] == 'L' and c[1] == fr.ctx
        if any(not own(c) and s.mem.get(c) is not entry.mem.get(c) for c in set(s.mem) | set(entry.mem)):
            return
        c = restrict(restrict(s.pc, entry.pc), _atom(mk('more', j)))
        if not contains(c, lambda x: x is j) or contains(c, lambda x: x.op == 'phi' and x.a[0] == fr.ctx and x.a[1] == h):
            return
        k = mk('first', j, c)
        ic = next(iter(sticky))
        new = {}
        for cell, v in s.mem.items():
            if own(cell) and cell != ic and contains(v, lambda x: x is j):
                new[cell] = rewrite(v, lambda x: k if x is j else x)
        for cell, v in new.items():
            s.mem[cell] = self.norm(s, v) if v.op != 'ref' else v
        found = _atom(mk('any', j, c))
        s.pc = AND(entry.pc, found)
        for q in exits:
            if q is not s:
                q.pc = AND(restrict(q.pc, NOT(_atom(mk('more', j)))) if AND(q.pc, mk('more', j)) is FALSE else q.pc, NOT(found))

    def norm_ret(self, st, v):
        return v

    def merge(self, sts, where):
        """join of states (conditional values keyed by their path conditions)"""
        sts = [s for s in sts if s.pc is not FALSE]
        if not sts:
            return St({}, FALSE)
        if len(sts) == 1:
            return sts[0].copy()
        pc = OR(*[s.pc for s in sts])
        # the condition of a loop's regular end does not exclude an early exit from some iteration: the early exit goes first
        pcs = [s.pc for s in sts]
        for i in range(len(pcs)):
            for j in range(i + 1, len(pcs)):
                mores = mores_of(pcs[j]) - mores_of(pcs[i])
                if mores:
                    o = AND(pcs[i], sts[j].pc)
                    if o is not FALSE and mores & mores_of(o):
                        pcs[i] = AND(pcs[i], NOT(sts[j].pc))
        out = {}
        first = sts[0].mem
        for cell in first:
            ok = True
            same = True
            v0 = first[cell]
            for s in sts[1:]:
                v = s.mem.get(cell)
                if v is None:
                    ok = False
                    break
                if v is not v0:
                    same = False
            if not ok:
                if cell[0] == 'L':
                    continue
            if same and ok:
                out[cell] = v0
                continue
            vals = [(q, self._rd(s, cell, ())) for s, q in zip(sts, pcs)]
            out[cell] = self.mergeval(vals, pc, where + (cell,))
        for s in sts[1:]:
            for cell in s.mem:
                if cell[0] != 'L' and cell not in out:
                    vals = [(w, self._rd(q, cell, ())) for q, w in zip(sts, pcs)]
                    out[cell] = self.mergeval(vals, pc, where + (cell,))
        if dsize(pc, 6000) > PCCAP:
            self.notes.add('pc-widened')
            pc = _atom(mk('pcwide', str(where)))
        return St(out, pc)

    def mergeval(self, vals, pc, where):
        # field-wise for aggregates of one shape
        v0 = vals[0][1]
        if all(v is v0 for _, v in vals):
            return v0
        if v0.op == 'agg' and v0.a[4] and all(v.op == 'agg' and v.a[:4] == v0.a[:4] and len(v.a[4]) == len(v0.a[4]) for _, v in vals):
            return mk('agg', *v0.a[:4], tuple(self.mergeval([(c, v.a[4][i]) for c, v in vals], pc, where + (i,)) for i in range(len(v0.a[4]))))
        b0 = v0.a[0] if v0.op == 'with' else v0
        if b0 is not UNDEF and b0.op not in ('agg', 'ite', 'c') and all((v.a[0] if v.op == 'with' else v) is b0 for _, v in vals):
            fs = {}
            for _, v in vals:
                if v.op == 'with':
                    for n, _x in v.a[1]:
                        fs[n] = 1
            nf = {}
            for n in fs:
                x = self.mergeval([(c, self.proj(v, n)) for c, v in vals], pc, where + (n[1],))
                if x is not self.proj(b0, n):
                    nf[n] = x
            if not nf:
                return b0
            return mk('with', b0, tuple(sorted(nf.items(), key=lambda z: str(z[0][:3]))))
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = ITE(c, v, r)
        r = restrict(r, pc)
        if dsize(r, 6000) > VALCAP:
            self.notes.add('value-widened')
            return mk('merge', str(where))
        return r

    def region(self, fr, body, blocks, header, ins, rets):
        """process blocks (in reverse postorder) of a region; returns edges leaving it {dst: [(src, st)]}"""
        inset = set(blocks)
        outs = {}
        done = set()
        for b in blocks:
            if b in done:
                continue
            lp = [h for h in body.inner[b] if h != header and h in inset]
            # loops containing b, inside this region
            if b in body.loops and b != header:
                ent = [s for _, s in ins.pop(b, []) if s.pc is not FALSE]
                lb = [x for x in body.rpo if x in body.loops[b]]
                done.update(lb)
                if not ent:
                    continue
                for dst, l in self.loop(fr, body, b, lb, self.merge(ent, (fr.ctx, b)), rets).items():
                    (ins if dst in inset else outs).setdefault(dst, []).extend(l)
                continue
            ent = [s for _, s in ins.pop(b, []) if s.pc is not FALSE]
            if not ent:
                continue
            st = self.merge(ent, (fr.ctx, b))
            for dst, s in self.block(fr, body, b, st, rets):
                if s.pc is FALSE:
                    continue
                if dst == header or dst not in inset:
                    outs.setdefault(dst, []).append((b, s))
                else:
                    ins.setdefault(dst, []).append((b, s))
        return outs

    def loop(self, fr, body, h, lb, entry, rets):
        key = (fr.ctx, h)
        sticky = self.phi_sticky.setdefault(key, {})
        mark = len(self.eff)
        rmark = len(rets)
        self.loopstack.append(key)
        passes = 0
        while True:
            passes += 1
            if passes > 1:
                del self.eff[mark:]
                del rets[rmark:]
            st = entry.copy()
            for cell, paths in sticky.items():
                if cell not in st.mem and cell[0] == 'L':
                    continue
                v = self._rd(st, cell, ())
                for p in paths:
                    phi = mk('phi', fr.ctx, h, cell, p)
                    init = v
                    for e in p:
                        init = self.proj(init, e)
                    self.phi_ops.setdefault(phi, [None, None])[0] = init
                    v = self.upd(v, p, phi)
                st.mem[cell] = v
            outs = self.region(fr, body, lb, h, {h: [(None, st.copy())]}, rets)
            back = outs.pop(h, [])
            changed = False
            if back:
                nxt = self.merge([s for _, s in back], (fr.ctx, h, 'back'))
                self.back_pc[(fr.ctx, h)] = nxt.pc
                for cell, v1 in nxt.mem.items():
                    if cell not in st.mem and cell[0] == 'L':
                        continue
                    v0 = self._rd(st, cell, ())
                    if v0 is v1 or 'ite' in (v0.op, v1.op) and restrict(v0, nxt.pc) is restrict(v1, nxt.pc):
                        continue
                    for p in self.diff(v0, v1, ()):
                        cur = sticky.setdefault(cell, [])
                        if any(p[:len(q)] == q for q in cur):
                            continue
                        if passes > 8:
                            p = ()
                        cur[:] = [q for q in cur if q[:len(p)] != p]
                        cur.append(p)
                        changed = True
                if not changed:
                    for cell, paths in sticky.items():
                        if cell not in nxt.mem and cell[0] == 'L':
                            continue
                        v = self._rd(nxt, cell, ())
                        for p in paths:
                            nv = v
                            for e in p:
                                nv = self.proj(nv, e)
                            self.phi_ops.setdefault(mk('phi', fr.ctx, h, cell, p), [None, None])[1] = nv
            if not changed and self.drop_trivial(key, sticky, lambda cell, p: mk('phi', fr.ctx, h, cell, p)):
                continue
            if not changed:
                break
            if passes > 14:
                self.notes.add('loop-unstable')
                break
        self.loopstack.pop()
        self.exits[(fr.ctx, h)] = [s.pc for b, l in outs.items() if fr.fn['blocks'][b]['t']['t'] != 'unreachable' for _, s in l] + [q.pc for q in rets[rmark:]]
        if len(rets) == rmark and all(e.kind in ('enter', 'leave') for e in self.eff[mark:]):
            self.search_exits(fr, h, entry, sticky, outs)
        return outs

    def drop_trivial(self, key, sticky, mkphi):
        """remove phis that turned out constant (next == phi or next == init); at most twice per location"""
        cnt = self.__dict__.setdefault('_triv', {})
        drop = []
        for cell, paths in sticky.items():
            for p in paths:
                phi = mkphi(cell, p)
                o = self.phi_ops.get(phi)
                if o and o[1] is not None and (o[1] is phi or o[1] is o[0]) and cnt.get((key, cell, p), 0) < 2:
                    drop.append((cell, p))
        for cell, p in drop:
            cnt[(key, cell, p)] = cnt.get((key, cell, p), 0) + 1
            sticky[cell].remove(p)
            if not sticky[cell]:
                del sticky[cell]
        return bool(drop)

    def diff(self, v0, v1, path):
        if v0 is v1:
            return []
        if v0.op == 'phi' and v0.a[3] is not None and False:
            return []
        if v0.op == 'agg' and v1.op == 'agg' and v0.a[:4] == v1.a[:4] and v0.a[0] != 'array' and len(v0.a[4]) == len(v1.a[4]):
            out = []
            own = v0.a[1]
            for i, n in enumerate(v0.a[3]):
                e = ('vf', v0.a[2], n, own) if v0.a[0] == 'adt' and (self.p.adts.get(own) or {}).get('enum') else ('f', n, own)
                out += self.diff(v0.a[4][i], v1.a[4][i], path + (e,))
            return out
        b0 = v0.a[0] if v0.op == 'with' else v0
        b1 = v1.a[0] if v1.op == 'with' else v1
        if b0 is b1 and b0.op not in ('agg', 'ite', 'c'):
            fs = {}
            for v in (v0, v1):
                if v.op == 'with':
                    for n, _ in v.a[1]:
                        fs[n] = 1
            out = []
            for n in fs:
                out += self.diff(self.proj(v0, n), self.proj(v1, n), path + (n,))
            return out
        return [path]

    # -------------------------------------------------------------- one block
    def block(self, fr, body, b, st, rets):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        fr.bb = b
        blk = fr.fn['blocks'][b]
        ctx = fr.ctx
        for s in blk['st']:
            k = s['s']
            if k == '=':
                v = self.rvalue(fr, st, s['r'], s)
                self.assign(fr, st, s['p'], v, s.get('sp'))
            elif k == 'dead':
                st.mem.pop(('L', ctx, s['l']), None)
            elif k == 'setdiscr':
                self.notes.add('setdiscr')
        t = blk['t']
        k = t['t']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'return':
            rets.append(st)
            return []
        if k == 'call':
            return self.call_term(fr, st, t)
        if k == 'assert':
            c = cond(self.operand(fr, st, t['c']))
            if not t['exp']:
                c = NOT(c)
            c = restrict(c, st.pc)
            if c is not TRUE:
                self.effect('assert', t['kind'] if isinstance(t['kind'], str) else str(t['kind']), (c,), st, fr)
            if c is FALSE:
                return []
            return [(t['to'], st)]
        if k == 'drop':
            ptr = self.place(fr, st, t['p'])
            v = self.load(st, ptr)
            if v is not UNDEF:
                self.effect('drop', t.get('ty', ''), (ptr, v), st, fr)
            return [(t['to'], st)]
        if k in ('unreachable', 'resume', 'abort', 'terminate'):
            return []
        self.notes.add('term:' + k)
        return [(x, st) for x in body.succ[b]]

    def assign(self, fr, st, p, v, sp=None):
        if len(p) == 1:
            st.mem[('L', fr.ctx, p[0])] = v
            return
        ptr = self.place(fr, st, p)
        self.store(st, ptr, v)
        self.effect('store', '', (ptr, v), st, fr, sp=sp)

    def switch(self, fr, st, t):
        o = self.operand(fr, st, t['o'])
        out = []
        rest = st.pc
        isb = t.get('ty') == 'bool'
        loopy = o.op == 'discr' and o.a[0].op == 'nx' and o.a[0].a[4] == 'loop'
        for val, bb in t['targets']:
            c = self.eqcond(o, int(val)) if not isb else (cond(o) if int(val) else NOT(cond(o)))
            pc = AND(rest, c)
            if loopy and pc is not FALSE:
                vs = self.p.variants(OPTION)
                nm = [v['name'] for v in vs if int(v['discr']) == int(val)][0]
                if nm == 'None':
                    s = st.copy()
                    out.append((bb, s))
                    continue
            rest = AND(rest, NOT(c))
            if pc is not FALSE:
                s = st.copy()
                s.pc = pc
                out.append((bb, s))
        if t['otherwise'] is not None and rest is not FALSE:
            # `otherwise` of an exhausted enum is unreachable
            s = st.copy()
            s.pc = rest
            out.append((t['otherwise'], s))
        # group same targets
        by = {}
        for bb, s in out:
            by.setdefault(bb, []).append(s)
        return [(bb, l[0] if len(l) == 1 else self.merge(l, (fr.ctx, fr.bb, bb))) for bb, l in by.items()]

    # -------------------------------------------------------------- places, operands, rvalues
    def place(self, fr, st, p):
        """pointer value of a place"""
        ptr = mk('ref', ('L', fr.ctx, p[0]), ())
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == '*':
                v = self.load(st, ptr)
                if v.op == 'ite':
                    v = restrict(v, st.pc)
                ptr = lift(lambda q: q if q.op == 'ref' or q is UNDEF else mk('ref', ('p', q), ()), v)
            elif k == 'v':
                variant = e[1]
            elif k == 'f':
                if variant is not None:
                    ptr = self.extend(ptr, ('vf', variant, e[1], strip_generics(e[2])))
                    variant = None
                else:
                    ptr = self.extend(ptr, ('f', e[1], strip_generics(e[2])))
            elif k == 'i':
                i = st.mem.get(('L', fr.ctx, e[1]), UNDEF)
                ptr = self.extend(ptr, ('i', i))
            elif k == 'ci':
                ptr = self.extend(ptr, ('i', I(e[1])) if not e[2] else ('ci', e[1], True))
            elif k == 'ss':
                ptr = self.extend(ptr, tuple(['ss'] + [int(x) if isinstance(x, (int, bool)) else x for x in e[1:]]))
        return ptr

    def operand(self, fr, st, o):
        if o['k'] in ('copy', 'move'):
            p = o['p']
            if len(p) == 1:
                v = st.mem.get(('L', fr.ctx, p[0]), UNDEF)
                if v.op == 'ite':
                    v = restrict(v, st.pc)
                return v
            return self.load(st, self.place(fr, st, p))
        return self.const(fr, st, o)

    def const(self, fr, st, o):
        ty = o.get('ty', '')
        if 'fn' in o:
            return mk('fn', FnRef(o['fn']), self.tmapid(fr.tmap))
        if 'promoted' in o:
            return self.promoted(fr, st, o)
        if 'bool' in o:
            return B(o['bool'])
        if 'int' in o:
            if ty in FLOATS:
                return F(o['int'])
            return I(int(o['int']))
        if 'float' in o:
            return F(o['float'])
        if 'str' in o:
            return S(o['str'])
        if 'bytes' in o:
            return mk('c', 'bytes', tuple(o['bytes']))
        if 'variant' in o and o['variant']:
            return mk('agg', 'adt', strip_generics(strip_ref(ty)), o['variant'], (), ())
        if o.get('zst'):
            t = strip_ref(ty)
            if t == '()':
                return UNIT
            a = self.p.adts.get(strip_generics(t))
            if a and not a.get('enum'):
                return mk('agg', 'adt', strip_generics(t), a['variants'][0]['name'], (), ())
            return mk('c', 'zst', t)
        if 'named' in o:
            return mk('named', o['named'] if isinstance(o['named'], str) else str(o['named']))
        if 'char' in o:
            return C('char', o['char'])
        return mk('const', ty, str(sorted((k, str(v)) for k, v in o.items() if k not in ('k', 'sp'))))

    def promoted(self, fr, st, o):
        own = self.p.fns.get(o.get('owner') or fr.fn['key']) or fr.fn
        n = o['promoted']
        pr = own['promoted'][n]
        cell = ('P', own['key'], n)
        if cell not in self.prom:
            f = dict(pr)
            f.setdefault('key', own['key'] + '#p%d' % n)
            f['path'] = own['path']
            f.setdefault('argc', 0)
            # cache the dict so that Body is computed once
            f = own.setdefault('_prom', {}).setdefault(n, f)
            nf = Frame()
            nf.fn, nf.ctx, nf.tmap, nf.depth, nf.bb, nf.keys = f, self.ctx(0, -1 - n, own['key']), {}, fr.depth + 1, 0, fr.keys
            body = self.p.body(f)
            rets = []
            s2 = St({}, TRUE)
            save = self.eff
            self.eff = []
            self.region(nf, body, body.rpo, None, {0: [(None, s2)]}, rets)
            self.eff = save
            if not rets:
                return mk('named', str(cell))
            r = rets[0]
            v = r.mem.get(('L', nf.ctx, 0), UNDEF)
            # keep the promoted's locals alive: they are the storage the reference points to
            for c, x in r.mem.items():
                if c[0] == 'L' and c[1] == nf.ctx:
                    self.prom[('P',) + c] = self._promote_refs(x, nf.ctx)
            self.prom[cell] = self._promote_refs(v, nf.ctx)
        return self.prom[cell]

    def _promote_refs(self, v, ctx):
        def f(x):
            if x.op == 'ref' and x.a[0][0] == 'L' and x.a[0][1] == ctx:
                return mk('ref', ('P',) + x.a[0], x.a[1])
            return x
        return rewrite(v, f)

    def tmapid(self, tm):
        k = tuple(sorted(tm.items()))
        self.tmaps[k] = dict(tm)
        return k

    def rvalue(self, fr, st, r, s):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k in ('ref', 'rawptr'):
            p = r['p']
            # reborrow `&*x` is x
            if len(p) >= 2 and p[-1][0] == '*':
                v = self.load(st, self.place(fr, st, p[:-1]))
                if v is not UNDEF:
                    return v
            return self.place(fr, st, p)
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(fr, st, r['a']), self.operand(fr, st, r['b']), r.get('ty', ''))
        if k == 'un':
            v = self.operand(fr, st, r['o'])
            if r['op'] == 'Not':
                if v.op == 'c' and v.a[0] == 'int':
                    return mk('un', 'Not', v)
                return NOT(cond(v)) if self.boolish(v) else mk('un', 'Not', v)
            if r['op'] == 'Neg':
                n = cint(v)
                if n is not None:
                    return I(-n)
                x = cfloat(v)
                if x is not None:
                    return F(-x)
                return lift(lambda q: mk('un', 'Neg', q), v)
            if r['op'] == 'PtrMetadata':
                return self.length(self.deref(st, v))
            return lift(lambda q: mk('un', r['op'], q), v)
        if k == 'cast':
            return self.cast(fr, st, self.operand(fr, st, r['o']), r)
        if k == 'discr':
            return self.discr(self.load(st, self.place(fr, st, r['p'])), r['ty'])
        if k == 'len':
            return self.length(self.load(st, self.place(fr, st, r['p'])))
        if k == 'agg':
            ops = tuple(self.operand(fr, st, o) for o in r['ops'])
            a = r['a']
            if a == 'tuple':
                return mk('agg', 'tuple', '', '', tuple(str(i) for i in range(len(ops))), ops)
            if a == 'array':
                return mk('agg', 'array', '', '', (), ops)
            if a == 'closure':
                return mk('agg', 'closure', r['fn'], self.tmapid(fr.tmap), tuple(str(i) for i in range(len(ops))), ops)
            if a == 'adt':
                return self.adt(strip_generics(r['adt']), r['variant'], tuple(r['fields']), ops)
        if k == 'repeat':
            n = r.get('n')
            return mk('repeat', self.operand(fr, st, r['o']), I(int(n)) if isinstance(n, int) or (isinstance(n, str) and n.isdigit()) else mk('named', str(n)))
        self.notes.add('rv:' + k)
        return mk('rv', k, fr.ctx, fr.bb)

    def adt(self, adt, var, fields, ops):
        if adt in BOXY and len(ops) >= 1:
            return ops[0]
        # eta: rebuilding a one-field struct from its own field
        if len(ops) == 1 and ops[0].op == 'fld' and ops[0].a[1] == adt and ops[0].a[2] == fields[0]:
            return ops[0].a[0]
        return mk('agg', 'adt', adt, var, fields, ops)

    def boolish(self, v):
        if v.op == 'c':
            return v.a[0] == 'bool'
        if v.op == 'ite':
            return self.boolish(v.a[1])
        return True

    def binop(self, st, op, a, b, ty):
        ov = op.endswith('WithOverflow')
        if ov:
            op = op[:-12]
        r = self.bin2(st, op, a, b, ty)
        if ov:
            return mk('agg', 'tuple', '', '', ('0', '1'), (r, FALSE if op == 'Add' or op == 'Mul' else self._ovf(op, a, b, ty)))
        return r

    def _ovf(self, op, a, b, ty):
        if op == 'Sub' and ty and ty[0] == 'u':
            return cond(self.bin2(None, 'Lt', a, b, ty))
        return FALSE

    def bin2(self, st, op, a, b, ty):
        if op.endswith('Unchecked'):
            op = op[:-9]
        if a.op == 'ite' or b.op == 'ite':
            if nleaves(a, 20) * nleaves(b, 20) <= 40:
                if a.op == 'ite':
                    return lift(lambda q: self.bin2(st, op, q, b, ty), a)
                return lift(lambda q: self.bin2(st, op, a, q, ty), b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        isf = ty in FLOATS
        if isf:
            x, y = cfloat(a), cfloat(b)
            if x is not None and y is not None:
                try:
                    if op in ('Add', 'Sub', 'Mul', 'Div'):
                        return F({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]())
                    return B({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op])
                except (ZeroDivisionError, KeyError, OverflowError):
                    pass
            if op in ('Add', 'Mul'):
                one = 0.0 if op == 'Add' else 1.0
                if op == 'Mul':
                    if x == 1.0:
                        return b
                    if y == 1.0:
                        return a
                return mk('bin', op, *sorted((a, b), key=lambda q: q.id))
            if op == 'Gt':
                return mk('flt', b, a)
            if op == 'Lt':
                return mk('flt', a, b)
            if op == 'Ge':
                return mk('fle', b, a)
            if op == 'Le':
                return mk('fle', a, b)
            if op == 'Eq':
                return mk('feq', *sorted((a, b), key=lambda q: q.id))
            if op == 'Ne':
                return NOT(mk('feq', *sorted((a, b), key=lambda q: q.id)))
            return mk('bin', op, a, b)
        if ty in INTS:
            u = ty[0] == 'u'
            if op == 'Add':
                return iadd(a, b)
            if op == 'Sub':
                return isub(a, b)
            if op == 'Mul':
                return imul(a, b)
            if op == 'Lt':
                return ineg(isub(a, b), u)
            if op == 'Gt':
                return ineg(isub(b, a), u)
            if op == 'Le':
                return NOT(ineg(isub(b, a), u))
            if op == 'Ge':
                return NOT(ineg(isub(a, b), u))
            if op == 'Eq':
                return izero(isub(a, b))
            if op == 'Ne':
                return NOT(izero(isub(a, b)))
            x, y = cint(a), cint(b)
            if x is not None and y:
                if op == 'Div' and x >= 0 and y > 0:
                    return I(x // y)
                if op == 'Rem' and x >= 0 and y > 0:
                    return I(x % y)
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                return mk('bin', op, *sorted((a, b), key=lambda q: q.id))
            return mk('bin', op, a, b)
        if ty == 'bool' or self.isbool(a) or self.isbool(b):
            if op == 'BitAnd':
                return AND(cond(a), cond(b))
            if op == 'BitOr':
                return OR(cond(a), cond(b))
            if op in ('Eq', 'Ne', 'BitXor'):
                r = ITE(cond(a), cond(b), NOT(cond(b)))
                return r if op == 'Eq' else NOT(r)
        if op in ('Eq', 'Ne'):
            r = self.eqvals(st, a, b)
            return r if op == 'Eq' else NOT(r)
        return mk('bin', op, a, b)

    def isbool(self, v):
        return v.op == 'c' and v.a[0] == 'bool'

    def eqvals(self, st, a, b):
        """structural equality as a condition"""
        if st is not None:
            a, b = self.norm(st, a), self.norm(st, b)
        if a is b and a.op != 'undef':
            return TRUE
        if a.op == 'ite':
            return cond(lift(lambda q: self.eqvals(None, q, b), a))
        if b.op == 'ite':
            return cond(lift(lambda q: self.eqvals(None, a, q), b))
        if a is UNDEF or b is UNDEF:
            return FALSE
        if a.op == 'c' and b.op == 'c':
            if a.a[0] == b.a[0] and a.a[0] in ('int', 'str', 'bool', 'char', 'float', 'bytes'):
                return B(a.a[1] == b.a[1])
        if self.isbool(a) or self.isbool(b):
            return ITE(cond(a), cond(b), NOT(cond(b)))
        if a.op == 'discr' and b.op == 'discr':
            for x, y in ((a, b), (b, a)):
                if y.a[0].op == 'agg':
                    return self.is_(x.a[0], x.a[1], y.a[0].a[2])
        for x, y in ((a, b), (b, a)):
            if x.op == 'c' and x.a[0] == 'int':
                if y.op == 'discr':
                    return self.eqcond(y, x.a[1])
                return izero(isub(y, x))
            if x.op == 'agg' and x.a[0] == 'adt' and not x.a[4] and (self.p.adts.get(x.a[1]) or {}).get('enum'):
                return self.is_(y, x.a[1], x.a[2])
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
            if a.a[0] == 'adt' and a.a[2] != b.a[2]:
                return FALSE
            if len(a.a[4]) == len(b.a[4]):
                return AND(*[self.eqvals(None, x, y) for x, y in zip(a.a[4], b.a[4])])
        for x, y in ((a, b), (b, a)):
            if x.op == 'agg' and x.a[0] == 'adt' and x.a[4]:
                enum = (self.p.adts.get(x.a[1]) or {}).get('enum')
                r = self.is_(y, x.a[1], x.a[2]) if enum else TRUE
                for n, v in zip(x.a[3], x.a[4]):
                    e = ('vf', x.a[2], n, x.a[1]) if enum else ('f', n, x.a[1])
                    r = AND(r, self.eqvals(None, v, self.proj(y, e)))
                return r
        if a.op in ('lin', 'len', 'rng') or b.op in ('lin', 'len', 'rng'):
            return izero(isub(a, b))
        return _atom(mk('eq', *sorted((a, b), key=lambda q: q.id)))

    WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'u128': 128, 'i128': 128}

    def cast(self, fr, st, v, r):
        fr_, to, ck = r['from'], r['to'], r['ck']
        if v is UNDEF:
            return v
        am = re.match(r"^&(?:'\w+ )?(?:mut )?\[.*; (\d+)(?:_usize)?\]$", fr_) if ';' in fr_ and not to.endswith('; ') and re.match(r"^&(?:'\w+ )?(?:mut )?\[", to) and ';' not in to else None
        if am:
            # a reference to an array becomes a slice of known length
            from .lib import leafset
            for x in leafset(self.load(st, v)):
                if x.op in ('phi', 'fld', 'idx', 'arg'):
                    self.lens[x] = int(am.group(1))
        if fr_ in INTS and to in INTS:
            n = cint(v)
            if n is not None:
                w = self.WID[to]
                n &= (1 << w) - 1
                if to[0] == 'i' and n >> (w - 1):
                    n -= 1 << w
                return I(n)
            if v.op == 'discr' or v.op == 'ite':
                return v
            if self.WID[to] > self.WID[fr_] or (self.WID[to] == self.WID[fr_] and to[0] == fr_[0]):
                if fr_[0] == 'u' or to[0] == 'i':
                    return v
            return lift(lambda q: mk('cast', to, q), v)
        if (fr_ in INTS or fr_ == 'bool') and to in FLOATS:
            n = cint(v)
            if n is not None:
                return F(n)
            return lift(lambda q: mk('cast', 'float', q) if cint(q) is None else F(cint(q)), v)
        if fr_ in FLOATS and to in FLOATS:
            x = cfloat(v)
            if to == 'f64' or x is not None:
                return v
            return lift(lambda q: mk('cast', to, q), v)
        if fr_ in FLOATS and to in INTS:
            return lift(lambda q: mk('cast', to, q), v)
        if fr_ == 'bool' and to in INTS:
            return ITE(cond(v), I(1), I(0))
        if fr_ == 'char' or to == 'char':
            return lift(lambda q: mk('cast', to, q), v)
        return v  # pointer coercions, unsizing, reify

    # -------------------------------------------------------------- calls
    def call_term(self, fr, st, t):
        f = t['f']
        args = [self.operand(fr, st, a) for a in t['args']]
        if f['k'] == 'const' and 'fn' in f:
            fv = mk('fn', FnRef(f['fn']), self.tmapid(fr.tmap))
        else:
            fv = self.operand(fr, st, f)
        v = self.call_value(fr, st, fv, args, t)
        if v is None or st.pc is FALSE or t['to'] is None:
            return []
        self.assign(fr, st, t['dest'], v, t.get('sp')) if len(t['dest']) == 1 else self._assign_q(fr, st, t, v)
        return [(t['to'], st)]

    def _assign_q(self, fr, st, t, v):
        self.assign(fr, st, t['dest'], v, t.get('sp'))

    def subst(self, ty, tm):
        if not tm:
            return ty
        return re.sub(r"(?<![\w:'])([A-Z]\w*)(?![\w:])", lambda m: tm.get(m.group(1), m.group(1)), ty)

    def call_value(self, fr, st, fv, args, t=None):
        """call a function value; returns value, or None if it does not return"""
        if fv.op == 'ite':
            fv = restrict(fv, st.pc)
        if fv.op == 'ref':
            fv = self.load(st, fv)
            if fv.op == 'ref':
                fv = self.load(st, fv)
        argtys = t['argtys'] if t else None
        ret = t['ret'] if t else None
        if fv.op == 'agg' and fv.a[0] == 'closure':
            fn = self.p.fns.get(fv.a[1])
            if fn is None:
                return self.opaque(fr, st, 'closure', fv.a[1], args, argtys, ret)
            env = fv
            ety = fn['locals'][1]
            if ety.startswith('&'):
                cell = ('L', fr.ctx, 'env', fr.bb, fv.a[1])
                st.mem[cell] = fv
                env = mk('ref', cell, ())
            return self.enter(fr, st, fn, [env] + args, self.tmaps.get(fv.a[2], {}), argtys, ret)
        if fv.op != 'fn':
            return self.opaque(fr, st, 'indirect', show(fv, 3), args, argtys, ret)
        ref = fv.a[0]
        tm = self.tmaps.get(fv.a[1], {})
        f = ref.d
        key = f.get('rkey') or f['key']
        path = f['path']
        gargs = [self.subst(g, tm) for g in f['gargs']]
        if f.get('ctor'):
            adt = f['adt']
            vs = self.p.variants(adt) or []
            fields = ()
            for v in vs:
                if v['name'] == f['variant']:
                    fields = tuple(x[0] for x in v['fields'])
            return self.adt(strip_generics(adt), f['variant'], fields or tuple(str(i) for i in range(len(args))), tuple(args))
        target = None
        rargs = f.get('rargs')
        if f.get('rkey') and f['rkey'] in self.p.fns:
            target = self.p.fns[f['rkey']]
            if rargs is not None:
                rargs = [self.subst(g, tm) for g in rargs]
        elif f.get('trait') and gargs:
            # trait method on a type parameter: resolve with the frame's types
            sty = strip_ref(gargs[0])
            meth = path.rsplit('::', 1)[1]
            for c in self.p.impls.get((f['trait'], meth), []):
                if c['impl_self'] == sty or c['impl_self'] == gargs[0]:
                    target = c
                    rargs = []
                    if c['impl_self'] != gargs[0] and args and c['locals'][1].startswith('&'):
                        # blanket impl for references: forward to the referent
                        g, a0 = gargs[0], args[0]
                        while g.startswith('&') and g != c['impl_self']:
                            g = re.sub(r"^&('\w+ )?(mut )?", '', g)
                            a0 = self.load(st, a0) if a0.op in ('ref', 'ite') else a0
                        args = [a0] + list(args[1:])
                    break
        from . import models
        m = models.lookup(path, f, target)
        if m is not None:
            r = m(self, fr, st, CallInfo(path, f, gargs, args, argtys, ret, t, target, rargs))
            if r is not NotImplemented:
                return r
        if target is None and f.get('trait') and key in self.p.fns:
            target = self.p.fns[key]
            rargs = gargs
        if target is None and key in self.p.fns:
            target = self.p.fns[key]
            rargs = gargs
        if target is not None:
            gen = target.get('generics') or []
            tm2 = dict(zip(gen, rargs)) if rargs and len(rargs) == len(gen) else {}
            tm2 = {k: v for k, v in tm2.items() if k != v and not k.startswith("'")}
            return self.enter(fr, st, target, args, tm2, argtys, ret)
        return self.opaque(fr, st, 'ext', path, args, argtys, ret, gargs, key)

    def enter(self, fr, st, fn, args, tm, argtys, ret):
        key = fn['key']
        if key in fr.keys or fr.depth >= self.max_depth or key in self.no_inline or fn['path'] in self.no_inline:
            self.opaque_local.add(key)
            return self.opaque(fr, st, 'local', fn['path'], args, argtys or fn['locals'][1:1 + fn['argc']], ret or fn['locals'][0])
        self.effect('enter', fn['path'], args, st, fr)
        bb = fr.bb
        v = self.inline(fn, args, st, fr, tm)
        fr.bb = bb
        if v is not None:
            self.effect('leave', fn['path'], (v,), st, fr)
        return v

    def opaque(self, fr, st, kind, path, args, argtys, ret, gargs=(), key=None):
        """unmodelled callee: result is an uninterpreted function of the (dereferenced) arguments"""
        nargs = tuple(self.norm(st, a) for a in args)
        muts = [i for i, a in enumerate(args) if (argtys and i < len(argtys) and re.match(r"&('\w+ )?mut ", argtys[i]))]
        # closures may write what they capture mutably
        imp = bool(muts) or path in IMPURE or kind in ('indirect', 'closure')
        site = (fr.ctx, fr.bb) if imp else None
        v = mk('call', path, tuple(gargs) if gargs and len(gargs) < 4 else (), nargs, site)
        self.effect('call', path, args, st, fr, val=v, vals=nargs, ret=ret, extra=kind)
        for i in muts:
            self.havoc(st, args[i], v, i)
        for a in args:
            self.havoc_closure(st, a, v)
        if ret == '!':
            self.effect('panic', path, nargs, st, fr)
            st.pc = FALSE
            return None
        return v

    def havoc(self, st, ptr, v, i):
        def one(q):
            if q.op == 'ref':
                old = self.load(st, q)
                self.store(st, q, mk('mut', v, i, old if old.op not in ('mut',) else old.a[2]))
            elif q.op == 'agg':
                for x in q.a[4]:
                    if x.op == 'ref':
                        one(x)
        for _, q in leaves(ptr):
            one(q)

    def havoc_closure(self, st, a, v):
        if a.op == 'ref':
            a = self.load(st, a)
        if a.op == 'agg' and a.a[0] == 'closure':
            fn = self.p.fns.get(a.a[1])
            # captured by mutable reference?  the capture's type is visible on the closure environment
            for j, x in enumerate(a.a[4]):
                if x.op == 'ref' and x.a[0][0] != 'P' and fn is not None and self.captures_mut(fn, j):
                    self.havoc(st, x, v, 100 + j)

    def captures_mut(self, fn, j):
        for b in fn['blocks']:
            for s in b['st']:
                if s['s'] == '=' and s['r']['k'] in ('ref', 'rawptr') and s['r'].get('mut'):
                    p = s['r']['p']
                    if p[0] == 1 and any(e[0] == 'f' and str(e[1]) == str(j) for e in p[1:3]):
                        return True
                if s['s'] == '=' and s['p'][0] == 1:
                    return True
        return False

    # -------------------------------------------------------------- pseudo loops (iterator consumers)
    def pseudo_loop(self, fr, st, tag, body):
        """body(st) -> list of extra values; runs to a fixpoint over the memory it changes"""
        key = (fr.ctx, 'it', fr.bb, tag)
        sticky = self.phi_sticky.setdefault(key, {})
        mark = len(self.eff)
        self.loopstack.append(key)
        bb = fr.bb
        res = None
        for n in range(12):
            del self.eff[mark:]
            s = st.copy()
            for cell, paths in sticky.items():
                v = self._rd(s, cell, ())
                for p in paths:
                    phi = mk('phi', fr.ctx, 'it%s.%s' % (bb, tag), cell, p)
                    init = v
                    for e in p:
                        init = self.proj(init, e)
                    self.phi_ops.setdefault(phi, [None, None])[0] = init
                    v = self.upd(v, p, phi)
                s.mem[cell] = v
            s0 = s.copy()
            res = body(s)
            fr.bb = bb
            changed = False
            if s.pc is not FALSE:
                for cell, v1 in s.mem.items():
                    if cell not in s0.mem and cell[0] == 'L':
                        continue
                    v0 = self._rd(s0, cell, ())
                    if v0 is v1:
                        continue
                    for p in self.diff(v0, v1, ()):
                        cur = sticky.setdefault(cell, [])
                        if any(p[:len(q)] == q for q in cur):
                            continue
                        cur[:] = [q for q in cur if q[:len(p)] != p]
                        cur.append(p)
                        changed = True
            if not changed:
                for cell, paths in sticky.items():
                    v = self._rd(s, cell, ())
                    for p in paths:
                        nv = v
                        for e in p:
                            nv = self.proj(nv, e)
                        self.phi_ops[mk('phi', fr.ctx, 'it%s.%s' % (bb, tag), cell, p)][1] = nv
                break
        self.loopstack.pop()
        # memory after the loop: the phi values
        pc = st.pc
        for cell in list(st.mem):
            if cell in s0.mem:
                st.mem[cell] = s0.mem[cell]
        for cell in s0.mem:
            if cell not in st.mem:
                st.mem[cell] = s0.mem[cell]
        for cell in s.mem:
            if cell not in st.mem and cell[0] != 'L':
                st.mem[cell] = s.mem[cell]
        st.pc = pc
        return res


class FnRef:
    """hashable wrapper of a function constant"""
    _t = {}

    def __new__(cls, d):
        k = (d.get('rkey') or d['key'], d['key'], tuple(d['gargs']))
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls)
            o.d = d
            o.k = k
            cls._t[k] = o
        return o

    def __str__(self):
        return self.d['path']

    __repr__ = __str__


class CallInfo:
    __slots__ = ('path', 'f', 'gargs', 'args', 'argtys', 'ret', 't', 'target', 'rargs')

    def __init__(self, path, f, gargs, args, argtys, ret, t, target, rargs):
        self.path, self.f, self.gargs, self.args, self.argtys, self.ret, self.t, self.target, self.rargs = path, f, gargs, args, argtys, ret, t, target, rargs


IMPURE = {
    'std::time::Instant::now', 'chrono::offset::utc::Utc::now', 'std::sync::mpsc::Receiver::<T>::recv',
    'std::sync::mpsc::Receiver::<T>::try_recv', 'std::sync::mpsc::Sender::<T>::send',
    'std::process::Command::status', 'std::sync::mpsc::channel', 'std::fs::OpenOptions::open',
    'std::thread::join_handle::JoinHandle::<T>::join', 'std::thread::functions::spawn', 'std::path::Path::exists',
    'std::fs::create_dir_all', 'std::fs::copy', 'core::iter::traits::iterator::Iterator::next',
}

from .terms import _atom, _short  # noqa: E402
