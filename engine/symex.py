"""Symbolic executor for LLVM IR: guarded merging at every join, object based memory.

One call of Executor.run(entry) turns the reachable code into a term DAG plus a list of
obligations (assertions, undefined-behaviour conditions, aborts, unwinding bounds).
"""
import heapq
import struct
from fractions import Fraction
from math import gcd
import terms as t
from terms import And, Or, Not, C, ite


class EngineError(Exception):
    """the code cannot be encoded; the check gives no verdict"""


class NeedCase(Exception):
    def __init__(self, name, lo, hi, parts=1, cuts=None):
        self.name, self.lo, self.hi, self.parts, self.cuts = name, lo, hi, parts, cuts


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class FBits:
    """the bit pattern of a float value held in an integer register"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Ptr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(c)

    def __repr__(self):
        return 'Ptr%r' % ([(g, getattr(o, 'name', o), f) for g, o, f in self.c],)


class Obj:
    __slots__ = ('id', 'size', 'name', 'kind', 'base', 'zero', 'ty')

    def __init__(self, id, size, name, kind, zero=False):
        self.id, self.size, self.name, self.kind, self.zero = id, size, name, kind, zero
        self.base = 0x100000000 + id * 0x1000000
        self.ty = None


class State:
    __slots__ = ('guard', 'mem', 'dead')

    def __init__(self, guard, mem):
        self.guard, self.mem, self.dead = guard, mem, False

    def fork(self):
        return State(self.guard, dict(self.mem))


class Obl:
    __slots__ = ('kind', 'label', 'guard', 'cond', 'where')

    def __init__(self, kind, label, guard, cond, where):
        self.kind, self.label, self.guard, self.cond, self.where = kind, label, guard, cond, where

    def violation(self):
        return And(*self.guard, Not(self.cond))


Z64 = None


def c64(v):
    return C(v, 64)


# std exception hierarchy (only typeinfo names without a definition in the module need it)
BASES = {
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error',
}


def walk_regs(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'reg' and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            walk_regs(y, out)
    elif isinstance(x, list):
        for y in x:
            walk_regs(y, out)


def liveness(fn):
    use, dfn, phiuse = {}, {}, {}
    for b in fn.order:
        u, d = set(), set()
        for ins in fn.blocks[b]:
            if ins.op == 'phi':
                for v, p in ins.a:
                    if v[0] == 'reg':
                        phiuse.setdefault(p, {}).setdefault(b, set()).add(v[1])
                d.add(ins.res)
                continue
            r = set()
            walk_regs(ins.a, r)
            u |= r - d
            if ins.res is not None:
                d.add(ins.res)
        use[b], dfn[b] = u, d
    live = {b: set(use[b]) for b in fn.order}
    changed = True
    while changed:
        changed = False
        for b in reversed(fn.order):
            out = set()
            for s in fn.succ[b]:
                out |= live[s] - {i.res for i in fn.blocks[s] if i.op == 'phi'}
                out |= phiuse.get(b, {}).get(s, set())
            new = use[b] | (out - dfn[b])
            if new != live[b]:
                live[b] = new
                changed = True
    fn.live = live


class Executor:
    def __init__(self, mod, fixed=None, max_unroll=4000, feasible=None, tier=0):
        self.mod = mod
        self.types = mod.types
        self.fixed = fixed or {}
        self.tier = tier
        self.objs = []
        self.gobj = {}
        self.ginit = {}
        self.obls = []
        self.reach = []
        self.watch = []
        self.assumes = []
        self.eager = None
        self.asked = {}
        self.vars = {}          # name -> (term, lo, hi)
        self.used_fixed = set()
        self.names = {}
        self.funcs = set()
        self.fresh = 0
        self.max_unroll = max_unroll
        self.feasible = feasible
        self.dommemo = {}
        self.where = ''
        self.ctxmemo = {}
        self.ninstr = 0
        self.nstates = 0
        self.unmod = []
        self.stack = []
        self.excinfo = {}       # exception Obj id -> typeinfo name
        self.TRUEG = frozenset()
        self.pin = None
        import builtins_vp
        self.bi = builtins_vp.table()
        self.bi_prefix = builtins_vp.prefixes(self.opaque)

    # ------------------------------------------------------------ helpers
    def newobj(self, size, name, kind, zero=False):
        o = Obj(len(self.objs), size, name, kind, zero)
        self.objs.append(o)
        return o

    def freshvar(self, w, why='undef', lo=None, hi=None):
        self.fresh += 1
        return t.var('%s#%d' % (why, self.fresh), w, lo, hi)

    def ctx(self, guard):
        r = self.ctxmemo.get(guard)
        if r is None:
            r = {}
            for l in guard:
                t.derive(l, r)
            if len(guard) > 1:
                for l in guard:
                    t.derive(l, r)
            if len(self.ctxmemo) > 20000:
                self.ctxmemo.clear()
            self.ctxmemo[guard] = r
        return r

    def ival(self, x, st):
        return t.ival(x, self.ctx(st.guard))

    def decide(self, c, st):
        """c simplified under the guard: TRUE / FALSE / c"""
        if c is t.TRUE or c is t.FALSE:
            return c
        g = st.guard
        if c in g:
            return t.TRUE
        n = Not(c)
        if n in g:
            return t.FALSE
        return self._dec(c, self.ctx(g), g, 4)

    def _dec(self, c, ctx, g, depth):
        if c is t.TRUE or c is t.FALSE or depth == 0:
            return c
        if c in g:
            return t.TRUE
        if Not(c) in g:
            return t.FALSE
        v = t.onevar(c)
        if v and v.w != 1:
            dom = self.domain(g, v)
            m = t.bits(c)
            if m >= 0 and dom:
                if not dom & m:
                    return t.FALSE
                if dom & m == dom:
                    return t.TRUE
        op = c.op
        if op == 'not':
            r = self._dec(c.args[0], ctx, g, depth)
            return Not(r) if r is not c.args[0] else c
        if op == 'and' or op == 'or':
            rs = [self._dec(a, ctx, g, depth - 1) for a in c.args]
            return And(*rs) if op == 'and' else Or(*rs)
        if op in ('slt', 'sle', 'ult', 'ule', 'eq') and isinstance(c.args[0].w, int) and c.args[0].w > 1:
            a = t.ival(c.args[0], ctx)
            b = t.ival(c.args[1], ctx)
            if a[0] > a[1] or b[0] > b[1]:
                return c
            if op in ('ult', 'ule') and (a[0] < 0 or b[0] < 0):
                return c
            if op in ('slt', 'ult'):
                if a[1] < b[0]:
                    return t.TRUE
                if a[0] >= b[1]:
                    return t.FALSE
            elif op in ('sle', 'ule'):
                if a[1] <= b[0]:
                    return t.TRUE
                if a[0] > b[1]:
                    return t.FALSE
            else:
                if a[1] < b[0] or b[1] < a[0]:
                    return t.FALSE
                if a[0] == a[1] == b[0] == b[1]:
                    return t.TRUE
        return c

    def ask(self, c, st):
        """c decided by the solver under the guard, when it has only one value there"""
        key = (st.guard, c.id)
        r = self.asked.get(key)
        if r is None:
            r = c
            g = And(*st.guard, *self.assumes)
            if not self.feasible(And(g, c)):
                r = t.FALSE
            elif not self.feasible(And(g, Not(c))):
                r = t.TRUE
            self.asked[key] = r
        return r

    def domain(self, g, v):
        """values of the small variable v that the literals of g over v alone leave"""
        r = self.dommemo.get((g, v.id))
        if r is None:
            r = (1 << (v.hi - v.lo + 1)) - 1
            for l in g:
                if t.onevar(l) is v:
                    m = t.bits(l)
                    if m >= 0:
                        r &= m
            if len(self.dommemo) > 20000:
                self.dommemo.clear()
            self.dommemo[(g, v.id)] = r
        return r

    def addg(self, guard, c):
        """guard and c, or None when contradictory"""
        if c is t.TRUE:
            return guard
        if c is t.FALSE:
            return None
        ls = t.conj(c)
        for l in ls:
            if Not(l) in guard:
                return None
        return guard | ls

    def oblige(self, st, cond, kind, label):
        if self.warm:
            return
        cond = self.decide(cond, st)
        if cond is t.TRUE:
            return
        self.obls.append(Obl(kind, label, st.guard, cond, self.where))

    # ------------------------------------------------------------ merging
    def split_cond(self, ga, gb):
        """condition selecting a, merged guard"""
        common = ga & gb
        da, db = ga - common, gb - common
        if not da:
            cond = Not(And(*db))
        elif not db:
            cond = And(*da)
        elif len(da) <= len(db):
            cond = And(*da)
        else:
            cond = Not(And(*db))
        m = t.merge2(ga, gb)
        if m is None:
            o = Or(And(*da), And(*db))
            m = self.addg(common, o)
            if m is None:
                m = common
        return cond, m

    def mergev(self, c, a, b):
        if a is b or c is t.TRUE:
            return a
        if c is t.FALSE:
            return b
        if a is UNDEF or a is None:
            return b
        if b is UNDEF or b is None:
            return a
        if isinstance(a, t.T) and isinstance(b, t.T):
            if a.w != b.w:
                raise EngineError('merge of different widths')
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.c == b.c:
                return a
            out = {}
            nc = Not(c)
            for cc, p in ((c, a), (nc, b)):
                for g, o, off in p.c:
                    gg = And(cc, g)
                    if gg is t.FALSE:
                        continue
                    k = o.id if isinstance(o, Obj) else o
                    if k in out:
                        g0, o0, f0 = out[k]
                        out[k] = (Or(g0, gg), o, ite(gg, off, f0))
                    else:
                        out[k] = (gg, o, off)
            xs = list(out.values())
            if len(xs) == 1:
                xs = [(t.TRUE, xs[0][1], xs[0][2])]
            return Ptr(xs)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.mergev(c, x, y) for x, y in zip(a, b))
        if isinstance(a, FBits) and isinstance(b, FBits):
            return FBits(self.mergev(c, a.v, b.v))
        if isinstance(a, FBits):
            a = self.fbits_int(a)
            return self.mergev(c, a, b)
        if isinstance(b, FBits):
            return self.mergev(c, a, self.fbits_int(b))
        if isinstance(a, Ptr) and isinstance(b, t.T):
            return self.mergev(c, a, self.int2ptr(b))
        if isinstance(a, t.T) and isinstance(b, Ptr):
            return self.mergev(c, self.int2ptr(a), b)
        raise EngineError('merge %r %r' % (a, b))

    def fbits_int(self, f):
        v = f.v
        if isinstance(v, t.T) and v.op == 'fc' and v.w == 'd':
            return C(struct.unpack('<q', struct.pack('<d', float(v.k)))[0], 64)
        raise EngineError('bit pattern of a symbolic float')

    def merge_mem(self, c, ma, mb):
        if ma is mb:
            return ma
        out = {}
        for k, va in ma.items():
            vb = mb.get(k)
            if va is vb or vb is None:
                out[k] = va
            elif va is None:
                out[k] = vb
            else:
                out[k] = self.merge_cells(c, va, vb, self.objs[k])
        for k, vb in mb.items():
            if k not in ma:
                out[k] = vb
        return out

    def merge_cells(self, c, a, b, obj):
        if a == b:
            return a
        out = {}
        bad = False
        for off, (sz, v) in a.items():
            w = b.get(off)
            if w is None:
                bad = True
                break
            if w[0] != sz:
                bad = True
                break
            if w[1] is v:
                out[off] = w
            else:
                out[off] = (sz, self.mergev(c, v, w[1]))
        if not bad and len(a) == len(b):
            return out
        # different layouts: go through the finer partition
        out = {}
        offs = sorted(set(a) | set(b))
        i = 0
        done = -1
        for off in offs:
            if off <= done - 1:
                continue
            ca, cb = a.get(off), b.get(off)
            if ca and cb and ca[0] == cb[0]:
                out[off] = (ca[0], self.mergev(c, ca[1], cb[1]))
                done = off + ca[0]
                continue
            one = ca or cb
            other = b if ca else a
            # does the other side have anything overlapping?
            lo, hi = off, off + one[0]
            ov = [o for o, (s, _) in other.items() if o < hi and o + s > lo]
            if not ov and not (ca and cb):
                if obj.zero:
                    z = self.zero_like(one[1], one[0])
                    v = self.mergev(c, one[1], z) if ca else self.mergev(c, z, one[1])
                    out[off] = (one[0], v)
                else:
                    out[off] = one
                done = hi
                continue
            # byte-wise region: take the union extent
            ext = hi
            chg = True
            while chg:
                chg = False
                for m in (a, b):
                    for o, (s, _) in m.items():
                        if o < ext and o + s > lo and o + s > ext:
                            ext = o + s
                            chg = True
            for k in range(lo, ext):
                x = self.read_bytes(a, k, 1, obj)
                y = self.read_bytes(b, k, 1, obj)
                v = self.mergev(c, x, y)
                if v is not UNDEF:
                    out[k] = (1, v)
            done = ext
        return out

    def zero_like(self, v, sz):
        if isinstance(v, Ptr):
            return NULLP()
        if isinstance(v, t.T) and not isinstance(v.w, int):
            return t.FC(0, v.w)
        return C(0, sz * 8)

    def merge_entry(self, e1, e2):
        s1, env1, x1 = e1
        s2, env2, x2 = e2
        cond, g = self.split_cond(s1.guard, s2.guard)
        mem = self.merge_mem(cond, s1.mem, s2.mem)
        env = {}
        for k, v in env1.items():
            w = env2.get(k)
            env[k] = v if (w is None or w is v) else self.mergev(cond, v, w)
        for k, w in env2.items():
            if k not in env1:
                env[k] = w
        x = x1
        if x1 is not None:
            x = (x1[0], self.mergev(cond, x1[1], x2[1]))
        return State(g, mem), env, x

    # ------------------------------------------------------------ memory
    def cells(self, st, o):
        m = st.mem.get(o.id)
        if m is None:
            if o.kind in ('global', 'const'):
                m = self.global_cells(o)
                st.mem[o.id] = m
            else:
                m = st.mem[o.id] = {}
        return m

    def global_cells(self, o):
        m = self.ginit.get(o.id)
        if m is None:
            ty, init, const = self.mod.get_global(o.name)
            m = {}
            if init is None:
                pass
            else:
                self.init_cells(m, 0, ty, init)
            self.ginit[o.id] = m
        return m

    def init_cells(self, m, off, ty, init):
        ty = self.types.resolve(ty)
        k = init[0]
        if k in ('zero', 'undef') or (k == 'null' and ty[0] != 'ptr'):
            return
        if k == 'bytes':
            for i, b in enumerate(init[1]):
                m[off + i] = (1, C(b, 8))
            return
        if k == 'agg':
            if ty[0] == 'arr':
                es = self.types.size(ty[2])
                for i, (et, ev) in enumerate(init[1]):
                    self.init_cells(m, off + i * es, et, ev)
            else:
                for i, (et, ev) in enumerate(init[1]):
                    self.init_cells(m, off + self.types.field_offset(ty, i), et, ev)
            return
        m[off] = (self.types.size(ty), self.constval(ty, init))

    def byte_of(self, v, sz, k):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, FBits):
            v = self.fbits_int(v)
        if isinstance(v, t.T) and not isinstance(v.w, int):
            v = self.fbits_int(FBits(v))
        if isinstance(v, Ptr):
            raise EngineError('byte access to a stored pointer')
        if v.w == 1:
            v = t.zext(v, 8)
        if v.w < sz * 8:
            v = t.zext(v, sz * 8)
        if sz == 1:
            return v
        if v.op == 'cat':
            off = 0
            for p in v.args:
                if off <= 8 * k and 8 * k + 8 <= off + p.w:
                    return t.trunc(t.lshr(p, C(8 * k - off, p.w)), 8) if p.w > 8 else p
                off += p.w
        return t.trunc(t.lshr(v, C(8 * k, v.w)), 8)

    def find_cell(self, m, off):
        """cell covering byte off"""
        c = m.get(off)
        if c is not None:
            return off, c
        for o in range(off - 1, off - 16, -1):
            c = m.get(o)
            if c is not None:
                return (o, c) if o + c[0] > off else (None, None)
        return None, None

    def read_bytes(self, m, off, n, obj):
        """n bytes as an integer value (or the exact cell value)"""
        c = m.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []
        k = 0
        while k < n:
            o, c = self.find_cell(m, off + k)
            if c is None:
                if obj.zero or obj.kind in ('global', 'const'):
                    parts.append(C(0, 8))
                else:
                    parts.append(UNDEF)
                k += 1
                continue
            sz, v = c
            if o == off + k and sz <= n - k and isinstance(v, t.T) and isinstance(v.w, int) and v.w == 8 * sz:
                parts.append(v)
                k += sz
                continue
            if o < off + k or sz > n - k:
                # slice inside a larger integer cell
                a = off + k - o
                take = min(sz - a, n - k)
                if isinstance(v, t.T) and isinstance(v.w, int) and v.w == 8 * sz and take in (1, 2, 4, 8) and v.op != 'cat':
                    x = t.trunc(t.lshr(v, C(8 * a, v.w)), 8 * take)
                    parts.append(x)
                    k += take
                    continue
                if isinstance(v, t.T) and v.op == 'cat' and take > 1:
                    p8, got = 0, None
                    for p in v.args:
                        if p8 == 8 * a and p.w == 8 * take:
                            got = p
                        p8 += p.w
                    if got is not None:
                        parts.append(got)
                        k += take
                        continue
            parts.append(self.byte_of(v, sz, off + k - o))
            k += 1
        if all(p is UNDEF for p in parts):
            return UNDEF
        parts = [self.freshvar(8) if p is UNDEF else p for p in parts]
        return t.cat(parts)

    def read_typed(self, m, off, ty, obj):
        ty = self.types.resolve(ty)
        k = ty[0]
        if k == 'st':
            return tuple(self.read_typed(m, off + self.types.field_offset(ty, i), f, obj) for i, f in enumerate(ty[1]))
        if k == 'arr':
            es = self.types.size(ty[2])
            return tuple(self.read_typed(m, off + i * es, ty[2], obj) for i in range(ty[1]))
        n = self.types.size(ty)
        v = self.read_bytes(m, off, n, obj)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if v is UNDEF:
            return v
        k = ty[0]
        if k == 'i':
            if isinstance(v, t.T):
                if not isinstance(v.w, int):
                    if v.op == 'fc':
                        return self.fbits_int(FBits(v))
                    return FBits(v)
                if v.w == ty[1]:
                    return v
                if v.w > ty[1]:
                    return t.trunc(v, ty[1])
                return t.zext(v, ty[1])
            if isinstance(v, (FBits,)):
                return v
            if isinstance(v, Ptr):
                return self.ptr2int(v)
        if k == 'f':
            w = t.FPN[ty[1]]
            if isinstance(v, t.T) and v.w == w:
                return v
            if isinstance(v, FBits):
                return v.v
            if isinstance(v, t.T) and t.isc(v) and w == 'd':
                return self.fpconst_bits(v.k)
            if isinstance(v, t.T) and v.op == 'ite':
                return t.map_ite(v, lambda x: self.coerce(x, ty))
            raise EngineError('float read of an integer cell')
        if k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, t.T):
                return self.int2ptr(v)
        raise EngineError('coerce %r to %r' % (v, ty))

    def fpconst_bits(self, k):
        d = struct.unpack('<d', struct.pack('<q', t.sx(k, 64)))[0]
        if d != d:
            return t.fspecial('nan', 'd')
        if d in (float('inf'), float('-inf')):
            return t.fspecial('inf' if d > 0 else '-inf', 'd')
        return t.FC(d, 'd')

    def ptr2int(self, p):
        out = None
        for g, o, off in p.c:
            if o is None:
                v = off
            elif isinstance(o, Obj):
                v = t.add(c64(o.base), off)
            else:
                v = c64(0x7000000 + (hash(o) & 0xffff) * 16)
            out = v if out is None else ite(g, v, out)
        return out

    def int2ptr(self, v):
        if v.w != 64:
            v = t.zext(v, 64)
        if t.isc(v) and v.k == 0:
            return NULLP()
        lo, hi = v.lo, v.hi
        if lo >= 0x100000000 and lo // 0x1000000 == hi // 0x1000000:
            o = self.objs[(lo - 0x100000000) // 0x1000000]
            return Ptr(((t.TRUE, o, t.sub(v, c64(o.base))),))
        if v.op == 'ite':
            return self.mergev(v.args[0], self.int2ptr(v.args[1]), self.int2ptr(v.args[2]))
        if t.isc(v):
            return Ptr(((t.TRUE, None, v),))
        raise EngineError('integer to pointer')

    def write_cell(self, m, off, sz, v):
        c = m.get(off)
        if c is None or c[0] != sz:
            hi = off + sz
            for o in range(off - 15, hi):
                c = m.get(o)
                if c is None or o + c[0] <= off:
                    continue
                csz, cv = c
                if o >= off and o + csz <= hi:
                    del m[o]
                    continue
                del m[o]
                for k in range(csz):
                    if not off <= o + k < hi:
                        b = self.byte_of(cv, csz, k)
                        if b is not UNDEF:
                            m[o + k] = (1, b)
        if v is UNDEF:
            if off in m:
                del m[off]
            return
        if isinstance(v, t.T) and v.op == 'cat' and v.w == 8 * sz and all(p.w % 8 == 0 for p in v.args):
            if off in m:
                del m[off]
            for p in v.args:
                m[off] = (p.w // 8, p)
                off += p.w // 8
            return
        if isinstance(v, t.T) and isinstance(v.w, int) and v.w < 8 * sz:
            v = t.zext(v, 8 * sz)
        m[off] = (sz, v)

    def write_typed(self, m, off, ty, v):
        ty = self.types.resolve(ty)
        if ty[0] == 'st':
            for i, f in enumerate(ty[1]):
                self.write_typed(m, off + self.types.field_offset(ty, i), f, UNDEF if v is UNDEF else v[i])
            return
        if ty[0] == 'arr':
            es = self.types.size(ty[2])
            for i in range(ty[1]):
                self.write_typed(m, off + i * es, ty[2], UNDEF if v is UNDEF else v[i])
            return
        self.write_cell(m, off, self.types.size(ty), v)

    def stride(self, x):
        if t.isc(x):
            return abs(x.k)
        if x.op == 'mul' and t.isc(x.args[1]):
            return abs(x.args[1].k) * max(1, self.stride(x.args[0]))
        if x.op in ('add', 'sub'):
            return gcd(self.stride(x.args[0]), self.stride(x.args[1]))
        if x.op in ('sext', 'zext'):
            return self.stride(x.args[0])
        if x.op == 'ite':
            return gcd(self.stride(x.args[1]), self.stride(x.args[2]))
        return 1

    def offsets(self, st, off, n, size):
        """candidate concrete offsets for an access of n bytes"""
        lo, hi = self.ival(off, st)
        if off.op == 'ite':
            ls = t.ite_leaves(off, 64)
            if ls is not None and all(t.isc(x) for x in ls):
                return sorted({x.k for x in ls if 0 <= x.k <= size - n and lo <= x.k <= hi})
        s = max(1, self.stride(off))
        base = 0
        if off.op == 'add' and t.isc(off.args[1]):
            s = max(1, self.stride(off.args[0]))
            base = off.args[1].k % s
        lo, hi = max(lo, 0), min(hi, size - n)
        lo += (base - lo) % s
        return list(range(lo, hi + 1, s))

    def bounds_ok(self, st, o, off, n):
        if t.isc(off):
            return C(0 <= off.k <= o.size - n, 1)
        return And(t.sle(c64(0), off), t.sle(off, c64(o.size - n)))

    def access(self, st, p, n, what):
        """check and return [(guard, obj, off)] of the valid candidates"""
        if p is UNDEF:
            self.oblige(st, t.FALSE, 'ub', 'access through an indeterminate pointer')
            st.dead = True
            return []
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        out = []
        for g, o, off in p.c:
            gd = self.decide(g, st)
            if gd is t.FALSE:
                continue
            if not isinstance(o, Obj):
                self.oblige(st, Not(g), 'ub', '%s through a null or invalid pointer' % what)
                continue
            if st.mem.get(o.id, 0) is None:
                self.oblige(st, Not(g), 'ub', '%s of a dead object %s' % (what, o.name))
                continue
            ok = self.bounds_ok(st, o, off, n)
            if ok is not t.TRUE:
                self.oblige(st, Or(Not(g), ok), 'ub', '%s out of bounds of %s' % (what, o.name))
                if ok is t.FALSE:
                    continue
            out.append((gd, o, off))
        if not out:
            st.dead = True          # nothing defined comes after it
        return out

    def load(self, st, p, ty):
        ty = self.types.resolve(ty)
        n = self.types.size(ty)
        val = None
        for g, o, off in self.access(st, p, n, 'read'):
            m = self.cells(st, o)
            if t.isc(off):
                v = self.read_typed(m, off.k, ty, o)
            else:
                v = None
                for k in self.offsets(st, off, n, o.size):
                    x = self.read_typed(m, k, ty, o)
                    v = x if v is None else self.mergev(t.eq(off, c64(k)), x, v)
                if v is None:
                    continue
            val = v if val is None else self.mergev(g, v, val)
        return UNDEF if val is None else val

    def store(self, st, p, ty, v):
        ty = self.types.resolve(ty)
        n = self.types.size(ty)
        cs = self.access(st, p, n, 'write')
        for g, o, off in cs:
            if o.kind == 'const':
                self.oblige(st, Not(g), 'ub', 'write to constant %s' % o.name)
                continue
            m = dict(self.cells(st, o))
            if t.isc(off):
                if g is t.TRUE or len(cs) == 1:
                    self.write_typed(m, off.k, ty, v)
                else:
                    old = self.read_typed(m, off.k, ty, o)
                    self.write_typed(m, off.k, ty, self.mergev(g, v, old))
            else:
                for k in self.offsets(st, off, n, o.size):
                    old = self.read_typed(m, k, ty, o)
                    c = And(g, t.eq(off, c64(k)))
                    self.write_typed(m, k, ty, self.mergev(c, v, old))
            st.mem[o.id] = m

    def memcpy(self, st, d, s, n, what='memcpy'):
        if not t.isc(n):
            lo, hi = self.ival(n, st)
            if hi < 0 or hi > 4096:
                self.oblige(st, And(t.sle(c64(0), n), t.sle(n, c64(4096))), 'ub', what + ' length')
                hi = min(max(hi, 0), 4096)
                if hi == 4096:
                    hi = max([o.size for _, o, _ in d.c if isinstance(o, Obj)] or [0])
            bs = []
            I8 = ('i', 8)
            for i in range(hi):
                g = self.addg(st.guard, t.slt(c64(i), n)) if i >= lo else st.guard
                if g is None:
                    bs.append(UNDEF)
                    continue
                s2 = State(g, st.mem)
                bs.append(self.load(s2, self.padd(s, c64(i)), I8))
            for i in range(hi):
                g = self.addg(st.guard, t.slt(c64(i), n)) if i >= lo else st.guard
                if g is None:
                    continue
                c = t.slt(c64(i), n)
                q = self.padd(d, c64(i))
                s2 = State(g, st.mem)
                if c is t.TRUE:
                    self.store(s2, q, I8, bs[i])
                else:
                    old = self.load(State(g, st.mem), q, I8)
                    self.store(s2, q, I8, self.mergev(c, bs[i], old))
            return
        n = n.k
        if n == 0:
            return
        ds = self.access(st, d, n, 'write')
        ss = self.access(st, s, n, 'read')
        if not ds or not ss:
            return
        if len(ds) == 1 and len(ss) == 1 and t.isc(ds[0][2]) and t.isc(ss[0][2]):
            o, off = ss[0][1], ss[0][2].k
            src = self.cells(st, o)
            got = {}
            k = 0
            while k < n:
                co, c = self.find_cell(src, off + k)
                if c is None:
                    if o.zero or o.kind in ('global', 'const'):
                        got[k] = (1, C(0, 8))
                    k += 1
                    continue
                if co == off + k and c[0] <= n - k:
                    got[k] = c
                    k += c[0]
                    continue
                got[k] = (1, self.byte_of(c[1], c[0], off + k - co))
                k += 1
            o2, off2 = ds[0][1], ds[0][2].k
            if o2.kind == 'const':
                self.oblige(st, t.FALSE, 'ub', 'write to constant')
                return
            m = dict(self.cells(st, o2))
            k = 0
            while k < n:
                if k in got:
                    self.write_cell(m, off2 + k, got[k][0], got[k][1])
                    k += got[k][0]
                else:
                    self.write_cell(m, off2 + k, 1, UNDEF)
                    k += 1
            st.mem[o2.id] = m
            return
        I8 = ('i', 8)
        bs = [self.load(st, self.padd(s, c64(i)), I8) for i in range(n)]
        for i in range(n):
            self.store(st, self.padd(d, c64(i)), I8, bs[i])

    def memset(self, st, d, v, n):
        if not t.isc(n):
            lo, hi = self.ival(n, st)
            if hi > 4096:
                raise EngineError('memset with unbounded length')
            for i in range(max(hi, 0)):
                c = t.slt(c64(i), n)
                g = self.addg(st.guard, self.decide(c, st))
                if g is None:
                    continue
                q = self.padd(d, c64(i))
                s2 = State(g, st.mem)
                if c is t.TRUE:
                    self.store(s2, q, ('i', 8), v)
                else:
                    old = self.load(State(g, st.mem), q, ('i', 8))
                    self.store(s2, q, ('i', 8), self.mergev(c, v, old))
            return
        n = n.k
        if n == 0:
            return
        for i in range(n):
            self.store(st, self.padd(d, c64(i)), ('i', 8), v)

    def padd(self, p, off):
        if p is UNDEF:
            return p
        if t.isc(off) and off.k == 0:
            return p
        if not isinstance(p, Ptr):
            return self.int2ptr(t.add(p, off))
        return Ptr([(g, o, t.add(f, off)) for g, o, f in p.c])

    # ------------------------------------------------------------ constants / operands
    def globalptr(self, name):
        name = self.mod.resolve_alias(name)
        if name in self.mod.funcs or name in self.mod.decls:
            return Ptr(((t.TRUE, '@' + name, c64(0)),))
        o = self.gobj.get(name)
        if o is None:
            g = self.mod.get_global(name)
            if g is None:
                raise EngineError('unknown global ' + name)
            ty, init, const = g
            try:
                size = self.types.size(ty)
            except Exception:
                size = 64
            if init is None and name.startswith('_ZTI'):
                size = max(size, 16)
            o = self.newobj(size, name, 'const' if const else 'global', True)
            self.gobj[name] = o
        return Ptr(((t.TRUE, o, c64(0)),))

    def constval(self, ty, v):
        ty = self.types.resolve(ty)
        k = v[0]
        if k == 'int':
            if ty[0] == 'ptr':
                return self.int2ptr(c64(v[1]))
            return C(v[1], ty[1])
        if k == 'fp':
            return t.FC(t.rnd(Fraction(v[2]), t.FPN[v[1]]), t.FPN[v[1]])
        if k == 'fphex':
            return self.fphex(v[1], v[2])
        if k == 'null':
            return NULLP()
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zeroval(ty)
        if k == 'gl':
            return self.globalptr(v[1])
        if k == 'agg':
            return tuple(self.constval(et, ev) for et, ev in v[1])
        if k == 'bytes':
            return tuple(C(b, 8) for b in v[1])
        if k == 'gep':
            bt, ops = v[1], v[2]
            p = self.constval(ops[0][0], ops[0][1])
            idx = [(ty2, self.constval(ty2, x)) for ty2, x in ops[1:]]
            return self.gep(bt, p, idx)
        if k == 'cast':
            _, op, st, sv, dt = v
            x = self.constval(st, sv)
            dt = self.types.resolve(dt)
            if op == 'ptrtoint':
                return t.trunc(self.ptr2int(x), dt[1])
            if op == 'inttoptr':
                return self.int2ptr(x)
            if op == 'bitcast':
                return x
            return {'trunc': t.trunc, 'zext': t.zext, 'sext': t.sext}[op](x, dt[1])
        if k == 'bin':
            a = self.constval(*v[2])
            b = self.constval(*v[3])
            return {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'xor': t.bxor, 'and': t.band, 'or': t.bor, 'shl': t.shl}[v[1]](a, b)
        raise EngineError('constant %r' % (v,))

    def fphex(self, ty, s):
        if ty == 'double':
            return self.fpconst_bits(int(s, 16))
        if ty == 'float':
            d = struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]
            return t.FC(d, 'f')
        if ty == 'x86_fp80':
            x = int(s[3:], 16)
            sign, e, m = x >> 79, (x >> 64) & 0x7fff, x & ((1 << 64) - 1)
            v = Fraction(m) * Fraction(2) ** (e - 16383 - 63)
            return t.FC(-v if sign else v, 'x')
        raise EngineError('float constant ' + s)

    def zeroval(self, ty):
        ty = self.types.resolve(ty)
        if ty[0] == 'i':
            return C(0, ty[1])
        if ty[0] == 'f':
            return t.FC(0, t.FPN[ty[1]])
        if ty[0] == 'ptr':
            return NULLP()
        if ty[0] == 'st':
            return tuple(self.zeroval(f) for f in ty[1])
        if ty[0] == 'arr':
            return tuple(self.zeroval(ty[2]) for _ in range(ty[1]))
        raise EngineError('zero of %r' % (ty,))

    def val(self, env, ty, v):
        if v[0] == 'reg':
            try:
                return env[v[1]]
            except KeyError:
                return UNDEF
        return self.constval(ty, v)

    def ival_(self, env, ty, v):
        """integer operand (undef becomes a fresh value)"""
        x = self.val(env, ty, v)
        return self.defd(x, ty)

    def defd(self, x, ty):
        if x is UNDEF:
            ty = self.types.resolve(ty)
            if ty[0] == 'i':
                return self.freshvar(ty[1])
            if ty[0] == 'ptr':
                return Ptr(((t.TRUE, None, c64(1)),))
            raise EngineError('undef of %r' % (ty,))
        return x

    def gep(self, bt, p, idx):
        off = c64(0)
        first = True
        ty = bt
        for ity, iv in idx:
            if first:
                sz = self.types.size(ty)
                off = t.add(off, t.mul(t.sext(iv, 64), c64(sz)))
                first = False
                continue
            ty = self.types.resolve(ty)
            if ty[0] == 'st':
                off = t.add(off, c64(self.types.field_offset(ty, iv.k)))
                ty = ty[1][iv.k]
            elif ty[0] in ('arr', 'vec'):
                ty = ty[2]
                off = t.add(off, t.mul(t.sext(iv, 64), c64(self.types.size(ty))))
            else:
                raise EngineError('gep into %r' % (ty,))
        return self.padd(p, off)

    # ------------------------------------------------------------ pointer comparison
    def pcmp(self, pred, a, b):
        a = a if isinstance(a, Ptr) else self.int2ptr(self.defd(a, ('i', 64)))
        b = b if isinstance(b, Ptr) else self.int2ptr(self.defd(b, ('i', 64)))
        if pred in ('eq', 'ne'):
            r = []
            for ga, oa, fa in a.c:
                for gb, ob, fb in b.c:
                    same = (oa is ob) if isinstance(oa, Obj) or isinstance(ob, Obj) else oa == ob
                    if same:
                        r.append(And(ga, gb, t.eq(fa, fb)))
            r = Or(*r) if r else t.FALSE
            return r if pred == 'eq' else Not(r)
        x, y = self.ptr2int(a), self.ptr2int(b)
        return icmp(pred, x, y)

    # ------------------------------------------------------------ functions
    def call_function(self, name, args, st):
        """-> (retstate or None, value, [exc (typeinfo, ptr, state)])"""
        fn = self.mod.funcs[name].parse()
        if not hasattr(fn, 'live'):
            liveness(fn)
        self.funcs.add(name)
        deep = len(self.stack) > 200
        if deep or (self.stack and name in self.stack and self.stack.count(name) in (3, 6, 12, 24, 48, 96)):
            if self.feasible is not None and not self.feasible(And(*st.guard, *self.assumes)):
                return None, None, []
        if deep:
            if not self.warm:
                self.obls.append(Obl('ub', 'recursion without end', st.guard, t.FALSE, name))
            return None, None, []
        self.stack.append(name)
        saved = self.where
        env = {}
        for (ty, nm, at), v in zip(fn.params, args):
            if 'byval' in at:
                sz = self.types.size(at['byval'])
                o = self.newobj(sz, name + '.' + nm, 'stack')
                p = Ptr(((t.TRUE, o, c64(0)),))
                st.mem[o.id] = {}
                self.memcpy(st, p, v, c64(sz))
                v = p
            env[nm] = v
        if fn.vararg:
            env['...'] = args[len(fn.params):]
        allocas = []
        pend = {fn.entry: [(st, env, None)]}
        heap = [(fn.pos[fn.entry], fn.entry)]
        rets = []
        excs = {}
        visits = {}
        entry_guard = st.guard

        def push(frm, to, st2, env2, exc=None):
            blk = fn.blocks[to]
            ne = {}
            for r in fn.live[to]:
                if r in env2:
                    ne[r] = env2[r]
            for ins in blk:
                if ins.op != 'phi':
                    break
                for v, p in ins.a:
                    if p == frm:
                        ne[ins.res] = self.val(env2, ins.ty, v)
                        break
            if fn.pos[to] <= fn.pos[frm]:
                n = visits.get(to, 0)
                if n >= self.max_unroll:
                    self.oblige(st2, t.FALSE, 'unwind', 'loop bound %d exceeded in %s' % (self.max_unroll, name))
                    return
                if n >= 6 and st2.guard != entry_guard and (n & (n - 1) == 0 or n % 16 == 0):
                    if self.feasible is not None and not self.feasible(And(*st2.guard, *self.assumes)):
                        return
            if to in pend:
                pend[to].append((st2, ne, exc))
            else:
                pend[to] = [(st2, ne, exc)]
                heapq.heappush(heap, (fn.pos[to], to))

        def throw(ti, ptr, st2):
            if ti in excs:
                s, e, x = self.merge_entry((excs[ti][1], {}, (ti, excs[ti][0])), (st2, {}, (ti, ptr)))
                excs[ti] = (x[1], s)
            else:
                excs[ti] = (ptr, st2)

        while heap:
            _, b = heapq.heappop(heap)
            ents = pend.pop(b, None)
            if not ents:
                continue
            visits[b] = visits.get(b, 0) + 1
            self.nstates += len(ents)
            groups = {}
            for e in ents:
                k = e[2][0] if e[2] is not None else None
                groups.setdefault(k, []).append(e)
            for k, es in groups.items():
                while len(es) > 1:
                    # merge the pair with the closest guards first
                    es.append(self.merge_entry(es.pop(), es.pop()))
                st2, env2, exc = es[0]
                self.exec_block(fn, b, st2, env2, exc, push, throw, rets, allocas)
        self.stack.pop()
        self.where = saved
        for o in allocas:
            for s, _ in rets:
                s.mem[o.id] = None
        ret, val = None, None
        if rets:
            es = [(s, {'r': v}, None) for s, v in rets]
            while len(es) > 1:
                es.append(self.merge_entry(es.pop(), es.pop()))
            ret, val = es[0][0], es[0][1].get('r')
        return ret, val, [(ti, p, s) for ti, (p, s) in excs.items()]

    def exec_block(self, fn, b, st, env, exc, push, throw, rets, allocas):
        for ins in fn.blocks[b]:
            op = ins.op
            if op == 'phi':
                continue
            self.ninstr += 1
            f = getattr(self, 'i_' + op, None)
            if f is not None:
                env[ins.res] = f(ins, st, env)
                if st.dead:
                    return
                continue
            if op == 'store':
                v = self.val(env, ins.ty, ins.a[0])
                self.where = fn.name
                self.store(st, self.val(env, ('ptr',), ins.a[1]), ins.ty, v)
                if st.dead:
                    return
                continue
            if op == 'alloca':
                n, nt = ins.a
                cnt = self.val(env, nt, n)
                if not t.isc(cnt):
                    raise EngineError('alloca of symbolic size')
                o = self.newobj(self.types.size(ins.ty) * cnt.k, fn.name + '.' + (ins.res or ''), 'stack')
                st.mem[o.id] = {}
                allocas.append(o)
                env[ins.res] = Ptr(((t.TRUE, o, c64(0)),))
                continue
            if op in ('call', 'invoke'):
                self.where = fn.name
                st = self.do_call(fn, b, ins, st, env, push, throw)
                if st is None:
                    return
                if op == 'invoke':
                    push(b, ins.a[2], st, env)
                    return
                continue
            if op == 'br':
                if len(ins.a) == 1:
                    push(b, ins.a[0], st, env)
                    return
                c = self.defd(self.val(env, ('i', 1), ins.a[0]), ('i', 1))
                c = self.decide(c, st)
                if self.eager is not None and c is not t.TRUE and c is not t.FALSE and self.eager.search(fn.name):
                    c = self.ask(c, st)
                self.branch(b, st, env, [(c, ins.a[1]), (Not(c), ins.a[2])], push)
                return
            if op == 'switch':
                v = self.ival_(env, ins.ty, ins.a[0])
                rest = t.TRUE
                outs = {}
                for cv, lab in ins.a[2]:
                    c = self.decide(t.eq(v, C(cv[1], v.w)), st)
                    outs[lab] = Or(outs.get(lab, t.FALSE), c)
                    rest = And(rest, Not(c))
                outs[ins.a[1]] = Or(outs.get(ins.a[1], t.FALSE), rest)
                self.branch(b, st, env, [(c, l) for l, c in outs.items()], push)
                return
            if op == 'ret':
                v = None
                if ins.a:
                    v = self.val(env, ins.ty, ins.a[0])
                rets.append((st, v))
                return
            if op == 'unreachable':
                self.where = fn.name
                self.oblige(st, t.FALSE, 'ub', 'unreachable code reached')
                return
            if op == 'landingpad':
                r = self.landing(ins, exc, st)
                if r is None:
                    throw(exc[0], exc[1], st)
                    return
                env[ins.res] = r
                continue
            if op == 'resume':
                v = self.val(env, ins.ty, ins.a[0])
                p = v[0]
                for g, o, off in p.c:
                    gg = self.addg(st.guard, self.decide(g, st))
                    if gg is None:
                        continue
                    s2 = State(gg, dict(st.mem))
                    throw(self.excinfo[o.id], Ptr(((t.TRUE, o, off),)), s2)
                return
            raise EngineError('instruction %s in %s: %s' % (op, fn.name, ins.text[:120]))

    def branch(self, b, st, env, outs, push):
        live = []
        for c, lab in outs:
            g = self.addg(st.guard, c)
            if g is not None:
                live.append((g, lab))
        for i, (g, lab) in enumerate(live):
            s2 = State(g, st.mem if i == len(live) - 1 else dict(st.mem))
            push(b, lab, s2, env)

    def landing(self, ins, exc, st):
        ti, ptr = exc
        sel = None
        cleanup = False
        for cl in ins.a:
            if cl[0] == 'cleanup':
                cleanup = True
            elif cl[0] == 'catch':
                cv = cl[1]
                if cv[0] == 'null':
                    sel = 1
                    break
                if self.is_base(ti, cv[1]):
                    sel = self.typeid(cv[1])
                    break
            else:
                # filter: an empty filter is throw()
                sel = -1
                break
        if sel is None:
            if not cleanup:
                return None
            sel = 0
        return (ptr, C(sel, 32))

    def typeid(self, ti):
        d = self.__dict__.setdefault('_typeids', {})
        if ti not in d:
            d[ti] = len(d) + 2
        return d[ti]

    def is_base(self, ti, want):
        seen = 0
        while ti is not None and seen < 20:
            if ti == want:
                return True
            seen += 1
            nxt = BASES.get(ti)
            if nxt is None and ti in self.mod._raw_globals:
                g = self.mod.get_global(ti)
                if g[1] is not None and g[1][0] == 'agg' and len(g[1][1]) >= 3 and g[1][1][2][1][0] == 'gl':
                    nxt = g[1][1][2][1][1]
            ti = nxt
        return False

    def do_call(self, fn, b, ins, st, env, push, throw):
        """returns the state to continue with, or None"""
        callee, args = ins.a[0], ins.a[1]
        vals = []
        for ty, v, at in args:
            if ty[0] == 'metadata':
                vals.append(None)
            else:
                vals.append(self.val(env, ty, v))
        targets = []
        if callee[0] == 'gl':
            targets = [(t.TRUE, self.mod.resolve_alias(callee[1]))]
        else:
            p = self.val(env, ('ptr',), callee)
            if not isinstance(p, Ptr):
                self.oblige(st, t.FALSE, 'ub', 'indirect call through a bad pointer')
                return None
            for g, o, off in p.c:
                if isinstance(o, str):
                    targets.append((g, o[1:]))
                else:
                    self.oblige(st, Not(g), 'ub', 'indirect call through a bad pointer')
        res = []
        for g, name in targets:
            g = self.decide(g, st)
            gg = self.addg(st.guard, g)
            if gg is None:
                continue
            s2 = State(gg, st.mem if len(targets) == 1 else dict(st.mem))
            r = self.call_name(fn, b, ins, name, vals, args, s2, env)
            if len(r) == 4:
                push(b, r[1], s2, env, (r[2], r[3]))
                continue
            ret, val, excs = r
            for ti, p, s in excs:
                if ins.op == 'invoke':
                    push(b, ins.a[3], s, env, (ti, p))
                else:
                    throw(ti, p, s)
            if ret is not None:
                res.append((ret, {'r': val}, None))
        if not res:
            return None
        while len(res) > 1:
            res.append(self.merge_entry(res.pop(), res.pop()))
        st2, e, _ = res[0]
        if ins.res is not None:
            env[ins.res] = e.get('r')
        return st2

    opaque = False
    VARARGS = {'snprintf': ('vp_snprintf', 3), 'sprintf': ('vp_sprintf', 2), '__snprintf_chk': ('vp_snprintf_chk', 5),
               '__sprintf_chk': ('vp_sprintf_chk', 4)}

    def call_name(self, fn, b, ins, name, vals, args, st, env):
        va = self.VARARGS.get(name)
        if va and va[0] in self.mod.funcs:
            # the variable arguments, eight bytes each, in an array that the model reads
            k = va[1]
            o = self.newobj(8 * max(len(vals) - k, 1), 'varargs', 'stack')
            st.mem[o.id] = {}
            for i, (x, a) in enumerate(zip(vals[k:], args[k:])):
                ty = a[0]
                if ty[0] == 'i' and ty[1] < 64:
                    x, ty = t.sext(self.defd(x, ty), 64), ('i', 64)
                self.store(st, Ptr(((t.TRUE, o, C(8 * i, 64)),)), ty, x)
            return self.call_function(va[0], vals[:k] + [Ptr(((t.TRUE, o, C(0, 64)),))], st)
        h = self.bi.get(name)
        if h is None:
            for pre, hh in self.bi_prefix:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, vals, ins, fn, b)
            if r is NotImplemented:
                pass
            elif isinstance(r, tuple) and len(r) == 4 and r[0] == 'exc-at':
                return r
            elif isinstance(r, tuple) and len(r) == 3 and r[2].__class__ is list:
                return r
            else:
                return st, r, []
        if name in self.mod.funcs:
            return self.call_function(name, vals, st)
        raise EngineError('no model for function %s (called in %s)' % (name, fn.name))

    # ------------------------------------------------------------ plain instructions
    def binop(name):
        def f(self, ins, st, env):
            a = self.ival_(env, ins.ty, ins.a[0])
            b = self.ival_(env, ins.ty, ins.a[1])
            return self.arith(name, a, b, ins.flags, st)
        return f

    def arith(self, op, a, b, flags, st):
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        if isinstance(a, FBits) or isinstance(b, FBits):
            raise EngineError('arithmetic on float bits')
        w = a.w
        if op in ('add', 'sub', 'mul'):
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](a, b)
            if 'nsw' in flags and w > 1:
                self.check_nsw(op, a, b, st)
            return r
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if not (t.isc(b) and b.k != 0):
                self.oblige(st, Not(t.eq(b, C(0, w))), 'ub', 'division by zero')
            if op in ('sdiv', 'srem') and (not t.isc(b) or b.k == -1):
                lo, hi = self.ival(a, st)
                if lo == t.imin(w):
                    self.oblige(st, Not(And(t.eq(a, C(t.imin(w), w)), t.eq(b, C(-1, w)))), 'ub', 'division overflow')
            # division by a value that is only known through cases
            if not t.isc(b) and t.const_tree(b):
                f = {'sdiv': t.sdiv, 'srem': t.srem, 'udiv': t.udiv, 'urem': t.urem}[op]
                return t.map_ite(b, lambda x: f(a, x) if x.k else C(0, w))
            return {'sdiv': t.sdiv, 'srem': t.srem, 'udiv': t.udiv, 'urem': t.urem}[op](a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if not t.isc(b):
                self.oblige(st, And(t.sle(C(0, w), b), t.slt(b, C(w, w))), 'ub', 'shift amount')
            return {'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr}[op](a, b)
        return {'and': t.band, 'or': t.bor, 'xor': t.bxor}[op](a, b)

    def check_nsw(self, op, a, b, st):
        w = a.w
        r = t.raw_ival(op, w, (a.lo, a.hi), (b.lo, b.hi))
        if r[0] >= t.imin(w) and r[1] <= t.imax(w):
            return
        r = t.raw_ival(op, w, self.ival(a, st), self.ival(b, st))
        if r is None or (r[0] >= t.imin(w) and r[1] <= t.imax(w)):
            return
        W = 2 * w
        x = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](t.sext(a, W), t.sext(b, W))
        ok = And(t.sle(C(t.imin(w), W), x), t.sle(x, C(t.imax(w), W)))
        self.oblige(st, ok, 'ub', 'signed overflow in %s' % op)

    i_add, i_sub, i_mul = binop('add'), binop('sub'), binop('mul')
    i_sdiv, i_srem, i_udiv, i_urem = binop('sdiv'), binop('srem'), binop('udiv'), binop('urem')
    i_and, i_or, i_xor = binop('and'), binop('or'), binop('xor')
    i_shl, i_lshr, i_ashr = binop('shl'), binop('lshr'), binop('ashr')

    def fop(name):
        def f(self, ins, st, env):
            a = self.fval(env, ins.ty, ins.a[0])
            b = self.fval(env, ins.ty, ins.a[1])
            if name == 'frem':
                return self.bi['fmod'](self, st, [a, b], ins, None, None)
            return t.fbin(name, a, b)
        return f

    def fval(self, env, ty, v):
        x = self.val(env, ty, v)
        if x is UNDEF:
            raise EngineError('indeterminate float')
        if isinstance(x, FBits):
            x = x.v
        return x

    i_fadd, i_fsub, i_fmul, i_fdiv, i_frem = fop('fadd'), fop('fsub'), fop('fmul'), fop('fdiv'), fop('frem')

    def i_fneg(self, ins, st, env):
        return t.fneg(self.fval(env, ins.a[0], ins.a[1]) if len(ins.a) == 2 else self.fval(env, ins.ty, ins.a[0]))

    def i_load(self, ins, st, env):
        return self.load(st, self.val(env, ('ptr',), ins.a[0]), ins.ty)

    def i_getelementptr(self, ins, st, env):
        p = self.val(env, ('ptr',), ins.a[0])
        idx = [(ty, self.ival_(env, ty, v)) for ty, v in ins.a[1]]
        return self.gep(ins.ty, p, idx)

    def i_icmp(self, ins, st, env):
        pred, a, b = ins.a
        ty = self.types.resolve(ins.ty)
        x, y = self.val(env, ty, a), self.val(env, ty, b)
        if ty[0] == 'ptr':
            return self.pcmp(pred, x, y)
        x, y = self.defd(x, ty), self.defd(y, ty)
        if isinstance(x, FBits) or isinstance(y, FBits):
            raise EngineError('integer comparison of float bits')
        return icmp(pred, x, y)

    def i_fcmp(self, ins, st, env):
        pred, a, b = ins.a
        return t.fcmp(pred, self.fval(env, ins.ty, a), self.fval(env, ins.ty, b))

    def i_select(self, ins, st, env):
        c, a, b = ins.a
        cv = self.decide(self.defd(self.val(env, ('i', 1), c), ('i', 1)), st)
        return self.mergev(cv, self.val(env, ins.ty, a), self.val(env, ins.ty, b))

    def i_freeze(self, ins, st, env):
        return self.defd(self.val(env, ins.ty, ins.a[0]), ins.ty)

    def i_extractvalue(self, ins, st, env):
        v = self.val(env, ins.ty, ins.a[0])
        for i in ins.a[1]:
            if v is UNDEF:
                return UNDEF
            v = v[i]
        return v

    def i_insertvalue(self, ins, st, env):
        v = self.val(env, ins.ty, ins.a[0])
        e = self.val(env, ins.a[3], ins.a[1])

        def put(ty, v, idx):
            ty = self.types.resolve(ty)
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            xs = [UNDEF] * n if v is UNDEF else list(v)
            i = idx[0]
            et = ty[1][i] if ty[0] == 'st' else ty[2]
            xs[i] = e if len(idx) == 1 else put(et, xs[i], idx[1:])
            return tuple(xs)
        return put(ins.ty, v, ins.a[2])

    def cast(name):
        def f(self, ins, st, env):
            sty, v = ins.a
            sty = self.types.resolve(sty)
            dty = self.types.resolve(ins.ty)
            x = self.val(env, sty, v)
            if name in ('zext', 'sext', 'trunc'):
                x = self.defd(x, sty)
                if isinstance(x, FBits):
                    x = self.fbits_int(x)
                if name == 'trunc' and isinstance(x, t.T):
                    lo, hi = self.ival(x, st)
                    if x.op == 'lshr':
                        pass
                return {'zext': t.zext, 'sext': t.sext, 'trunc': t.trunc}[name](x, dty[1])
            if name in ('sitofp', 'uitofp'):
                return t.itofp(self.defd(x, sty), t.FPN[dty[1]], name == 'sitofp')
            if name in ('fptosi', 'fptoui'):
                if x is UNDEF:
                    raise EngineError('indeterminate float')
                w = dty[1]
                self.fptoi_check(x, w, name == 'fptosi', st)
                return t.fptoi(x, w, name == 'fptosi')
            if name in ('fpext', 'fptrunc'):
                return t.fpcast(x, t.FPN[dty[1]])
            if name == 'ptrtoint':
                return t.trunc(self.ptr2int(x), dty[1]) if dty[1] < 64 else self.ptr2int(x)
            if name == 'inttoptr':
                return self.int2ptr(self.defd(x, sty))
            if name == 'bitcast':
                return self.coerce(x, dty)
            raise EngineError('cast ' + name)
        return f

    def fptoi_check(self, x, w, signed, st):
        lo, hi = (t.imin(w), t.imax(w)) if signed else (0, (1 << w) - 1)
        def ok(x):
            if x.op == 'fspec':
                return t.FALSE
            if x.lo is not None and t.ftr(x.lo) >= lo and t.ftr(x.hi) <= hi:
                return t.TRUE
            if t.special(x):
                return t.ite(x.args[0], ok(x.args[1]), ok(x.args[2]))
            return And(t.fcmp('olt', t.FC(lo - 1, x.w) if w < 53 else t.FC(Fraction(lo) - (1 << 11), x.w), x),
                       t.fcmp('olt', x, t.FC(Fraction(hi + 1), x.w)))
        c = ok(x)
        if c is not t.TRUE:
            self.oblige(st, c, 'ub', 'float to integer conversion out of range')

    i_trunc, i_zext, i_sext = cast('trunc'), cast('zext'), cast('sext')
    i_sitofp, i_uitofp, i_fptosi, i_fptoui = cast('sitofp'), cast('uitofp'), cast('fptosi'), cast('fptoui')
    i_fpext, i_fptrunc, i_bitcast = cast('fpext'), cast('fptrunc'), cast('bitcast')
    i_ptrtoint, i_inttoptr = cast('ptrtoint'), cast('inttoptr')

    # ------------------------------------------------------------ entry
    warm = None

    def run(self, entry, before=None):
        st = State(frozenset(), {})
        if '__vp_init' in self.mod.funcs:
            st, _, _ = self.call_function('__vp_init', [], st)
        for name in self.ctors():
            st, _, ex = self.call_function(name, [], st)
        self.start = dict(st.mem)           # the state of a process that has called nothing yet
        if before is not None:
            # the same entry first, on inputs of its own; only what it leaves behind in global objects counts
            self.warm = before
            s0, _, _ = self.call_function(entry, [], State(st.guard, dict(st.mem)))
            self.warm = None
            self.names = {}
            if s0 is not None:
                st = s0
        st, val, ex = self.call_function(entry, [], st)
        for ti, p, s in ex:
            self.where = entry
            self.oblige(s, t.FALSE, 'exc', 'uncaught exception ' + ti)
        self.final = st
        return st, val

    def written(self):
        """global objects that the run has changed"""
        out = []
        for o in self.objs:
            if o.kind == 'global' and self.final is not None:
                m = self.final.mem.get(o.id)
                if m is None:
                    continue
                b = self.start.get(o.id) or self.global_cells(o)
                if m is not b and m != b and not o.name.startswith('vp_'):
                    out.append(o.name)
        return out

    def ctors(self):
        if 'llvm.global_ctors' not in self.mod._raw_globals:
            return []
        g = self.mod.get_global('llvm.global_ctors')
        if g[1] is None or g[1][0] != 'agg':
            return []
        return [self.mod.resolve_alias(v[1][1][1][1]) for _, v in g[1][1]]


def NULLP():
    return Ptr(((t.TRUE, None, c64(0)),))


def icmp(pred, x, y):
    if pred == 'eq':
        return t.eq(x, y)
    if pred == 'ne':
        return Not(t.eq(x, y))
    if pred == 'slt':
        return t.slt(x, y)
    if pred == 'sgt':
        return t.slt(y, x)
    if pred == 'sle':
        return t.sle(x, y)
    if pred == 'sge':
        return t.sle(y, x)
    if pred == 'ult':
        return t.ult(x, y)
    if pred == 'ugt':
        return t.ult(y, x)
    if pred == 'ule':
        return t.ule(x, y)
    return t.ule(y, x)
