"""Executor built-ins: harness API, LLVM intrinsics, C++ runtime, a few libm functions."""
import math
from fractions import Fraction
import terms as t
from terms import And, Or, Not, C, ite


def _cstr(ex, st, p):
    out = []
    from symex import EngineError, Obj
    if len(p.c) != 1 or not isinstance(p.c[0][1], Obj):
        raise EngineError('label is not a constant string')
    _, o, off = p.c[0]
    m = ex.cells(st, o)
    k = off.k
    while True:
        v = ex.read_bytes(m, k, 1, o)
        if not t.isc(v):
            raise EngineError('label is not a constant string')
        if v.k == 0:
            return ''.join(out)
        out.append(chr(v.k & 255))
        k += 1


def _label(ex, st, p):
    return _cstr(ex, st, p)


def _name(ex, st, p):
    n = _cstr(ex, st, p)
    k = ex.names.get(n, 0)
    ex.names[n] = k + 1
    return n if k == 0 else '%s.%d' % (n, k)


def _before(ex, n, lo, hi, w, case):
    """an input of the call before: any value; a case of its own half of the time"""
    if case:
        a, b = ex.fixed.get(n, (lo, lo))
        if ex.warm.random() < 0.5 or a != b:
            a = ex.warm.randint(lo, hi)
        lo = hi = a
    n = 'before:' + n
    v = t.var(n, w, lo, hi)
    ex.vars[n] = (v, lo, hi, w)
    return v


def _pin(ex, n, lo, hi, always):
    """in a narrowed run: one value for (most of) the inputs"""
    if ex.pin is not None and (always or ex.pin[0].random() < ex.pin[1]):
        lo, hi = ex.fixed.get(n, (lo, hi))
        v = ex.pin[2](ex.pin[0], lo, hi)
        ex.fixed[n] = (v, v)


def vp_long(ex, st, a, ins, fn, b):
    n = _name(ex, st, a[0])
    lo, hi = a[1].k, a[2].k
    if ex.warm:
        return _before(ex, n, lo, hi, ins.ty[1], False)
    w = ins.ty[1]
    _pin(ex, n, lo, hi, False)
    if n in ex.fixed:
        lo, hi = ex.fixed[n]
        ex.used_fixed.add(n)
    v = t.var(n, w, lo, hi)
    ex.vars[n] = (v, lo, hi, w)
    return v


def vp_case(ex, st, a, ins, fn, b):
    from symex import NeedCase
    n = _name(ex, st, a[0])
    lo, hi = a[1].k, a[2].k
    if ex.warm:
        return _before(ex, n, lo, hi, ins.ty[1], True)
    _pin(ex, n, lo, hi, n not in ex.fixed)
    if n not in ex.fixed:
        raise NeedCase(n, lo, hi, hi - lo + 1)
    lo, hi = ex.fixed[n]
    ex.used_fixed.add(n)
    v = t.var(n, ins.ty[1], lo, hi)
    ex.vars[n] = (v, lo, hi, ins.ty[1])
    return v


def vp_split(ex, st, a, ins, fn, b):
    from symex import NeedCase
    n = _name(ex, st, a[0])
    lo, hi = a[1].k, a[2].k
    if ex.warm:
        return _before(ex, n, lo, hi, ins.ty[1], False)
    _pin(ex, n, lo, hi, n not in ex.fixed)
    if n not in ex.fixed:
        raise NeedCase(n, lo, hi, a[3].k)
    lo, hi = ex.fixed[n]
    ex.used_fixed.add(n)
    v = t.var(n, ins.ty[1], lo, hi)
    ex.vars[n] = (v, lo, hi, ins.ty[1])
    return v


def vp_binades(ex, st, a, ins, fn, b):
    """vp_binades(name, lo, hi, den): one job per range on which neither v nor v/den crosses a power of two"""
    from symex import NeedCase
    n = _name(ex, st, a[0])
    lo, hi, den = a[1].k, a[2].k, a[3].k
    if ex.warm:
        return _before(ex, n, lo, hi, ins.ty[1], False)
    _pin(ex, n, lo, hi, n not in ex.fixed)
    if n not in ex.fixed:
        cuts = set()
        if lo <= 0 <= hi:
            cuts |= {0, 1}
        for e in range(64):
            for v in (1 << e, -((-den) >> e) if e else den, den << e):
                for s in (v, 1 - v):
                    if lo < s <= hi:
                        cuts.add(s)
        cuts = sorted((cuts | {lo, hi + 1}))
        raise NeedCase(n, lo, hi, cuts=[(x, y - 1) for x, y in zip(cuts, cuts[1:]) if y > x])
    lo, hi = ex.fixed[n]
    ex.used_fixed.add(n)
    v = t.var(n, ins.ty[1], lo, hi)
    ex.vars[n] = (v, lo, hi, ins.ty[1])
    return v


def vp_tier(ex, st, a, ins, fn, b):
    return C(ex.tier, 32)


def boolarg(v):
    from symex import UNDEF, EngineError
    if v is UNDEF:
        raise EngineError('indeterminate condition')
    return v if v.w == 1 else t.tobit(v) if t.isbit(v) else Not(t.eq(v, C(0, v.w)))


def vp_assume(ex, st, a, ins, fn, b):
    c = ex.decide(boolarg(a[0]), st)
    g = ex.addg(st.guard, c)
    if g is None:
        return None, None, []
    st.guard = g
    return None


def vp_assert(ex, st, a, ins, fn, b):
    if ex.warm:
        return None
    c = ex.decide(boolarg(a[0]), st)
    from symex import Obl
    ex.obls.append(Obl('assert', _label(ex, st, a[1]), st.guard, c, ex.where))
    return None


def vp_reach(ex, st, a, ins, fn, b):
    if ex.warm:
        return None
    ex.reach.append((_label(ex, st, a[0]), st.guard))
    return None


def vp_watch(ex, st, a, ins, fn, b):
    if ex.warm:
        return None
    from symex import UNDEF
    if a[1] is not UNDEF:
        ex.watch.append((_label(ex, st, a[0]), st.guard, a[1]))
    return None


def dead(kind, label):
    def f(ex, st, a, ins, fn, b):
        ex.oblige(st, t.FALSE, kind, label if label else fn.name)
        return None, None, []
    return f


def assert_fail(ex, st, a, ins, fn, b):
    try:
        msg = _cstr(ex, st, a[0])
    except Exception:
        msg = '?'
    ex.oblige(st, t.FALSE, 'abort', 'assert(%s) failed in %s' % (msg, fn.name))
    return None, None, []


def nop(ex, st, a, ins, fn, b):
    return None


def memcpy(ex, st, a, ins, fn, b):
    n = a[2]
    ex.memcpy(st, a[0], a[1], t.zext(n, 64) if n.w < 64 else n)
    return a[0]


def memset(ex, st, a, ins, fn, b):
    v = a[1]
    if v.w > 8:
        v = t.trunc(v, 8)
    ex.memset(st, a[0], v, t.zext(a[2], 64) if a[2].w < 64 else a[2])
    return a[0]


def malloc(zero):
    def f(ex, st, a, ins, fn, b):
        from symex import Ptr, EngineError
        n = a[0] if not zero or len(a) < 2 else t.mul(a[0], a[1])
        lo, hi = ex.ival(n, st)
        if hi > 1 << 20 or hi < 0:
            hi = 4096
            ex.oblige(st, And(t.sle(C(0, 64), n), t.sle(n, C(hi, 64))), 'unwind', 'allocation larger than the model allows')
        o = ex.newobj(hi, 'heap in ' + fn.name[:40], 'heap', zero)
        st.mem[o.id] = {}
        return Ptr(((t.TRUE, o, C(0, 64)),))
    return f


def cxa_allocate_exception(ex, st, a, ins, fn, b):
    """go straight to the matching __cxa_throw: the construction of the exception object
    (message text) is not part of any property"""
    from symex import Ptr, EngineError
    seen = set()
    todo = [(b, True)]
    found = None
    while todo and found is None:
        bb, first = todo.pop(0)
        blk = fn.blocks[bb]
        started = not first
        for i in blk:
            if i is ins:
                started = True
                continue
            if started and i.op in ('call', 'invoke') and i.a[0] == ('gl', '__cxa_throw') and i.a[1][0][1] == ('reg', ins.res):
                found = i
                break
        if found is None:
            for s in fn.succ[bb]:
                if s not in seen:
                    seen.add(s)
                    todo.append((s, False))
    if found is None:
        raise EngineError('no throw for an allocated exception in ' + fn.name)
    tv = found.a[1][1][1]
    ti = tv[1]
    ex.globalptr(ti)
    o = ex.newobj(max(a[0].k if t.isc(a[0]) else 64, 8), 'exception', 'heap', True)
    ex.excinfo[o.id] = ti
    st.mem[o.id] = {}
    p = Ptr(((t.TRUE, o, C(0, 64)),))
    if found.op == 'invoke':
        # deliver to the landing pad of the throw itself
        return ('exc-at', found.a[3], ti, p)
    return None, None, [(ti, p, st)]


def std_throw(ti):
    def f(ex, st, a, ins, fn, b):
        from symex import Ptr
        o = ex.newobj(64, 'exception', 'heap', True)
        ex.excinfo[o.id] = ti
        st.mem[o.id] = {}
        return None, None, [(ti, Ptr(((t.TRUE, o, C(0, 64)),)), st)]
    return f


def begin_catch(ex, st, a, ins, fn, b):
    ex.__dict__.setdefault('caught', []).append(a[0])
    return a[0]


def rethrow(ex, st, a, ins, fn, b):
    from symex import EngineError, State
    p = ex.__dict__.get('caught', [None])[-1]
    if p is None:
        raise EngineError('rethrow outside a handler')
    out = []
    for g, o, off in p.c:
        gg = ex.addg(st.guard, ex.decide(g, st))
        if gg is None:
            continue
        from symex import Ptr
        out.append((ex.excinfo[o.id], Ptr(((t.TRUE, o, off),)), State(gg, dict(st.mem))))
    return None, None, out


def typeid_for(ex, st, a, ins, fn, b):
    from symex import EngineError
    p = a[0]
    return C(ex.typeid(p.c[0][1].name), 32)


def guard_acquire(ex, st, a, ins, fn, b):
    v = ex.load(st, a[0], ('i', 8))
    return t.zext(t.eq(v, C(0, 8)), 32)


def guard_release(ex, st, a, ins, fn, b):
    ex.store(st, a[0], ('i', 8), C(1, 8))
    return None


def first(ex, st, a, ins, fn, b):
    return a[0]


def llvm_assume(ex, st, a, ins, fn, b):
    c = boolarg(a[0])
    ex.oblige(st, c, 'ub', 'llvm.assume')
    return None


def llvm_abs(ex, st, a, ins, fn, b):
    x = a[0]
    if t.isc(a[1]) and a[1].k:
        ex.oblige(st, Not(t.eq(x, C(t.imin(x.w), x.w))), 'ub', 'abs of the most negative value')
    return iabs(x)


def iabs(x):
    return ite(t.slt(x, C(0, x.w)), t.sub(C(0, x.w), x), x)


def c_abs(ex, st, a, ins, fn, b):
    x = a[0]
    ex.oblige(st, Not(t.eq(x, C(t.imin(x.w), x.w))), 'ub', 'abs of the most negative value')
    return iabs(x)


def minmax(f):
    def g(ex, st, a, ins, fn, b):
        return ite(f(a[0], a[1]), a[0], a[1])
    return g


def with_overflow(op, signed):
    def g(ex, st, a, ins, fn, b):
        x, y = a[0], a[1]
        w = x.w
        W = 2 * w
        e = t.sext if signed else t.zext
        f = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op]
        full = f(e(x, W), e(y, W))
        lo, hi = (t.imin(w), t.imax(w)) if signed else (0, (1 << w) - 1)
        ov = Not(And(t.sle(C(lo, W), full), t.sle(full, C(hi, W))))
        return (f(x, y), ov)
    return g


def libm(op):
    def g(ex, st, a, ins, fn, b):
        return t.fint(op, a[0])
    return g


def libm_to_int(op, w):
    def g(ex, st, a, ins, fn, b):
        r = t.fint(op, a[0])
        ex.fptoi_check(r, w, True, st)
        return t.fptoi(r, w, True)
    return g


def modf(ex, st, a, ins, fn, b):
    i = t.fint('ftrunc', a[0])
    ty = {'d': ('f', 'double'), 'f': ('f', 'float')}[a[0].w]
    ex.store(st, a[1], ty, i)
    return t.fbin('fsub', a[0], i)


def ldexp(ex, st, a, ins, fn, b):
    from symex import EngineError
    if not t.isc(a[1]):
        raise EngineError('ldexp with symbolic exponent')
    from fractions import Fraction
    return t.fbin('fmul', a[0], t.FC(Fraction(2) ** a[1].k, a[0].w))


def fmuladd(ex, st, a, ins, fn, b):
    return t.fbin('fadd', t.fbin('fmul', a[0], a[1]), a[2])


def fmax(ex, st, a, ins, fn, b):
    return ite(t.fcmp('olt', a[0], a[1]), a[1], a[0])


def fmin(ex, st, a, ins, fn, b):
    return ite(t.fcmp('olt', a[0], a[1]), a[0], a[1])


DBLMAX = (2 - Fraction(1, 2 ** 52)) * 2 ** 1023


def fpclass(ex, st, a, ins, fn, b):
    """llvm.is.fpclass, for questions about NaN, the infinities and finite numbers as a whole"""
    from symex import EngineError
    x, m = a[0], a[1].k
    r = []
    for bits in (0x3, 0x4, 0x200, 0x1f8):
        if m & bits == 0:
            continue
        if m & bits != bits:
            raise EngineError('llvm.is.fpclass %d' % m)
        if bits == 3:
            r.append(t.fcmp('uno', x, x))
        elif x.lo is not None:
            r.append(t.C(bits == 0x1f8, 1))
        else:
            lo, hi = t.fcmp('olt', x, t.FC(-DBLMAX, x.w)), t.fcmp('olt', t.FC(DBLMAX, x.w), x)
            r.append({4: lo, 0x200: hi}[bits] if bits != 0x1f8 else And(t.fcmp('ord', x, x), Not(lo), Not(hi)))
    return t.Or(*r)


def fmod(ex, st, a, ins, fn, b):
    """of whole numbers, or by a power of two (where x - y * trunc(x / y) is exact)"""
    from symex import EngineError
    x, y = a[0], a[1]
    if t.fcst(x) and t.fcst(y) and y.k != 0:
        q = x.k / y.k
        return t.FC(x.k - y.k * (int(q) if q >= 0 else -int(-q)), x.w)
    i = t.asint(x) if x.op == 'sitofp' else None
    j = t.asint(y) if y.op in ('sitofp', 'fc') else None
    if t.fcst(y) and y.k != 0 and y.k.denominator == 1 and abs(y.k) < 2 ** 53:
        j = C(int(y.k), 64)
    if i is not None and j is not None and t.isc(j) and i.w == 64:
        return t.itofp(t.srem(i, j), x.w)
    if t.fcst(y) and y.k > 0 and (y.k.numerator & (y.k.numerator - 1)) == 0 and (y.k.denominator & (y.k.denominator - 1)) == 0:
        return t.fbin('fsub', x, t.fbin('fmul', y, t.fint('ftrunc', t.fbin('fdiv', x, y))))
    raise EngineError('fmod')


def power(ex, st, a, ins, fn, b):
    from symex import EngineError
    if t.fcst(a[0]) and t.fcst(a[1]) and a[1].k.denominator == 1 and a[0].k.denominator == 1 and 0 < abs(a[0].k) <= 10 and abs(a[1].k) <= 15:
        n = int(a[1].k)
        r = t.FC(a[0].k ** abs(n), a[0].w)
        return r if n >= 0 else t.fbin('fdiv', t.FC(1, a[0].w), r)
    raise EngineError('pow')


def libm_const(name):
    """of single values only (narrowed runs)"""
    def g(ex, st, a, ins, fn, b):
        from symex import EngineError
        if not all(t.fcst(x) and x.w == 'd' for x in a):
            raise EngineError(name)
        try:
            return t.FC(Fraction(getattr(math, name)(*[float(x.k) for x in a])), 'd')
        except (ValueError, OverflowError):
            raise EngineError(name)
    return g


def copysign(ex, st, a, ins, fn, b):
    m = t.fabs(a[0])
    return ite(t.fcmp('olt', a[1], t.FC(0, a[1].w)), t.fbin('fsub', t.FC(0, m.w), m), m)


def bitcount(kind):
    def g(ex, st, a, ins, fn, b):
        x = a[0]
        w = x.w
        bit = [t.trunc(t.lshr(x, C(i, w)), 1) for i in range(w)]
        if kind == 'ctpop':
            r = C(0, w)
            for c in bit:
                r = t.add(r, t.zext(c, w))
            return r
        r = C(w, w)
        for i in (range(w) if kind == 'ctlz' else reversed(range(w))):
            r = ite(bit[i], C(w - 1 - i if kind == 'ctlz' else i, w), r)
        return r
    return g


def vp_scaled(ex, st, a, ins, fn, b):
    """long vp_scaled(double d, long p): round-half-even of d * p computed exactly (what printf's
    fixed notation shows)"""
    i = t.ffix('frint', a[0], a[1].k)
    if i is not None:
        return i
    return t.mk('fscaled', 64, (a[0],), a[1].k, *scaled_ival(a[0], a[1].k))


def scaled_ival(x, p):
    if x.lo is None:
        return t.imin(64), t.imax(64)
    return round(x.lo * p), round(x.hi * p)


def vp_const(ex, st, a, ins, fn, b):
    """int vp_const(long v): 1 when v is a single value on this path"""
    lo, hi = ex.ival(a[0], st)
    return C(int(lo == hi), 32)


def vp_upper(ex, st, a, ins, fn, b):
    lo, hi = ex.ival(a[0], st)
    return C(hi, 64)


def vp_isdigit_len(ex, st, a, ins, fn, b):
    return None


def vp_fresh(ex, st, a, ins, fn, b):
    """vp_fresh(f, in, out): f(in, out) with all global objects as they are when the program starts; they keep their
    present values afterwards"""
    from symex import EngineError
    p = a[0]
    if len(p.c) != 1 or not isinstance(p.c[0][1], str):
        raise EngineError('vp_fresh of an unknown function')
    now = {i: m for i, m in st.mem.items() if ex.objs[i].kind == 'global'}
    for i in now:
        del st.mem[i]
        if i in ex.start:
            st.mem[i] = ex.start[i]
    ret, val, excs = ex.call_function(p.c[0][1][1:], a[1:3], st)
    if excs:
        raise EngineError('an exception leaves vp_fresh')
    if ret is None:
        return None, None, []
    for i in [i for i in ret.mem if ex.objs[i].kind == 'global']:
        del ret.mem[i]
    ret.mem.update(now)
    return ret, None, []


def unmodelled(ex, st, a, ins, fn, b):
    ex.unmod.append((_label(ex, st, a[0]), st.guard))
    return None, None, []


def objsize(ex, st, a, ins, fn, b):
    return C(-1, ins.ty[1])


def table():
    d = {
        'vp_long': vp_long, 'vp_int': vp_long, 'vp_case': vp_case, 'vp_split': vp_split, 'vp_binades': vp_binades, 'vp_tier': vp_tier, 'vp_fresh': vp_fresh,
        'vp_assume': vp_assume, 'vp_assert': vp_assert, 'vp_reach': vp_reach, 'vp_watch': vp_watch,
        'vp_unmodelled': unmodelled, 'vp_scaled': vp_scaled, 'vp_const': vp_const, 'vp_upper': vp_upper,
        '__assert_fail': assert_fail,
        '__clang_call_terminate': dead('terminate', None), '_ZSt9terminatev': dead('terminate', None),
        'abort': dead('abort', None), 'exit': dead('abort', None), '_exit': dead('abort', None),
        '__cxa_pure_virtual': dead('abort', None), 'llvm.trap': dead('abort', None),
        '_ZSt21__glibcxx_assert_failPKciS0_S0_': dead('abort', 'glibcxx assertion'),
        '__cxa_allocate_exception': cxa_allocate_exception, '__cxa_free_exception': nop,
        '__cxa_begin_catch': begin_catch, '__cxa_end_catch': nop, '__cxa_rethrow': rethrow,
        '__cxa_get_exception_ptr': first,
        '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release, '__cxa_guard_abort': nop,
        '__cxa_atexit': lambda ex, st, a, ins, fn, b: C(0, 32),
        '_Znwm': malloc(False), '_Znam': malloc(False), 'malloc': malloc(False), 'calloc': malloc(True),
        '_ZdlPv': nop, '_ZdaPv': nop, '_ZdlPvm': nop, '_ZdaPvm': nop, 'free': nop,
        'memcpy': memcpy, 'memmove': memcpy, 'memset': memset,
        'abs': c_abs, 'labs': c_abs, 'llabs': c_abs,
        'floor': libm('ffloor'), 'ceil': libm('fceil'), 'trunc': libm('ftrunc'), 'round': libm('fround'),
        'rint': libm('frint'), 'nearbyint': libm('frint'), 'fabs': lambda ex, st, a, ins, fn, b: t.fabs(a[0]),
        'floorl': libm('ffloor'), 'ceill': libm('fceil'), 'truncl': libm('ftrunc'), 'roundl': libm('fround'),
        'fabsl': lambda ex, st, a, ins, fn, b: t.fabs(a[0]),
        'rintl': libm('frint'), 'nearbyintl': libm('frint'),
        'lround': libm_to_int('fround', 64), 'llround': libm_to_int('fround', 64),
        'lrint': libm_to_int('frint', 64), 'llrint': libm_to_int('frint', 64), 'lroundl': libm_to_int('fround', 64),
        'modf': modf, 'modff': modf, 'ldexp': ldexp, 'scalbn': ldexp, 'fmax': fmax, 'fmin': fmin, 'fmod': fmod, 'fmodl': fmod, 'pow': power,
        'copysign': copysign, 'exp10': lambda ex, st, a, ins, fn, b: power(ex, st, [t.FC(10, a[0].w), a[0]], ins, fn, b),
        'printf': lambda ex, st, a, ins, fn, b: C(0, 32), 'puts': lambda ex, st, a, ins, fn, b: C(0, 32),
        'setlocale': lambda ex, st, a, ins, fn, b: a[1],
    }
    for nm in ('sqrt', 'exp', 'log', 'log10', 'log2', 'remainder', 'hypot', 'cbrt', 'sin', 'cos'):
        d[nm] = libm_const(nm)
    for nm, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
                   ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
                   ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                   ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                   ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
                   ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
                   ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
                   ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
                   ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length')):
        d[nm] = std_throw(ti)
    return d


def opaque(ex, st, a, ins, fn, b):
    """strings whose text is not followed (messages)"""
    from symex import EngineError, Ptr
    ty = ex.types.resolve(ins.ty)
    if ty[0] == 'void':
        return None
    # append, +=, = and the like return the string itself
    name = ins.a[0][1] if ins.a[0][0] == 'gl' else '?'
    if ty[0] == 'ptr' and isinstance(a[0], Ptr) and any(x in name for x in ('6append', '6assign', 'aSE', 'pLE', '6insert', '7replace', '5erase')):
        return a[0]
    raise EngineError('a string is looked at: %s' % name)


# std::string and what makes one, in the units that do not look at texts the library makes
STRINGS = ('_ZNSt7__cxx1112basic_string', '_ZNKSt7__cxx1112basic_string', '_ZStplIcSt11char_traits', '_ZNSt7__cxx119to_string',
           '_ZNSaIcE', '_ZNSt15__new_allocatorIcE', '_ZSt9to_string')


def prefixes(strings_opaque=False):
    return ([(p, opaque) for p in STRINGS] if strings_opaque else []) + [
        ('llvm.memcpy.', memcpy), ('llvm.memmove.', memcpy), ('llvm.memset.', memset),
        ('llvm.lifetime.', nop), ('llvm.dbg.', nop), ('llvm.experimental.noalias', nop), ('llvm.invariant', first),
        ('llvm.assume', llvm_assume), ('llvm.expect.', first), ('llvm.abs.', llvm_abs),
        ('llvm.smax.', minmax(lambda x, y: t.slt(y, x))), ('llvm.smin.', minmax(t.slt)),
        ('llvm.umax.', minmax(lambda x, y: t.ult(y, x))), ('llvm.umin.', minmax(t.ult)),
        ('llvm.sadd.with.overflow.', with_overflow('add', True)), ('llvm.ssub.with.overflow.', with_overflow('sub', True)),
        ('llvm.smul.with.overflow.', with_overflow('mul', True)), ('llvm.uadd.with.overflow.', with_overflow('add', False)),
        ('llvm.usub.with.overflow.', with_overflow('sub', False)), ('llvm.umul.with.overflow.', with_overflow('mul', False)),
        ('llvm.fabs.', lambda ex, st, a, ins, fn, b: t.fabs(a[0])),
        ('llvm.floor.', libm('ffloor')), ('llvm.ceil.', libm('fceil')), ('llvm.trunc.', libm('ftrunc')),
        ('llvm.round.', libm('fround')), ('llvm.rint.', libm('frint')), ('llvm.nearbyint.', libm('frint')),
        ('llvm.roundeven.', libm('frint')), ('llvm.lround.', libm_to_int('fround', 64)), ('llvm.lrint.', libm_to_int('frint', 64)),
        ('llvm.is.fpclass.', fpclass), ('llvm.copysign.', copysign), ('llvm.pow.', power),
        ('llvm.ctpop.', bitcount('ctpop')), ('llvm.ctlz.', bitcount('ctlz')), ('llvm.cttz.', bitcount('cttz')),
        ('llvm.fmuladd.', fmuladd), ('llvm.maxnum.', fmax), ('llvm.minnum.', fmin),
        ('llvm.eh.typeid.for', typeid_for), ('llvm.stacksave', lambda ex, st, a, ins, fn, b: null()),
        ('llvm.stackrestore', nop), ('llvm.objectsize.', objsize), ('llvm.is.constant.', lambda ex, st, a, ins, fn, b: t.FALSE),
        ('llvm.launder', first), ('llvm.threadlocal.address', first), ('llvm.strip', first), ('llvm.ptr.annotation', first), ('llvm.donothing', nop),
        # destructors and constructors of exception classes / messages
        ('_ZNSt11logic_error', nop), ('_ZNSt13runtime_error', nop), ('_ZNSt12out_of_range', nop),
        ('_ZNSt16invalid_argument', nop), ('_ZNSt12length_error', nop), ('_ZNSt9exception', nop),
        ('_ZNSt12domain_error', nop), ('_ZNSt11range_error', nop), ('_ZNSt8ios_base4Init', nop),
        # a std::string destructor only frees memory
        ('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED', nop),
    ]


def null():
    from symex import NULLP
    return NULLP()
