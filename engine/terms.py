"""Hash-consed term DAG with signed intervals.

Sorts (field w): 1 = Bool; n > 1 = n-bit machine integer (value kept in the signed reading);
'd','f','x','q' = IEEE double / float / x87 80-bit / binary128.
Every constructor folds constants and anything an interval decides.
"""
from fractions import Fraction
import math

TABLE = {}
COUNT = [0]
ONEVAR = {}     # term id -> its only variable, None: no variable, False: several or wide
RING = {}       # term id -> linear form modulo 2^w
BITS = {}       # Bool term id -> set of values (bit mask) of its only variable that satisfy it
INTERVALS_OFF = False


class T:
    __slots__ = ('op', 'w', 'args', 'k', 'lo', 'hi', 'id', 'neg')

    def __repr__(self):
        return show(self, 4)


def show(t, d=3):
    if t.op == 'c':
        return str(t.k)
    if t.op == 'fc':
        return str(float(t.k))
    if t.op == 'var':
        return t.k
    if d == 0:
        return '..'
    return '(%s%s %s)' % (t.op, '' if t.k is None else ':' + str(t.k), ' '.join(show(a, d - 1) for a in t.args))


def reset():
    FORMS.clear()
    TABLE.clear()
    COUNT[0] = 0
    ONEVAR.clear()
    RING.clear()
    SPECIAL.clear()
    BITS.clear()
    global TRUE, FALSE
    TRUE = mk('c', 1, (), 1, 1, 1)
    FALSE = mk('c', 1, (), 0, 0, 0)
    TRUE.neg, FALSE.neg = FALSE, TRUE


def mk(op, w, args=(), k=None, lo=None, hi=None):
    key = (op, w, k) + tuple([a.id for a in args])
    t = TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.w, t.args, t.k, t.lo, t.hi, t.neg = op, w, args, k, lo, hi, None
    t.id = COUNT[0]
    COUNT[0] += 1
    TABLE[key] = t
    return t


def imin(w):
    return -(1 << (w - 1))


def imax(w):
    return (1 << (w - 1)) - 1


def sx(v, w):
    """wrap python int to signed w-bit"""
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def C(v, w):
    if w == 1:
        return TRUE if v & 1 else FALSE
    v = sx(v, w)
    return mk('c', w, (), v, v, v)


def var(name, w, lo=None, hi=None):
    if w == 1:
        return mk('var', 1, (), name, 0, 1)
    if lo is None:
        lo, hi = imin(w), imax(w)
    if lo == hi:
        return C(lo, w)
    return mk('var', w, (), name, lo, hi)


def isc(t):
    return t.op == 'c'


def norm(w, lo, hi):
    """interval of a raw (mathematical) result in w bits; (lo,hi,nowrap)"""
    if lo >= imin(w) and hi <= imax(w):
        return lo, hi, True
    return imin(w), imax(w), False


# ------------------------------------------------------------------ terms over one small variable
def onevar(x):
    r = ONEVAR.get(x.id, 0)
    if r != 0:
        return r
    if x.op == 'var':
        r = x if isinstance(x.w, int) and (x.w == 1 or x.hi - x.lo <= 511) else False
    else:
        r = None
        for a in x.args:
            v = onevar(a)
            if v is None:
                continue
            if v is False or (r is not None and v is not r):
                r = False
                break
            r = v
    ONEVAR[x.id] = r
    return r


def bits(x):
    """for a Bool term over one small variable: mask of the values (offset by lo) making it true"""
    r = BITS.get(x.id)
    if r is None:
        v = onevar(x)
        r = 0
        try:
            for i in range(v.hi - v.lo + 1):
                if evaluate([x], {v.k: v.lo + i})[0]:
                    r |= 1 << i
        except Exception:
            r = -1
        BITS[x.id] = r
    return r


# ------------------------------------------------------------------ interval under a condition
def derive(cond, ctx, pos=True, depth=4):
    """add to ctx {term id: (lo,hi)} what cond (or its negation) implies"""
    if cond.op == 'not':
        return derive(cond.args[0], ctx, not pos, depth)
    if depth == 0:
        return
    if cond.op == 'and' and pos or cond.op == 'or' and not pos:
        for a in cond.args:
            derive(a, ctx, pos, depth - 1)
        return
    if cond.op in ('slt', 'sle', 'eq', 'ult', 'ule'):
        a, b = cond.args
        if a.w == 1 or not isinstance(a.w, int):
            return
        op = cond.op
        if op in ('ult', 'ule'):
            if pos and isc(b) and b.k >= 0:          # a <u b : a in [0,b]
                bound(a, 0, b.k - (op == 'ult'), ctx)
            elif a.lo >= 0 and b.lo >= 0:
                op = 's' + op[1:]
            else:
                return
        if op == 'slt':
            if pos:
                bound(a, None, b.hi - 1, ctx)
                bound(b, a.lo + 1, None, ctx)
            else:
                bound(a, b.lo, None, ctx)
                bound(b, None, a.hi, ctx)
        elif op == 'sle':
            if pos:
                bound(a, None, b.hi, ctx)
                bound(b, a.lo, None, ctx)
            else:
                bound(a, b.lo + 1, None, ctx)
                bound(b, None, a.hi - 1, ctx)
        elif op == 'eq':
            if pos:
                bound(a, b.lo, b.hi, ctx)
                bound(b, a.lo, a.hi, ctx)
            elif isc(b):
                if a.lo == b.k:
                    bound(a, b.k + 1, None, ctx)
                if a.hi == b.k:
                    bound(a, None, b.k - 1, ctx)


def bound(t, lo, hi, ctx, depth=5):
    if isc(t) or depth == 0:
        return
    l, h = ctx.get(t.id, (t.lo, t.hi))
    if lo is not None and lo > l:
        l = lo
    if hi is not None and hi < h:
        h = hi
    ctx[t.id] = (l, h)
    if t.op == 'add' and isc(t.args[1]):
        c = t.args[1].k
        x = t.args[0]
        if x.lo + c >= imin(t.w) and x.hi + c <= imax(t.w):
            bound(x, l - c, h - c, ctx, depth - 1)
    elif t.op == 'sext':
        bound(t.args[0], l, h, ctx, depth - 1)
    elif t.op == 'zext' and t.args[0].w > 1 and t.args[0].lo >= 0:
        bound(t.args[0], l, h, ctx, depth - 1)
    elif t.op == 'trunc' and t.args[0].lo >= imin(t.w) and t.args[0].hi <= imax(t.w):
        bound(t.args[0], l, h, ctx, depth - 1)
    elif t.op == 'mul' and isc(t.args[1]) and t.args[1].k > 0:
        c = t.args[1].k
        x = t.args[0]
        if x.lo * c >= imin(t.w) and x.hi * c <= imax(t.w):
            bound(x, -((-l) // c), h // c, ctx, depth - 1)


def ival(t, ctx, depth=6):
    """interval of t given ctx (sound; never wider than the term's own)"""
    if isc(t):
        return t.lo, t.hi
    base = ctx.get(t.id)
    lo, hi = (t.lo, t.hi)
    if base:
        lo, hi = max(lo, base[0]), min(hi, base[1])
    if depth and isinstance(t.w, int) and t.w > 1:
        r = None
        if t.op in ('add', 'sub', 'mul', 'sdiv', 'srem'):
            a = ival(t.args[0], ctx, depth - 1)
            b = ival(t.args[1], ctx, depth - 1)
            r = raw_ival(t.op, t.w, a, b)
            if r is not None and not (r[0] >= imin(t.w) and r[1] <= imax(t.w)):
                r = None
        elif t.op in ('udiv', 'urem'):
            a = ival(t.args[0], ctx, depth - 1)
            b = ival(t.args[1], ctx, depth - 1)
            if 0 <= a[0] <= a[1] and 0 < b[0] <= b[1]:
                r = raw_ival('sdiv' if t.op == 'udiv' else 'srem', t.w, a, b)
        elif t.op in ('sext',):
            r = ival(t.args[0], ctx, depth - 1)
        elif t.op == 'zext' and t.args[0].w > 1:
            a = ival(t.args[0], ctx, depth - 1)
            if a[0] >= 0:
                r = a
        elif t.op == 'trunc':
            a = ival(t.args[0], ctx, depth - 1)
            if a[0] >= imin(t.w) and a[1] <= imax(t.w):
                r = a
        elif t.op == 'ite':
            c1, c2 = dict(ctx), dict(ctx)
            derive(t.args[0], c1, True)
            derive(t.args[0], c2, False)
            a = ival(t.args[1], c1, depth - 1)
            b = ival(t.args[2], c2, depth - 1)
            xs = [x for x in (a, b) if x[0] <= x[1]]
            if xs:
                r = (min(x[0] for x in xs), max(x[1] for x in xs))
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
    return lo, hi


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def raw_ival(op, w, a, b):
    if a[0] > a[1] or b[0] > b[1]:
        return None
    if op == 'add':
        return a[0] + b[0], a[1] + b[1]
    if op == 'sub':
        return a[0] - b[1], a[1] - b[0]
    if op == 'mul':
        xs = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        return min(xs), max(xs)
    if op == 'sdiv':
        if b[0] <= 0 <= b[1]:
            m = max(abs(a[0]), abs(a[1]))
            return -m, m
        xs = [tdiv(x, y) for x in a for y in b]
        if a[0] < 0 < a[1]:
            xs.append(0)
        return min(xs), max(xs)
    if op == 'srem':
        m = max(abs(b[0]), abs(b[1])) - 1
        if m < 0:
            m = 0
        if b[0] == b[1] and b[0] != 0 and (a[0] >= 0 or a[1] <= 0):
            d = abs(b[0])
            if tdiv(a[0], d) == tdiv(a[1], d):
                x, y = a[0] - d * tdiv(a[0], d), a[1] - d * tdiv(a[1], d)
                return min(x, y), max(x, y)
        lo = 0 if a[0] >= 0 else max(-m, a[0])
        hi = 0 if a[1] <= 0 else min(m, a[1])
        return lo, hi
    return None


# ------------------------------------------------------------------ booleans
def Not(a):
    if a.neg is not None:
        return a.neg
    if a.op == 'slt':
        r = mk('sle', 1, (a.args[1], a.args[0]))
    elif a.op == 'sle':
        r = mk('slt', 1, (a.args[1], a.args[0]))
    elif a.op == 'ult':
        r = mk('ule', 1, (a.args[1], a.args[0]))
    elif a.op == 'ule':
        r = mk('ult', 1, (a.args[1], a.args[0]))
    elif a.op == 'and':
        r = Or(*[Not(x) for x in a.args])
    elif a.op == 'or':
        r = And(*[Not(x) for x in a.args])
    else:
        r = mk('not', 1, (a,))
    a.neg = r
    if r.neg is None:
        r.neg = a
    return r


def _nary(op, xs, unit, zero):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            st.extend(reversed(x.args))
            continue
        s[x.id] = x
    for x in s.values():
        if x.neg is not None and x.neg.id in s and s[x.neg.id] is x.neg:
            return zero
    if not s:
        return unit
    # absorption against the dual operator
    dual = 'or' if op == 'and' else 'and'
    drop = set()
    chg = []
    for x in s.values():
        if x.op == dual:
            rest = []
            for y in x.args:
                if y.id in s:
                    drop.add(x.id)
                    rest = None
                    break
                n = y.neg
                if n is not None and n.id in s:
                    continue
                rest.append(y)
            if rest is not None and len(rest) < len(x.args):
                drop.add(x.id)
                chg.append(rest)
    if drop:
        ys = [x for x in s.values() if x.id not in drop]
        f = Or if op == 'and' else And
        for r in chg:
            ys.append(f(*r))
        return _nary(op, ys, unit, zero)
    v = sorted(s.values(), key=lambda t: t.id)
    if len(v) == 1:
        return v[0]
    return mk(op, 1, tuple(v))


def And(*xs):
    return _nary('and', xs, TRUE, FALSE)


def Or(*xs):
    xs = list(xs)
    r = _nary('or', xs, FALSE, TRUE)
    if r.op == 'or' and len(r.args) <= 4:
        # (p & c) | (p & ~c)  ->  p
        a = list(r.args)
        for i in range(len(a)):
            for j in range(i + 1, len(a)):
                m = merge2(conj(a[i]), conj(a[j]))
                if m is not None:
                    rest = [a[k] for k in range(len(a)) if k not in (i, j)]
                    return Or(And(*m), *rest)
    return r


def conj(t):
    return frozenset(t.args) if t.op == 'and' else frozenset((t,))


def merge2(a, b):
    """a, b: frozensets of literals; exact simple union or None"""
    if a <= b:
        return a
    if b <= a:
        return b
    da, db = a - b, b - a
    if len(da) == 1 and len(db) == 1:
        (x,), (y,) = da, db
        if Not(x) is y:
            return a & b
    if len(da) == 1 and len(db) > 1:
        (x,) = da
        if Not(x) is And(*db):
            return a & b
        if Not(x) in db:
            return None
    elif len(db) == 1 and len(da) > 1:
        (x,) = db
        if Not(x) is And(*da):
            return a & b
    return None


def Implies(a, b):
    return Or(Not(a), b)


def Xor(a, b):
    if isc(a):
        return Not(b) if a.k else b
    if isc(b):
        return Not(a) if b.k else a
    if a is b:
        return FALSE
    if a.neg is b:
        return TRUE
    return mk('xor1', 1, tuple(sorted((a, b), key=lambda t: t.id)))


# ------------------------------------------------------------------ ite
def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        return mk('ite', 1, (c, a, b))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite' and Not(c) is a.args[0]:
        a = a.args[2]
    if b.op == 'ite' and Not(c) is b.args[0]:
        b = b.args[1]
    if a is b:
        return a
    if b.op == 'ite' and b.args[1] is a:      # ite(c,a,ite(d,a,x)) -> ite(c|d,a,x)
        return ite(Or(c, b.args[0]), a, b.args[2])
    if isinstance(a.w, int):
        c1, c2 = {}, {}
        derive(c, c1, True)
        derive(c, c2, False)
        x, y = ival(a, c1), ival(b, c2)
        if x[0] > x[1]:
            x = y if y[0] <= y[1] else (a.lo, a.hi)
        if y[0] > y[1]:
            y = x
        return mk('ite', a.w, (c, a, b), None, min(x[0], y[0]), max(x[1], y[1]))
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return mk('ite', a.w, (c, a, b), None, lo, hi)


def ite_leaves(t, limit=400):
    """leaves of an ite tree, or None when too many"""
    out = []
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            out.append(x)
            if len(out) > limit:
                return None
    return out


def map_ite(t, f, memo=None):
    """rebuild an ite tree, f on its leaves; f returns a term"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'ite':
        r = ite(t.args[0], map_ite(t.args[1], f, memo), map_ite(t.args[2], f, memo))
    else:
        r = f(t)
    memo[t.id] = r
    return r


def const_tree(t):
    if t.op != 'ite':
        return False
    ls = ite_leaves(t, 64)
    return ls is not None and all(isc(x) for x in ls)


# ------------------------------------------------------------------ integers
def ring(t):
    """t as a linear form over the integers modulo 2^w: (constant, ((atom, coefficient), ...)); None when too large"""
    r = RING.get(t.id, 0)
    if r != 0:
        return r
    w = t.w
    if isc(t):
        r = (t.k, ())
    elif t.op in ('add', 'sub'):
        a, b = ring(t.args[0]), ring(t.args[1])
        r = ring_add(a, b, 1 if t.op == 'add' else -1, w) if a and b else None
    elif t.op == 'mul' and isc(t.args[1]):
        a, c = ring(t.args[0]), t.args[1].k
        r = (sx(a[0] * c, w), tuple((x, y) for x, y in ((x, sx(y * c, w)) for x, y in a[1]) if y)) if a else None
    elif t.op == 'sext' and t.args[0].w > 1:
        a = ring(t.args[0])
        # only over a sum that does not wrap
        if a and all(x is not t.args[0] for x, y in a[1]):
            iv = ring_ival(a)
            r = (a[0], tuple((sext(x, w), y) for x, y in a[1])) if imin(t.args[0].w) <= iv[0] and iv[1] <= imax(t.args[0].w) else (0, ((t, 1),))
        else:
            r = (0, ((t, 1),))
    else:
        r = (0, ((t, 1),))
    if r is not None and len(r[1]) > 12:
        r = None
    RING[t.id] = r
    return r


def ring_add(a, b, s, w):
    d = {x.id: (x, y) for x, y in a[1]}
    for x, y in b[1]:
        d[x.id] = (x, sx(d.get(x.id, (x, 0))[1] + s * y, w))
    return sx(a[0] + s * b[0], w), tuple(v for v in d.values() if v[1])


def ring_ival(f):
    lo = hi = f[0]
    for x, c in f[1]:
        lo += min(x.lo * c, x.hi * c)
        hi += max(x.lo * c, x.hi * c)
    return lo, hi


def ring_term(f, w):
    r = None
    for x, c in sorted(((x, c) for x, c in f[1] if c > 0), key=lambda p: p[0].id):
        y = mul(x, C(c, w))
        r = y if r is None else add(r, y)
    neg = sorted(((x, c) for x, c in f[1] if c < 0), key=lambda p: p[0].id)
    if r is None and neg:
        x, c = neg[0]
        neg = neg[1:]
        r = mul(x, C(c, w))
    for x, c in neg:
        r = sub(r, mul(x, C(-c, w)) if -c <= imax(w) else mul(x, C(c, w)))
    return add(r, C(f[0], w)) if r is not None else C(f[0], w)


def cancel(a, b, s):
    """a + s*b when parts of the two cancel, else None"""
    if a.op not in ('add', 'sub', 'mul', 'sext') and b.op not in ('add', 'sub', 'mul', 'sext'):
        return None
    f, g = ring(a), ring(b)
    if not f or not g or not f[1] or not g[1]:
        return None
    at = {x.id: c for x, c in f[1]}
    w = a.w
    if not any(sx(at[x.id] + s * c, w) == 0 for x, c in g[1] if x.id in at):
        return None
    return ring_term(ring_add(f, g, s, w), w)


def ring_div(a, d):
    """a = d*X + R with X and R terms, R >= 0 and nothing wrapping; None when no part is a multiple of d"""
    if d <= 1 or a.lo < 0 or a.op not in ('add', 'sub', 'mul'):
        return None
    f = ring(a)
    if not f or not any(c % d == 0 for x, c in f[1]):
        return None
    w = a.w
    iv = ring_ival(f)
    if iv[0] < imin(w) or iv[1] > imax(w):
        return None
    rest = (f[0], tuple((x, c) for x, c in f[1] if c % d))
    mult = (0, tuple((x, c // d) for x, c in f[1] if c % d == 0))
    lo = ring_ival(rest)[0]
    if lo < 0:
        return None
    iv = ring_ival(mult)
    if iv[0] * d < imin(w) or iv[1] * d > imax(w) or ring_ival(rest)[1] > imax(w):
        return None
    return ring_term(mult, w), ring_term(rest, w)


def add(a, b):
    w = a.w
    if w == 1:
        return Xor(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return C(a.k + b.k, w)
    if isc(b):
        if b.k == 0:
            return a
        if a.op == 'add' and isc(a.args[1]):
            return add(a.args[0], C(a.args[1].k + b.k, w))
        if const_tree(a):
            return map_ite(a, lambda x: C(x.k + b.k, w))
    else:
        if a.op == 'add' and isc(a.args[1]):
            return add(add(a.args[0], b), a.args[1])
        if b.op == 'add' and isc(b.args[1]):
            return add(add(a, b.args[0]), b.args[1])
        # x + (y - x) -> y
        if b.op == 'sub' and b.args[1] is a:
            return b.args[0]
        if a.op == 'sub' and a.args[1] is b:
            return a.args[0]
        r = cancel(a, b, 1)
        if r is not None:
            return r
        if a.id > b.id:
            a, b = b, a
    lo, hi, _ = norm(w, a.lo + b.lo, a.hi + b.hi)
    return mk('add', w, (a, b), None, lo, hi)


def sub(a, b):
    w = a.w
    if w == 1:
        return Xor(a, b)
    if isc(a) and isc(b):
        return C(a.k - b.k, w)
    if isc(b):
        return add(a, C(-b.k, w))
    if a is b:
        return C(0, w)
    if a.op == 'add':
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
        if isc(a.args[1]):
            return add(sub(a.args[0], b), a.args[1])
    if b.op == 'add' and isc(b.args[1]):
        return add(sub(a, b.args[0]), C(-b.args[1].k, w))
    r = cancel(a, b, -1)
    if r is not None:
        return r
    lo, hi, _ = norm(w, a.lo - b.hi, a.hi - b.lo)
    return mk('sub', w, (a, b), None, lo, hi)


def mul(a, b):
    w = a.w
    if w == 1:
        return And(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return C(a.k * b.k, w)
    if isc(b):
        if b.k == 0:
            return b
        if b.k == 1:
            return a
        if a.op == 'mul' and isc(a.args[1]):
            c = a.args[1].k * b.k
            if imin(w) <= c <= imax(w):
                return mul(a.args[0], C(c, w))
        if const_tree(a):
            return map_ite(a, lambda x: C(x.k * b.k, w))
    elif a.id > b.id:
        a, b = b, a
    r = raw_ival('mul', w, (a.lo, a.hi), (b.lo, b.hi))
    lo, hi, _ = norm(w, r[0], r[1])
    return mk('mul', w, (a, b), None, lo, hi)


def sdiv(a, b):
    w = a.w
    if isc(b) and b.k != 0:
        if isc(a):
            return C(tdiv(a.k, b.k), w)
        if b.k == 1:
            return a
        if const_tree(a):
            return map_ite(a, lambda x: C(tdiv(x.k, b.k), w))
        # (x*c)/d with d | c, no wrap
        if a.op == 'mul' and isc(a.args[1]) and a.args[1].k % b.k == 0:
            c = a.args[1].k
            x = a.args[0]
            if min(x.lo * c, x.hi * c) >= imin(w) and max(x.lo * c, x.hi * c) <= imax(w):
                return mul(x, C(c // b.k, w))
        r = ring_div(a, b.k)
        if r is not None:
            return add(r[0], sdiv(r[1], b))
    r = raw_ival('sdiv', w, (a.lo, a.hi), (b.lo, b.hi))
    lo, hi, _ = norm(w, r[0], r[1])
    if lo == hi and isc(b):
        return C(lo, w)
    return mk('sdiv', w, (a, b), None, lo, hi)


def srem(a, b):
    w = a.w
    if isc(b) and b.k != 0:
        if isc(a):
            return C(a.k - b.k * tdiv(a.k, b.k), w)
        if abs(b.k) == 1:
            return C(0, w)
        if const_tree(a):
            return map_ite(a, lambda x: C(x.k - b.k * tdiv(x.k, b.k), w))
        d = abs(b.k)
        if -d < a.lo and a.hi < d:
            return a
        if a.op == 'mul' and isc(a.args[1]) and a.args[1].k % b.k == 0:
            c = a.args[1].k
            x = a.args[0]
            if min(x.lo * c, x.hi * c) >= imin(w) and max(x.lo * c, x.hi * c) <= imax(w):
                return C(0, w)
        r = ring_div(a, b.k)
        if r is not None:
            return srem(r[1], b)
    r = raw_ival('srem', w, (a.lo, a.hi), (b.lo, b.hi))
    lo, hi, _ = norm(w, r[0], r[1])
    return mk('srem', w, (a, b), None, lo, hi)


def udiv(a, b):
    w = a.w
    if a.lo >= 0 and b.lo >= 0:
        return sdiv(a, b)
    if isc(a) and isc(b) and b.k != 0:
        m = (1 << w) - 1
        return C((a.k & m) // (b.k & m), w)
    lo, hi = imin(w), imax(w)
    if isc(b) and b.k > 1:
        lo, hi = 0, ((1 << w) - 1) // b.k
    return mk('udiv', w, (a, b), None, lo, hi)


def urem(a, b):
    w = a.w
    if a.lo >= 0 and b.lo >= 0:
        return srem(a, b)
    if isc(a) and isc(b) and b.k != 0:
        m = (1 << w) - 1
        return C((a.k & m) % (b.k & m), w)
    lo, hi = imin(w), imax(w)
    if b.lo > 0:
        lo, hi = 0, b.hi - 1
    return mk('urem', w, (a, b), None, lo, hi)


def isbit(t):
    return t.w > 1 and t.lo >= 0 and t.hi <= 1


def tobit(t):
    """0/1 integer -> Bool"""
    if isc(t):
        return C(t.k, 1)
    if t.op == 'zext' and t.args[0].w == 1:
        return t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], tobit(t.args[1]), tobit(t.args[2]))
    return Not(eq(t, C(0, t.w)))


def band(a, b):
    w = a.w
    if w == 1:
        return And(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return C(a.k & b.k, w)
    if a is b:
        return a
    if isc(b):
        if b.k == 0:
            return b
        if b.k == -1:
            return a
        if b.k > 0 and (b.k & (b.k + 1)) == 0:
            if a.lo >= 0 and a.hi <= b.k:
                return a
            if a.lo >= 0:
                return srem(a, C(b.k + 1, w)) if b.k < imax(w) else a
            if isc(b) and b.k == 1 and False:
                pass
        if b.k > 0 and (b.k & (b.k - 1)) == 0 and a.lo >= 0 and a.hi < 2 * b.k:
            # single-bit test on a value below 2*bit
            return ite(sle(b, a), b, C(0, w))
    if isbit(a) and isbit(b):
        return zext(And(tobit(a), tobit(b)), w)
    if isbit(a) or isbit(b):
        if isbit(b):
            a, b = b, a
        # 0/1 & y
        return mk('and_', w, (a, b), None, 0, 1)
    lo, hi = imin(w), imax(w)
    for x in (a, b):
        if x.lo >= 0:
            lo, hi = 0, min(hi, x.hi)
    return mk('and_', w, (a, b), None, lo, hi)


def bor(a, b):
    w = a.w
    if w == 1:
        return Or(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return C(a.k | b.k, w)
    if a is b:
        return a
    if isc(b):
        if b.k == 0:
            return a
        if b.k == -1:
            return b
    if isbit(a) and isbit(b):
        return zext(Or(tobit(a), tobit(b)), w)
    # disjoint: a multiple of 2^k, b below 2^k
    for x, y in ((a, b), (b, a)):
        tz = trail(x)
        if tz and y.lo >= 0 and y.hi < (1 << tz):
            return add(x, y)
    lo, hi = imin(w), imax(w)
    if a.lo >= 0 and b.lo >= 0:
        lo, hi = max(a.lo, b.lo), (1 << max(a.hi, b.hi).bit_length()) - 1
    elif a.hi < 0 or b.hi < 0:
        hi = -1
    return mk('or_', w, (a, b), None, lo, hi)


def trail(t):
    if t.op == 'shl' and isc(t.args[1]):
        return t.args[1].k
    if t.op == 'mul' and isc(t.args[1]):
        c = t.args[1].k
        return (c & -c).bit_length() - 1
    if isc(t):
        return (t.k & -t.k).bit_length() - 1 if t.k else t.w - 1
    return 0


def bxor(a, b):
    w = a.w
    if w == 1:
        return Xor(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return C(a.k ^ b.k, w)
    if a is b:
        return C(0, w)
    if isc(b):
        if b.k == 0:
            return a
        if b.k == -1:
            return sub(C(-1, w), a)
    if isbit(a) and isbit(b):
        return zext(Xor(tobit(a), tobit(b)), w)
    return mk('xor_', w, (a, b), None, imin(w), imax(w))


def shl(a, b):
    w = a.w
    if isc(b):
        if not 0 <= b.k < w:
            return C(0, w)
        if isc(a):
            return C(a.k << b.k, w)
        if b.k == 0:
            return a
        if b.k < w - 1:
            return mul(a, C(1 << b.k, w))
    return mk('shl', w, (a, b), None, imin(w), imax(w))


def lshr(a, b):
    w = a.w
    if isc(b):
        if not 0 <= b.k < w:
            return C(0, w)
        if isc(a):
            return C((a.k & ((1 << w) - 1)) >> b.k, w)
        if b.k == 0:
            return a
        if a.op == 'cat':
            off = 0
            for i, p in enumerate(a.args):
                if off == b.k:
                    rest = list(a.args[i:])
                    return cat(rest + [C(0, b.k)]) if b.k > 1 else mk('lshr', w, (a, b), None, imin(w), imax(w))
                off += p.w
        if a.lo >= 0:
            if b.k < w - 1:
                return sdiv(a, C(1 << b.k, w))
            return C(0, w)
        return mk('lshr', w, (a, b), None, 0, (1 << (w - b.k)) - 1)
    return mk('lshr', w, (a, b), None, imin(w) if a.lo < 0 else 0, imax(w))


def ashr(a, b):
    w = a.w
    if isc(b):
        if not 0 <= b.k < w:
            b = C(w - 1, w)
        if isc(a):
            return C(a.k >> b.k, w)
        if b.k == 0:
            return a
        if a.lo >> b.k == a.hi >> b.k:
            return C(a.lo >> b.k, w)
        if a.lo >= 0 and b.k < w - 1:
            return sdiv(a, C(1 << b.k, w))
        return mk('ashr', w, (a, b), None, a.lo >> b.k, a.hi >> b.k)
    return mk('ashr', w, (a, b), None, min(a.lo, -1) if a.lo < 0 else 0, max(a.hi, 0))


def zext(a, w):
    if a.w == w:
        return a
    if isc(a):
        return C(a.k & ((1 << a.w) - 1), w)
    if a.w == 1:
        return mk('zext', w, (a,), None, 0, 1)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'trunc':
        x = a.args[0]
        if 0 <= x.lo and x.hi <= imax(a.w):
            return x if x.w == w else zext(x, w) if x.w < w else trunc(x, w)
    if const_tree(a):
        return map_ite(a, lambda x: zext(x, w))
    if a.op == 'ite' and a.lo >= 0 and a.args[1].lo >= 0 and a.args[2].lo >= 0:
        pass
    if a.lo >= 0:
        lo, hi = a.lo, a.hi
    elif a.hi < 0:
        lo, hi = a.lo + (1 << a.w), a.hi + (1 << a.w)
    else:
        lo, hi = 0, (1 << a.w) - 1
    return mk('zext', w, (a,), None, lo, hi)


def sext(a, w):
    if a.w == w:
        return a
    if a.w == 1:
        return ite(a, C(-1, w), C(0, w)) if not isc(a) else C(-a.k, w)
    if isc(a):
        return C(a.k, w)
    if a.op in ('zext',):
        return zext(a.args[0], w)
    if a.op == 'sext':
        return sext(a.args[0], w)
    if a.op == 'trunc':
        x = a.args[0]
        if imin(a.w) <= x.lo and x.hi <= imax(a.w):
            return x if x.w == w else sext(x, w) if x.w < w else trunc(x, w)
    if const_tree(a):
        return map_ite(a, lambda x: sext(x, w))
    return mk('sext', w, (a,), None, a.lo, a.hi)


def trunc(a, w):
    if a.w == w:
        return a
    if isc(a):
        return C(a.k, w)
    if w == 1:
        if isbit(a):
            return tobit(a)
        return tobit(srem(a, C(2, a.w))) if a.lo >= 0 else Not(eq(band(a, C(1, a.w)), C(0, a.w)))
    if a.op == 'trunc':
        return trunc(a.args[0], w)
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        return zext(x, w) if a.op == 'zext' else sext(x, w)
    if a.op == 'cat':
        off = 0
        for i, p in enumerate(a.args):
            if off == w:
                return cat(list(a.args[:i]))
            off += p.w
            if off > w:
                if i == 0:
                    return trunc(p, w)
                break
    if a.op == 'ite' and (a.args[1].op in ('c', 'sext', 'zext', 'cat', 'ite') and a.args[2].op in ('c', 'sext', 'zext', 'cat', 'ite')):
        return map_ite(a, lambda x: trunc(x, w))
    lo, hi, _ = norm(w, a.lo, a.hi)
    return mk('trunc', w, (a,), None, lo, hi)


def cat(parts):
    """concatenation, low part first"""
    ps = []
    for p in parts:
        if p.op == 'cat':
            ps.extend(p.args)
        else:
            ps.append(p)
    out = []
    for p in ps:
        if out and isc(out[-1]) and isc(p):
            q = out.pop()
            out.append(C((q.k & ((1 << q.w) - 1)) | ((p.k & ((1 << p.w) - 1)) << q.w), q.w + p.w))
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    # adjacent slices of one term are not re-fused; harmless
    w = sum(p.w for p in out)
    top = out[-1]
    k = w - top.w
    return mk('cat', w, tuple(out), None, top.lo << k, ((top.hi + 1) << k) - 1)


# ------------------------------------------------------------------ comparisons
def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 1:
        return Not(Xor(a, b))
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return C(a.k == b.k, 1)
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if isc(b):
        if a.op in ('zext', 'sext'):
            x = a.args[0]
            if x.w == 1 and a.op == 'zext':
                return x if b.k == 1 else Not(x)
            y = C(b.k, x.w)
            full = (y.k & ((1 << x.w) - 1)) if a.op == 'zext' else y.k
            return eq(x, y) if full == b.k else FALSE
        if a.op == 'ite':
            p, q = a.args[1], a.args[2]
            if isc(p) or isc(q):
                return ite(a.args[0], eq(p, b), eq(q, b))
        if a.op == 'add' and isc(a.args[1]):
            return eq(a.args[0], C(b.k - a.args[1].k, a.w))
    elif a.op in ('zext', 'sext') and b.op == a.op and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    elif a.op == 'add' and b.op == 'add':
        if isc(a.args[1]) and a.args[1] is b.args[1]:
            return eq(a.args[0], b.args[0])
        if a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if a.args[1] is b.args[1]:
            return eq(a.args[0], b.args[0])
        if a.args[0] is b.args[1]:
            return eq(a.args[1], b.args[0])
        if a.args[1] is b.args[0]:
            return eq(a.args[0], b.args[1])
    elif a.op == 'mul' and b.op == 'mul' and isc(a.args[1]) and a.args[1] is b.args[1] and a.args[1].k % 2:
        return eq(a.args[0], b.args[0])
    else:
        r = cancel(a, b, -1)
        if r is not None and isc(r):
            return C(int(r.k == 0), 1)
    if a.id > b.id and not isc(b):
        a, b = b, a
    return mk('eq', 1, (a, b))


def slt(a, b):
    if a is b:
        return FALSE
    if a.w == 1:        # signed i1: true = -1
        return And(a, Not(b))
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if isc(b):
        if a.op == 'sext':
            return slt(a.args[0], C(b.k, a.args[0].w))
        if a.op == 'zext' and a.args[0].w > 1 and a.args[0].lo >= 0:
            return slt(a.args[0], C(b.k, a.args[0].w))
        if a.op == 'add' and isc(a.args[1]):
            x, c = a.args[0], a.args[1].k
            if x.lo + c >= imin(a.w) and x.hi + c <= imax(a.w) and imin(a.w) <= b.k - c <= imax(a.w):
                return slt(x, C(b.k - c, a.w))
        if a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
            return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    elif isc(a):
        if b.op == 'sext':
            return slt(C(a.k, b.args[0].w), b.args[0])
        if b.op == 'zext' and b.args[0].w > 1 and b.args[0].lo >= 0:
            return slt(C(a.k, b.args[0].w), b.args[0])
        if b.op == 'add' and isc(b.args[1]):
            x, c = b.args[0], b.args[1].k
            if x.lo + c >= imin(b.w) and x.hi + c <= imax(b.w) and imin(b.w) <= a.k - c <= imax(b.w):
                return slt(C(a.k - c, b.w), x)
        if b.op == 'ite' and (isc(b.args[1]) or isc(b.args[2])):
            return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    # normal form x < c  as  not (c-1 < x) is avoided; keep  x <= c-1 as x < c
    return mk('slt', 1, (a, b))


def sle(a, b):
    if isinstance(a.w, int) and a.w > 1:
        if isc(a) and a.k > imin(a.w):
            return slt(C(a.k - 1, a.w), b)
        if isc(b) and b.k < imax(b.w):
            return slt(a, C(b.k + 1, b.w))
    return Not(slt(b, a))


# make Not() of x<c / c<x canonical too
_Not0 = Not


def Not(a):     # noqa: F811
    if a.neg is not None:
        return a.neg
    if a.op == 'slt':
        x, y = a.args
        if isc(y):
            r = slt(C(y.k - 1, y.w), x)
            a.neg = r
            r.neg = a
            return r
        if isc(x):
            r = slt(y, C(x.k + 1, x.w))
            a.neg = r
            r.neg = a
            return r
    return _Not0(a)


def ult(a, b):
    if a is b:
        return FALSE
    if a.w == 1:
        return And(Not(a), b)
    if a.lo >= 0 and b.lo >= 0:
        return slt(a, b)
    if isc(a) and isc(b):
        m = (1 << a.w) - 1
        return C((a.k & m) < (b.k & m), 1)
    if a.lo >= 0 and b.hi < 0:
        return TRUE
    if a.hi < 0 and b.lo >= 0:
        return FALSE
    if isc(b) and b.k > 0:
        return And(sle(C(0, a.w), a), slt(a, b))
    if isc(b) and b.k == 0:
        return FALSE
    return mk('ult', 1, (a, b))


def ule(a, b):
    return Not(ult(b, a))


# ------------------------------------------------------------------ floating point
PREC = {'d': 53, 'f': 24, 'x': 64, 'q': 113}
FPN = {'double': 'd', 'float': 'f', 'x86_fp80': 'x', 'fp128': 'q'}


def rnd(v, w):
    """round a Fraction to sort w (RNE); overflow -> None"""
    if v == 0:
        return Fraction(0)
    if w == 'd':
        try:
            return Fraction(float(v))
        except OverflowError:
            return None
    p = PREC[w]
    a = abs(v)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    s = Fraction(2) ** (e - p + 1)
    q = a / s
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    return n * s if v > 0 else -n * s


def FC(v, w):
    v = Fraction(v)
    return mk('fc', w, (), v, v, v)


def fspecial(name, w):
    """inf / -inf / nan constants"""
    return mk('fspec', w, (), name)


SPECIAL = {}


def special(x):
    """x is inf/nan on some path"""
    if x.op == 'fspec':
        return True
    if x.op != 'ite':
        return False
    r = SPECIAL.get(x.id)
    if r is None:
        r = SPECIAL[x.id] = special(x.args[1]) or special(x.args[2])
    return r


PYF = {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}


def sval(x):
    """a python float standing for x in an operation with a special value, or None"""
    if x.op == 'fspec':
        return PYF[x.k]
    if x.lo is None:
        return None
    if x.lo > 0:
        return 1.0
    if x.hi < 0:
        return -1.0
    if x.lo == x.hi == 0:
        return 0.0
    return None


def spec_of(v, w):
    if v != v:
        return fspecial('nan', w)
    if v in (math.inf, -math.inf):
        return fspecial('inf' if v > 0 else '-inf', w)
    return FC(Fraction(v), w)


def over_ite(f, *xs):
    """f over the leaves of the operands that carry a special value; None when there is none"""
    for i, x in enumerate(xs):
        if x.op == 'ite' and special(x):
            a = f(*(xs[:i] + (x.args[1],) + xs[i + 1:]))
            b = f(*(xs[:i] + (x.args[2],) + xs[i + 1:]))
            return ite(x.args[0], a, b)
    return None


def fcst(t):
    return t.op == 'fc'


EXACT = {'f': 1 << 24, 'd': 1 << 53, 'x': 1 << 62, 'q': 1 << 62}


def asint(x):
    """the 64-bit integer term an exactly converted float term stands for, or None"""
    if x.op == 'fc':
        return C(x.k.numerator if isinstance(x.k, Fraction) else x.k, 64) if Fraction(x.k).denominator == 1 and abs(x.k) <= EXACT[x.w] else None
    if x.op == 'sitofp' and x.args[0].w <= 64:
        a = x.args[0]
        if abs(a.lo) <= EXACT[x.w] and abs(a.hi) <= EXACT[x.w]:
            return sext(a, 64) if a.w < 64 else a
    return None


# Real-valued view of a floating-point term: x = c0 + sum coef * integer term, up to an absolute error that bounds
# every rounding on the way (half an ulp of the largest magnitude of each intermediate result).
FORMS = {}
TINY = Fraction(1, 1 << 1000)


def rform(x, depth=12):
    """(c0, ((term, coef), ...), error) or None"""
    r = FORMS.get(x.id, 0)
    if r != 0:
        return r
    r = _rform(x, depth)
    FORMS[x.id] = r
    return r


def _rnderr(x):
    return max(abs(x.lo), abs(x.hi)) / EXACT[x.w] + TINY


def _fcombine(f, g, s):
    d = {}
    for tm, c in f[1]:
        d[tm.id] = (tm, c)
    for tm, c in g[1]:
        o = d.get(tm.id)
        d[tm.id] = (tm, c * s + (o[1] if o else 0))
    return f[0] + s * g[0], tuple(v for v in d.values() if v[1] != 0), f[2] + g[2]


def _fscale(f, k):
    return f[0] * k, tuple((tm, c * k) for tm, c in f[1]) if k else (), f[2] * abs(k)


def _linear(i):
    """integer term as a linear form over non-wrapping additions"""
    if isc(i):
        return Fraction(i.k), (), Fraction(0)
    if i.op in ('add', 'sub', 'mul'):
        a, b = i.args
        iv = raw_ival(i.op, i.w, (a.lo, a.hi), (b.lo, b.hi))
        if iv and imin(i.w) <= iv[0] and iv[1] <= imax(i.w):
            if i.op == 'mul':
                if isc(a):
                    a, b = b, a
                if isc(b):
                    return _fscale(_linear(a), b.k)
            else:
                return _fcombine(_linear(a), _linear(b), 1 if i.op == 'add' else -1)
    if i.op == 'sext' and i.args[0].w > 1:
        return _linear(i.args[0])
    return Fraction(0), ((i, Fraction(1)),), Fraction(0)


def _rform(x, depth):
    if depth == 0 or x.lo is None or x.w not in EXACT:
        return None
    op = x.op
    if op == 'fc':
        return Fraction(x.k), (), Fraction(0)
    if op == 'sitofp':
        a = x.args[0]
        f = _linear(a)
        exact = max(abs(a.lo), abs(a.hi)) <= EXACT[x.w]
        return f[0], f[1], f[2] + (0 if exact else _rnderr(x))
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = x.args
        f, g = rform(a, depth - 1), rform(b, depth - 1)
        if f is None or g is None:
            return None
        if op in ('fadd', 'fsub'):
            r = _fcombine(f, g, 1 if op == 'fadd' else -1)
        elif op == 'fmul':
            if a.op == 'fc':
                f, a, b = g, b, a
            if b.op != 'fc':
                return None
            r = _fscale(f, Fraction(b.k))
        else:
            if b.op != 'fc' or b.k == 0:
                return None
            r = _fscale(f, 1 / Fraction(b.k))
        lo, hi = _fbounds(r)             # the exact result, of which at most half an ulp is lost
        return r[0], r[1], r[2] + min(_rnderr(x), max(abs(lo), abs(hi)) / EXACT[x.w] + TINY)
    if op == 'fneg':
        f = rform(x.args[0], depth - 1)
        return f and _fscale(f, Fraction(-1))
    if op == 'fpcast':
        f = rform(x.args[0], depth - 1)
        if f is None:
            return None
        return f[0], f[1], f[2] + (0 if EXACT[x.w] >= EXACT.get(x.args[0].w, 1 << 99) else _rnderr(x))
    return None


def _fbounds(f):
    lo = hi = f[0]
    for tm, c in f[1]:
        lo += min(c * tm.lo, c * tm.hi)
        hi += max(c * tm.lo, c * tm.hi)
    return lo - f[2], hi + f[2]


def _fsum(f, n):
    """the 64-bit integer term sum coef * term + n, or None when it might not fit"""
    lo, hi = _fbounds((Fraction(n), f[1], 0))
    big = sum((abs(c) * max(abs(tm.lo), abs(tm.hi)) for tm, c in f[1]), Fraction(abs(n)))
    if big > imax(64):
        return None
    r = C(n, 64)
    for tm, c in f[1]:
        r = add(r, mul(sext(tm, 64) if tm.w < 64 else tm, C(int(c), 64)))
    return r


def ffix(op, x, p=1):
    """x * p rounded to an integer (ftrunc, ffloor, fceil, fround, frint) as a 64-bit term, or None when the
    rounding errors within x could change the result"""
    if x.op in ('fc', 'ite') or x.lo is None:
        return None
    f = rform(x)
    if f is None:
        return None
    f = _fscale(f, Fraction(p))
    if not f[1] or any(c.denominator != 1 for tm, c in f[1]):
        return None
    n = f[0].numerator // f[0].denominator
    ph, e = f[0] - n, f[2]
    half = Fraction(1, 2)
    if op in ('fround', 'frint'):
        if ph + e < half:
            return _fsum(f, n)
        if ph - e > half and ph + e < half + 1:
            return _fsum(f, n + 1)
        return None
    if ph == 0 and e == 0:
        return _fsum(f, n)
    if not (e < ph and e < 1 - ph):
        return None
    if op == 'ffloor':
        return _fsum(f, n)
    if op == 'fceil':
        return _fsum(f, n + 1)
    a, b = _fsum(f, n), _fsum(f, n + 1)
    if a is None or b is None:
        return None
    return ite(sle(C(0, 64), a), a, b)


def fbin(op, a, b):
    w = a.w
    if special(a) or special(b):
        r = over_ite(lambda x, y: fbin(op, x, y), a, b)
        if r is not None:
            return r
        x, y = sval(a), sval(b)
        if op in ('fadd', 'fsub'):      # any finite value will do for the other operand
            x = 0.0 if x is None and a.lo is not None else x
            y = 0.0 if y is None and b.lo is not None else y
        if x is not None and y is not None:
            if op == 'fdiv' and y == 0:
                return fspecial('nan', w)
            if op == 'fdiv' and b.op == 'fspec' and a.op != 'fspec' and b.k != 'nan':
                return FC(0, w)
            return spec_of({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op](), w)
        return mk(op, w, (a, b))
    if op != 'fdiv' and (a.op == 'sitofp' or b.op == 'sitofp'):
        # exact integer arithmetic carried out in floating point
        i, j = asint(a), asint(b)
        if i is not None and j is not None and (op != 'fmul' or isc(i) or isc(j)):
            lo, hi = raw_ival(op[1:], 128, (i.lo, i.hi), (j.lo, j.hi))
            if max(abs(lo), abs(hi)) <= EXACT[w]:
                return itofp({'fadd': add, 'fsub': sub, 'fmul': mul}[op](i, j), w)
    f = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y,
         'fdiv': lambda x, y: x / y}[op]
    if fcst(a) and fcst(b) and not (op == 'fdiv' and b.k == 0):
        r = rnd(f(a.k, b.k), w)
        if r is not None:
            return FC(r, w)
    if op == 'fmul' and fcst(b) and b.k == 1 or op == 'fdiv' and fcst(b) and b.k == 1:
        return a
    if op == 'fmul' and fcst(a) and a.k == 1:
        return b
    if op == 'fadd' and fcst(b) and b.k == 0:
        return a      # -0 + 0 difference not observable in this code base
    if op == 'fadd' and fcst(a) and a.k == 0:
        return b
    lo = hi = None
    if None not in (a.lo, b.lo, a.hi, b.hi) and not (op == 'fdiv' and b.lo <= 0 <= b.hi):
        xs = [rnd(f(x, y), w) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        if None not in xs:
            lo, hi = min(xs), max(xs)
    return mk(op, w, (a, b), None, lo, hi)


def fneg(a):
    if special(a):
        return over_ite(fneg, a) or spec_of(-PYF[a.k], a.w)
    if fcst(a):
        return FC(-a.k, a.w)
    if a.lo is None:
        return mk('fneg', a.w, (a,))
    return mk('fneg', a.w, (a,), None, -a.hi, -a.lo)


def itofp(a, w, signed=True):
    if a.w == 1:
        return ite(a, FC(-1 if signed else 1, w), FC(0, w))
    if not signed and a.lo < 0:
        if isc(a):
            return FC(rnd(Fraction(a.k & ((1 << a.w) - 1)), w), w)
        return mk('uitofp', w, (a,), None, Fraction(0), rnd(Fraction((1 << a.w) - 1), w))
    if isc(a):
        return FC(rnd(Fraction(a.k), w), w)
    return mk('sitofp', w, (a,), None, rnd(Fraction(a.lo), w), rnd(Fraction(a.hi), w))


def ftr(v):
    return tdiv(v.numerator, v.denominator)


def fptoi(a, w, signed=True):
    if fcst(a):
        return C(ftr(a.k), w)
    if special(a):
        return over_ite(lambda x: fptoi(x, w, signed), a) or C(imin(w), w)
    if a.op == 'sitofp':
        i = asint(a)
        if i is not None and (imin(w) if signed else 0) <= i.lo and i.hi <= imax(w):
            return trunc(i, w) if w < 64 else sext(i, w)
    if w == 64 and signed:
        i = ffix('ftrunc', a)
        if i is not None:
            return i
    lo, hi = (imin(w), imax(w)) if signed else (imin(w), imax(w))
    if a.lo is not None:
        l, h = ftr(a.lo), ftr(a.hi)
        if signed:
            if l >= imin(w) and h <= imax(w):
                lo, hi = l, h
        elif l >= 0 and h <= imax(w):
            lo, hi = l, h
    if lo == hi:
        return C(lo, w)
    return mk('fptosi' if signed else 'fptoui', w, (a,), None, lo, hi)


def fcmp(pred, a, b):
    """pred in oeq ogt oge olt ole one ord uno ueq ugt ... ; NaN-free terms: ordered == unordered"""
    if pred == 'false':
        return FALSE
    if pred == 'true':
        return TRUE
    if special(a) or special(b):
        r = over_ite(lambda x, y: fcmp(pred, x, y), a, b)
        if r is not None:
            return r
        sp = [t.k for t in (a, b) if t.op == 'fspec']
        if 'nan' in sp:
            return C(pred[0] == 'u', 1)
        if all(t.op == 'fspec' or t.lo is not None for t in (a, b)):
            va = {'inf': math.inf, '-inf': -math.inf}.get(a.k) if a.op == 'fspec' else 0
            vb = {'inf': math.inf, '-inf': -math.inf}.get(b.k) if b.op == 'fspec' else 0
            if pred == 'ord':
                return TRUE
            if pred == 'uno':
                return FALSE
            p = pred[1:]
            return C({'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[p], 1)
        return mk('fcmp', 1, (a, b), pred)
    fin = a.lo is not None and b.lo is not None
    if fin:
        if pred == 'ord':
            return TRUE
        if pred == 'uno':
            return FALSE
        p = pred[1:]
        if p in ('gt', 'ge'):
            a, b = b, a
            p = 'lt' if p == 'gt' else 'le'
        if p == 'ne':
            return Not(fcmp('oeq', a, b))
        if a.op == 'sitofp' or b.op == 'sitofp':
            i, j = asint(a), asint(b)
            if i is not None and j is not None:
                return slt(i, j) if p == 'lt' else sle(i, j) if p == 'le' else eq(i, j)
            if i is not None and b.op == 'fc' and abs(b.k) <= EXACT[a.w] and p != 'eq':
                return slt(i, C(math.ceil(b.k), 64)) if p == 'lt' else sle(i, C(math.floor(b.k), 64))
            if j is not None and a.op == 'fc' and abs(a.k) <= EXACT[a.w] and p != 'eq':
                return slt(C(math.floor(a.k), 64), j) if p == 'lt' else sle(C(math.ceil(a.k), 64), j)
        if p == 'lt':
            if a.hi < b.lo:
                return TRUE
            if a.lo >= b.hi:
                return FALSE
            if a is b:
                return FALSE
        elif p == 'le':
            if a.hi <= b.lo or a is b:
                return TRUE
            if a.lo > b.hi:
                return FALSE
        elif p == 'eq':
            if a is b:
                return TRUE
            if a.hi < b.lo or b.hi < a.lo:
                return FALSE
            if fcst(a) and fcst(b):
                return C(a.k == b.k, 1)
        r = fcmp_forms(p, a, b)
        return mk('fcmp', 1, (a, b), 'o' + p) if r is None else r
    return mk('fcmp', 1, (a, b), pred)


def fcmp_forms(p, a, b):
    """comparison decided by the real-valued views (absolute values and conditional values included)"""
    for i, t in enumerate((a, b)):
        if t.op == 'ite' and t.lo is not None:
            r = [fcmp_forms(p, *((x, b) if i == 0 else (a, x))) for x in t.args[1:]]
            return r[0] if r[0] is r[1] else None
    if a.op == 'fabs' and p != 'eq':
        f, g = rform(a.args[0]), rform(b)
        if f is None or g is None:
            return None
        r = _decided(p, _fcombine(f, g, -1)), _decided(p, _fcombine(_fscale(f, Fraction(-1)), g, -1))
        return TRUE if r == (True, True) else FALSE if False in r else None
    f, g = rform(a), rform(b)
    if f is None or g is None:
        return None
    r = _decided(p, _fcombine(f, g, -1))
    return None if r is None else C(r, 1)


def _decided(p, d):
    lo, hi = _fbounds(d)
    if p == 'eq':
        return False if lo > 0 or hi < 0 else None
    if p == 'lt':
        return True if hi < 0 else False if lo >= 0 else None
    return True if hi <= 0 else False if lo > 0 else None


def fpcast(a, w):
    if a.w == w:
        return a
    if fcst(a):
        return FC(rnd(a.k, w), w)
    if special(a):
        return over_ite(lambda x: fpcast(x, w), a) or fspecial(a.k, w)
    lo = hi = None
    if a.lo is not None:
        lo, hi = rnd(a.lo, w), rnd(a.hi, w)
    return mk('fpcast', w, (a,), None, lo, hi)


FINT = {
    'ftrunc': lambda v: Fraction(ftr(v)),
    'ffloor': lambda v: Fraction(v.numerator // v.denominator),
    'fceil': lambda v: Fraction(-((-v.numerator) // v.denominator)),
    'fround': lambda v: Fraction((abs(v) + Fraction(1, 2)).numerator // (abs(v) + Fraction(1, 2)).denominator * (1 if v >= 0 else -1)),
    'frint': lambda v: Fraction(round(v)),
}


def fint(op, a):
    if special(a):
        return over_ite(lambda x: fint(op, x), a) or a
    if fcst(a):
        return FC(FINT[op](a.k), a.w)
    if a.op == 'sitofp' and asint(a) is not None:
        return a
    i = ffix(op, a)
    if i is not None and max(abs(i.lo), abs(i.hi)) <= EXACT[a.w]:
        return itofp(i, a.w)
    lo = hi = None
    if a.lo is not None:
        lo, hi = FINT[op](a.lo), FINT[op](a.hi)
    return mk(op, a.w, (a,), None, lo, hi)


def fabs(a):
    if special(a):
        return over_ite(fabs, a) or spec_of(abs(PYF[a.k]), a.w)
    if fcst(a):
        return FC(abs(a.k), a.w)
    if a.lo is not None and a.lo >= 0:
        return a
    if a.lo is None:
        return mk('fabs', a.w, (a,))
    lo = Fraction(0) if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
    return mk('fabs', a.w, (a,), None, lo, max(abs(a.lo), abs(a.hi)))


# ------------------------------------------------------------------ concrete evaluation (validation / replay)
def evaluate(roots, env):
    """env: var name -> int (ints, bools) ; returns list of python values (ints / Fractions)"""
    memo = {}

    def ev(root):
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            if t.op in ('c', 'fc'):
                memo[t.id] = t.k
                st.pop()
                continue
            if t.op == 'var':
                memo[t.id] = env.get(t.k, t.lo if t.lo is not None else 0)
                st.pop()
                continue
            if t.op == 'ite':
                c = memo.get(t.args[0].id)
                if c is None:
                    st.append(t.args[0])
                    continue
                b = t.args[1] if c else t.args[2]
                v = memo.get(b.id)
                if v is None:
                    st.append(b)
                    continue
                memo[t.id] = v
                st.pop()
                continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[t.id] = ev1(t, [memo[a.id] for a in t.args])
            st.pop()
        return memo[root.id]
    return [ev(r) for r in roots]


def ev1(t, v):
    op, w = t.op, t.w
    if op == 'not':
        return 1 - v[0]
    if op == 'and':
        return int(all(v))
    if op == 'or':
        return int(any(v))
    if op == 'xor1':
        return v[0] ^ v[1]
    if op == 'add':
        return sx(v[0] + v[1], w)
    if op == 'sub':
        return sx(v[0] - v[1], w)
    if op == 'mul':
        return sx(v[0] * v[1], w)
    if op == 'sdiv':
        return sx(tdiv(v[0], v[1]), w) if v[1] else 0
    if op == 'srem':
        return sx(v[0] - v[1] * tdiv(v[0], v[1]), w) if v[1] else v[0]
    aw = t.args[0].w if t.args else None
    if isinstance(aw, int):
        m = (1 << aw) - 1
    if op == 'udiv':
        return sx((v[0] & m) // (v[1] & m), w) if v[1] else 0
    if op == 'urem':
        return sx((v[0] & m) % (v[1] & m), w) if v[1] else v[0]
    if op == 'and_':
        return v[0] & v[1]
    if op == 'or_':
        return v[0] | v[1]
    if op == 'xor_':
        return v[0] ^ v[1]
    if op == 'shl':
        return sx(v[0] << v[1], w) if 0 <= v[1] < w else 0
    if op == 'lshr':
        return sx((v[0] & m) >> v[1], w) if 0 <= v[1] < w else 0
    if op == 'ashr':
        return v[0] >> min(max(v[1], 0), w - 1)
    if op == 'zext':
        return sx(v[0] & m, w)
    if op == 'sext':
        return v[0]
    if op == 'trunc':
        return sx(v[0], w)
    if op == 'cat':
        r, off = 0, 0
        for a, x in zip(t.args, v):
            r |= (x & ((1 << a.w) - 1)) << off
            off += a.w
        return sx(r, w)
    if op == 'eq':
        return int(v[0] == v[1])
    if op == 'slt':
        return int(v[0] < v[1])
    if op == 'sle':
        return int(v[0] <= v[1])
    if op == 'ult':
        return int((v[0] & m) < (v[1] & m))
    if op == 'ule':
        return int((v[0] & m) <= (v[1] & m))
    if op == 'fadd':
        return rnd(v[0] + v[1], w)
    if op == 'fsub':
        return rnd(v[0] - v[1], w)
    if op == 'fmul':
        return rnd(v[0] * v[1], w)
    if op == 'fdiv':
        return rnd(v[0] / v[1], w)
    if op == 'fneg':
        return -v[0]
    if op == 'fabs':
        return abs(v[0])
    if op == 'sitofp':
        return rnd(Fraction(v[0]), w)
    if op == 'uitofp':
        return rnd(Fraction(v[0] & m), w)
    if op in ('fptosi', 'fptoui'):
        return sx(ftr(v[0]), w)
    if op == 'fpcast':
        return rnd(v[0], w)
    if op in FINT:
        return FINT[op](v[0])
    if op == 'fcmp':
        p = t.k[1:]
        a, b = v
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
    raise NotImplementedError(op)


reset()
