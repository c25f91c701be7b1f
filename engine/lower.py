"""Term DAG -> SMT (linear integer arithmetic with explicit quotients/remainders; bit-vectors as fallback)."""
from fractions import Fraction
import os
import re
import z3
import terms as t


class Unsupported(Exception):
    pass


class IntLowering:
    """exact encoding: every machine operation whose interval can leave the type gets a wrap variable"""

    def __init__(self):
        self.nl = False
        self.memo = {}
        self.fmemo = {}
        self.divs = {}
        self.side = []
        self.n = 0

    def fresh(self, p='q'):
        self.n += 1
        return z3.Int('%s!%d' % (p, self.n))

    def bool(self, root):
        self.walk(root)
        return self.memo[root.id]

    def walk(self, root):
        st = [root]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            r = self.small(x)
            if r is not None:
                memo[x.id] = r
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = self.one(x)
            st.pop()

    def small(self, x):
        """a term over one variable of small range, written as a union of ranges / a piecewise shift"""
        if not x.args or (x.w != 1 and x.op not in ('or_', 'and_', 'xor_')):
            return None
        v = t.onevar(x)
        if not v or v.w == 1:
            return None
        if v.id not in self.memo:
            self.memo[v.id] = self.one(v)
        z = self.memo[v.id]
        if x.w == 1:
            m = t.bits(x)
            if m < 0:
                return None
            n = v.hi - v.lo + 1
            out, i = [], 0
            while i < n:
                if m >> i & 1:
                    j = i
                    while j + 1 < n and m >> (j + 1) & 1:
                        j += 1
                    out.append(z3.And(*([z >= v.lo + i] if i else []), *([z <= v.lo + j] if j < n - 1 else [])))
                    i = j + 1
                else:
                    i += 1
            return z3.Or(*out) if len(out) <= 24 else None
        segs = []
        for k in range(v.lo, v.hi + 1):
            d = t.evaluate([x], {v.k: k})[0] - k
            if not segs or segs[-1][1] != d:
                segs.append([k, d])
        if len(segs) > 64:
            return None
        e = z + segs[-1][1]
        for (lo, d), nx in reversed(list(zip(segs, segs[1:]))):
            e = z3.If(z < nx[0], z + d, e)
        return e

    def wrap(self, e, x, lo, hi):
        """e: raw value with interval [lo,hi]; reduce to signed w bits"""
        w = x.w
        if lo >= t.imin(w) and hi <= t.imax(w):
            return e
        k = self.fresh('w')
        m = 1 << w
        klo, khi = (lo - t.imin(w)) // m, (hi - t.imin(w)) // m
        if klo == khi == 0:
            return e
        r = e - m * k
        self.side += [k >= klo, k <= khi, r >= t.imin(w), r <= t.imax(w)]
        return r

    def divmod_floor(self, e, key, c):
        """floor quotient and remainder by the positive constant c"""
        kk = (key, c)
        r = self.divs.get(kk)
        if r is None:
            q, m = self.fresh('q'), self.fresh('r')
            self.side += [e == c * q + m, m >= 0, m < c]
            r = self.divs[kk] = (q, m)
        return r

    def tdivmod(self, x, e, c, lo, hi):
        """truncated quotient / remainder by constant c > 0"""
        if lo >= 0:
            return self.divmod_floor(e, ('t', x.id), c)
        kk = (('td', x.id), c)
        r = self.divs.get(kk)
        if r is None:
            q, m = self.fresh('q'), self.fresh('r')
            self.side.append(e == c * q + m)
            if hi <= 0:
                self.side += [m <= 0, m > -c]
            else:
                self.side += [z3.If(e >= 0, z3.And(m >= 0, m < c), z3.And(m <= 0, m > -c))]
                self.side += [m < c, m > -c]
            r = self.divs[kk] = (q, m)
        return r

    def vdivmod(self, x, y, e, d):
        """truncated quotient / remainder by a term (anything when it is 0)"""
        self.nl = True
        kk = ('v', x.id, y.id)
        r = self.divs.get(kk)
        if r is None:
            q, m = self.fresh('q'), self.fresh('r')
            c = [e == q * d + m]
            if y.lo >= 0:
                c.append(m < d if x.lo >= 0 else z3.And(m < d, m > -d))
            elif y.hi <= 0:
                c.append(m < -d if x.lo >= 0 else z3.And(m < -d, m > d))
            else:
                c.append(z3.If(d >= 0, z3.And(m < d, m > -d), z3.And(m < -d, m > d)))
            c.append(m >= 0 if x.lo >= 0 else m <= 0 if x.hi <= 0 else z3.If(e >= 0, m >= 0, m <= 0))
            c = z3.And(*c)
            self.side.append(z3.Or(d == 0, c) if y.lo <= 0 <= y.hi else c)
            r = self.divs[kk] = (q, m)
        return r

    def uns(self, a, e):
        """unsigned reading of e"""
        if a.lo >= 0:
            return e, a.lo, a.hi
        m = 1 << a.w
        if a.hi < 0:
            return e + m, a.lo + m, a.hi + m
        return z3.If(e < 0, e + m, e), 0, m - 1

    def one(self, x):
        op, w = x.op, x.w
        a = [self.memo[y.id] for y in x.args]
        if not isinstance(w, int):
            return self.fp(x, a)
        if op == 'c':
            return z3.BoolVal(bool(x.k)) if w == 1 else z3.IntVal(x.k)
        if op == 'var':
            if w == 1:
                return z3.Bool(x.k)
            v = z3.Int(x.k)
            self.side += [v >= x.lo, v <= x.hi]
            return v
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'xor1':
            return z3.Xor(a[0], a[1])
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        A = x.args
        if op == 'eq':
            return a[0] == a[1]
        if op == 'slt':
            return a[0] < a[1]
        if op == 'sle':
            return a[0] <= a[1]
        if op in ('ult', 'ule'):
            p, q = self.uns(A[0], a[0])[0], self.uns(A[1], a[1])[0]
            return p < q if op == 'ult' else p <= q
        if op == 'add':
            return self.wrap(a[0] + a[1], x, A[0].lo + A[1].lo, A[0].hi + A[1].hi)
        if op == 'sub':
            return self.wrap(a[0] - a[1], x, A[0].lo - A[1].hi, A[0].hi - A[1].lo)
        if op == 'mul':
            if not t.isc(A[0]) and not t.isc(A[1]):
                r = self.mulsel(x, A, a)
                if r is not None:
                    return r
                self.nl = True
            lo, hi = t.raw_ival('mul', w, (A[0].lo, A[0].hi), (A[1].lo, A[1].hi))
            return self.wrap(a[0] * a[1], x, lo, hi)
        if op in ('sdiv', 'srem'):
            if not t.isc(A[1]):
                q, r = self.vdivmod(A[0], A[1], a[0], a[1])
                if op == 'srem':
                    return r
                lo, hi = t.raw_ival('sdiv', w, (A[0].lo, A[0].hi), (A[1].lo, A[1].hi))
                return self.wrap(q, x, lo, hi)
            if A[1].k == 0:
                raise Unsupported('division by zero')
            c = A[1].k
            q, r = self.tdivmod(A[0], a[0], abs(c), A[0].lo, A[0].hi)
            if op == 'srem':
                return r
            if c == -1:
                return self.wrap(-a[0], x, -A[0].hi, -A[0].lo)
            return q if c > 0 else -q
        if op in ('udiv', 'urem'):
            if not t.isc(A[1]) or A[1].k <= 0:
                raise Unsupported('unsigned division')
            e, lo, hi = self.uns(A[0], a[0])
            q, r = self.divmod_floor(e, ('u', A[0].id), A[1].k)
            return self.wrap(q, x, lo // A[1].k, hi // A[1].k) if op == 'udiv' else r
        if op == 'zext':
            if A[0].w == 1:
                return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))
            return self.uns(A[0], a[0])[0]
        if op == 'sext':
            return a[0]
        if op == 'trunc':
            return self.wrap(a[0], x, A[0].lo, A[0].hi)
        if op == 'cat':
            e, off, lo, hi = z3.IntVal(0), 0, 0, 0
            for i, (p, pe) in enumerate(zip(A, a)):
                if i == len(A) - 1:
                    e = e + (1 << off) * pe
                else:
                    u, _, _ = self.uns(p, pe)
                    e = e + (1 << off) * u
                off += p.w
            return e
        if op == 'and_':
            for i in (0, 1):
                if t.isc(A[1 - i]):
                    k = A[1 - i].k
                    m = k if k >= 0 else None
                    if m is not None and m & (m + 1) == 0:
                        return self.divmod_floor(a[i], ('f', A[i].id), m + 1)[1]
                    if k < 0 and (-k) & (-k - 1) == 0:     # ...1110000
                        return a[i] - self.divmod_floor(a[i], ('f', A[i].id), -k)[1]
                    if k > 0 and k & (k - 1) == 0:         # one bit
                        q, _ = self.divmod_floor(a[i], ('f', A[i].id), k)
                        _, r = self.divmod_floor(q, ('b', A[i].id, k), 2)
                        return r * k
            for i in (0, 1):
                if t.isbit(A[i]):
                    o = 1 - i
                    return z3.If(a[i] == 1, self.divmod_floor(a[o], ('f', A[o].id), 2)[1], z3.IntVal(0))
            return self.bits2(x, A, a)
        if op in ('or_', 'xor_'):
            return self.bits2(x, A, a)
        if op == 'lshr':
            if not t.isc(A[1]):
                raise Unsupported('shift')
            e, lo, hi = self.uns(A[0], a[0])
            q, _ = self.divmod_floor(e, ('u', A[0].id), 1 << A[1].k)
            return self.wrap(q, x, lo >> A[1].k, hi >> A[1].k)
        if op == 'ashr':
            if not t.isc(A[1]):
                raise Unsupported('shift')
            return self.divmod_floor(a[0], ('f', A[0].id), 1 << A[1].k)[0]
        if op == 'shl':
            if not t.isc(A[1]):
                raise Unsupported('shift')
            m = 1 << A[1].k
            return self.wrap(a[0] * m, x, A[0].lo * m, A[0].hi * m)
        if op == 'fcmp':
            p = x.k
            (n1, e1), (n2, e2) = a
            e = min(e1, e2)
            n1, n2 = n1 * (1 << (e1 - e)), n2 * (1 << (e2 - e))
            return {'oeq': n1 == n2, 'olt': n1 < n2, 'ole': n1 <= n2}[p]
        if op in ('fptosi', 'fptoui'):
            n, e = a[0]
            if e >= 0:
                return n * (1 << e)
            F = A[0]
            lo, hi = F.lo, F.hi
            q, r = self.tdivmod(F, n, 1 << -e, -1 if lo is None or lo < 0 else 0, 1 if hi is None or hi > 0 else 0)
            return q
        if op == 'fscaled':
            n, e = a[0]
            p = x.k
            n = n * p
            if e >= 0:
                return n * (1 << e)
            return self.rne_div(n, 1 << -e, ('fs', A[0].id, p))
        raise Unsupported(op)

    def mulsel(self, x, A, a):
        """product where one factor takes few constant values through an ite tree or a small interval"""
        for i in (0, 1):
            if t.const_tree(A[i]):
                leaves = {l.k for l in t.ite_leaves(A[i])}
            elif A[i].hi - A[i].lo <= 64:
                leaves = set(range(A[i].lo, A[i].hi + 1))
            else:
                continue
            o = a[1 - i]
            e = None
            for k in sorted(leaves):
                e = o * k if e is None else z3.If(a[i] == k, o * k, e)
            lo, hi = t.raw_ival('mul', x.w, (A[0].lo, A[0].hi), (A[1].lo, A[1].hi))
            return self.wrap(e, x, lo, hi)
        return None

    def bits2(self, x, A, a):
        """small non-negative operands: bit by bit"""
        n = max(A[0].hi, A[1].hi).bit_length()
        if A[0].lo < 0 or A[1].lo < 0 or n > 16:
            raise Unsupported('bitwise operation')
        e = z3.IntVal(0)

        def bits(i):
            out = []
            q, key = a[i], ('f', A[i].id)
            for k in range(n):
                q2, r = self.divmod_floor(q, key, 2)
                out.append(r)
                q, key = q2, ('bb', A[i].id, k)
            return out
        p, q = bits(0), bits(1)
        for k in range(n):
            u, v = p[k] == 1, q[k] == 1
            c = {'and_': z3.And(u, v), 'or_': z3.Or(u, v), 'xor_': z3.Xor(u, v)}[x.op]
            e = e + z3.If(c, z3.IntVal(1 << k), z3.IntVal(0))
        return e

    # ------------------------------------------------------------ floating point: (N, e) with value N * 2^e
    def rne_div(self, n, d, key):
        """round-half-even of n/d, d positive constant"""
        if d == 1:
            return n
        q, r = self.divmod_floor(n, key, d)
        _, odd = self.divmod_floor(q, ('odd', key, d), 2)
        return z3.If(z3.Or(2 * r > d, z3.And(2 * r == d, odd == 1)), q + 1, q)

    def ilog2(self, v):
        v = abs(v)
        e = v.numerator.bit_length() - v.denominator.bit_length()
        if Fraction(2) ** e > v:
            e -= 1
        return e

    def round(self, x, n, d, e, lo, hi):
        """value n/d*2^e (n Int expr, d>0 const) rounded to x.w; lo/hi bound the exact value"""
        p = t.PREC[x.w]
        if lo > hi:
            lo, hi = hi, lo
        big = max(abs(lo), abs(hi))
        if big == 0:
            return z3.IntVal(0), 0
        small = Fraction(2) ** e / d          # least non-zero magnitude
        if lo > 0:
            small = max(small, lo)
        if hi < 0:
            small = max(small, -hi)
        bhi, blo = self.ilog2(big), self.ilog2(small)
        blo = max(min(blo, bhi), {'d': -1022, 'f': -126}.get(x.w, -16382))
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            e -= k
            d = 1
            if bhi - e < p:         # all bits fit: exact
                return n, e
        if bhi - blo > 130:
            raise Unsupported('float operation spanning %d binades' % (bhi - blo))
        eo = blo - p + 1             # output exponent
        neg = lo < 0
        an = n
        if neg and hi > 0:
            an = z3.If(n >= 0, n, -n)
        elif neg:
            an = -n
        # in binade b the result is RNE(|n| * 2^(e-(b-p+1)) / d) units of 2^(b-p+1)
        # common divisor: D = d * 2^s with s >= 0 for the largest needed down-shift
        shs = {b: e - (b - p + 1) for b in range(blo, bhi + 1)}
        if bhi == blo:
            s = shs[bhi]
            num, den = (an * (1 << s), d) if s >= 0 else (an, d << -s)
            r = self.rne_div(num, den, ('rn', x.id))
            return (-r if neg and hi <= 0 else z3.If(n >= 0, r, -r) if neg else r), eo
        smin = min(0, shs[bhi])
        den = d << -smin
        scaled = None
        mult = None
        for b in range(blo, bhi + 1):
            num = an * (1 << (shs[b] - smin))
            up = 1 << (b - blo)
            if scaled is None:
                scaled, mult = num, [(None, up)]
            else:
                # |value| >= 2^b  <=>  an*2^e >= d*2^b
                c = an * (1 << max(0, e - b)) >= d * (1 << max(0, b - e))
                scaled = z3.If(c, num, scaled)
                mult.append((c, up))
        sv = self.fresh('s')
        self.side.append(sv == scaled)
        r = self.rne_div(sv, den, ('rn', x.id))
        rv = self.fresh('rv')
        self.side.append(rv == r)
        self.side += [rv >= 0, rv <= (1 << p)]
        out = None
        for c, up in mult:
            out = rv * up if out is None else z3.If(c, rv * up, out)
        ov = self.fresh('ov')
        self.side.append(ov == out)
        if neg:
            ov = -ov if hi <= 0 else z3.If(n >= 0, ov, -ov)
        return ov, eo

    def fiv(self, x):
        if x.lo is None:
            raise Unsupported('float without bounds (%s)' % x.op)
        return Fraction(x.lo), Fraction(x.hi)

    def fp(self, x, a):
        op = x.op
        A = x.args
        if op == 'fc':
            v = x.k
            e = -(v.denominator.bit_length() - 1)
            n = v.numerator
            if n and e == 0:
                z = (n & -n).bit_length() - 1
                n >>= z
                e = z
            return z3.IntVal(n), e
        if op == 'fspec':
            return None            # only meaningful below an ite that fp code never selects here
        if op == 'ite':
            p, q = a[1], a[2]
            if p is None:
                return q
            if q is None:
                return p
            e = min(p[1], q[1])
            return z3.If(a[0], p[0] * (1 << (p[1] - e)), q[0] * (1 << (q[1] - e))), e
        if op == 'sitofp':
            m = max(abs(A[0].lo), abs(A[0].hi))
            if m <= 1 << t.PREC[x.w]:
                return a[0], 0
            return self.round(x, a[0], 1, 0, Fraction(A[0].lo), Fraction(A[0].hi))
        if op == 'uitofp':
            u, lo, hi = self.uns(A[0], a[0])
            return self.round(x, u, 1, 0, Fraction(lo), Fraction(hi))
        if op in ('fadd', 'fsub'):
            (n1, e1), (n2, e2) = a
            e = min(e1, e2)
            n1, n2 = n1 * (1 << (e1 - e)), n2 * (1 << (e2 - e))
            l1, h1 = self.fiv(A[0])
            l2, h2 = self.fiv(A[1])
            if op == 'fadd':
                return self.round(x, n1 + n2, 1, e, l1 + l2, h1 + h2)
            return self.round(x, n1 - n2, 1, e, l1 - h2, h1 - l2)
        if op == 'fmul':
            (n1, e1), (n2, e2) = a
            i = 0 if A[0].op == 'fc' else 1 if A[1].op == 'fc' else None
            if i is None:
                raise Unsupported('product of two float variables')
            k = A[i].k
            l, h = self.fiv(A[1 - i])
            xs = sorted((l * k, h * k))
            return self.round(x, n1 * n2, 1, e1 + e2, xs[0], xs[1])
        if op == 'fdiv':
            if A[1].op != 'fc' or A[1].k == 0:
                raise Unsupported('float division by a variable')
            n, e = a[0]
            k = A[1].k
            num, den = k.numerator, k.denominator
            if num < 0:
                num, den = -num, -den
            z = (num & -num).bit_length() - 1
            num >>= z
            e -= z
            l, h = self.fiv(A[0])
            xs = sorted((l / k, h / k))
            return self.round(x, n * den, num, e, xs[0], xs[1])
        if op == 'fneg':
            return -a[0][0], a[0][1]
        if op == 'fabs':
            n, e = a[0]
            return z3.If(n >= 0, n, -n), e
        if op == 'fpcast':
            n, e = a[0]
            if t.PREC[x.w] >= t.PREC[A[0].w]:
                return n, e
            l, h = self.fiv(A[0])
            return self.round(x, n, 1, e, l, h)
        if op in t.FINT:
            n, e = a[0]
            if e >= 0:
                return n, e
            d = 1 << -e
            lo, hi = self.fiv(A[0])
            if op == 'ftrunc':
                return self.tdivmod(A[0], n, d, -1 if lo < 0 else 0, 1)[0], 0
            if op == 'ffloor':
                return self.divmod_floor(n, ('ff', A[0].id), d)[0], 0
            if op == 'fceil':
                return -self.divmod_floor(-n, ('fcl', A[0].id), d)[0], 0
            if op == 'frint':
                return self.rne_div(n, d, ('fri', A[0].id)), 0
            if op == 'fround':
                m = z3.If(n >= 0, n, -n)
                q = self.divmod_floor(2 * m + d, ('fro', A[0].id), 2 * d)[0]
                return z3.If(n >= 0, q, -q), 0
        raise Unsupported(op)


class BVLowering:
    """bit-precise encoding, the fallback for shapes the integer encoding rejects"""

    def __init__(self):
        self.memo = {}
        self.side = []

    def bool(self, root):
        st = [root]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = self.one(x)
            st.pop()
        return memo[root.id]

    SORT = {'d': z3.Float64(), 'f': z3.Float32(), 'x': z3.FPSort(15, 64), 'q': z3.Float128()}

    def one(self, x):
        op, w = x.op, x.w
        a = [self.memo[y.id] for y in x.args]
        A = x.args
        R = z3.RNE()
        if not isinstance(w, int):
            S = self.SORT[w]
            if op == 'fc':
                return z3.fpRealToFP(R, z3.RealVal('%d/%d' % (x.k.numerator, x.k.denominator)), S)
            if op == 'fspec':
                return {'inf': z3.fpPlusInfinity(S), '-inf': z3.fpMinusInfinity(S), 'nan': z3.fpNaN(S)}[x.k]
            if op == 'ite':
                return z3.If(a[0], a[1], a[2])
            if op == 'sitofp':
                return z3.fpSignedToFP(R, a[0], S)
            if op == 'uitofp':
                return z3.fpUnsignedToFP(R, a[0], S)
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](R, a[0], a[1])
            if op == 'fneg':
                return z3.fpNeg(a[0])
            if op == 'fabs':
                return z3.fpAbs(a[0])
            if op == 'fpcast':
                return z3.fpFPToFP(R, a[0], S)
            m = {'ftrunc': z3.RTZ(), 'ffloor': z3.RTN(), 'fceil': z3.RTP(), 'frint': z3.RNE(), 'fround': z3.RNA()}
            if op in m:
                return z3.fpRoundToIntegral(m[op], a[0])
            raise Unsupported(op)
        if op == 'c':
            return z3.BoolVal(bool(x.k)) if w == 1 else z3.BitVecVal(x.k, w)
        if op == 'var':
            if w == 1:
                return z3.Bool(x.k)
            v = z3.BitVec(x.k, w)
            if x.lo > t.imin(w):
                self.side.append(v >= z3.BitVecVal(x.lo, w))
            if x.hi < t.imax(w):
                self.side.append(v <= z3.BitVecVal(x.hi, w))
            return v
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'xor1':
            return z3.Xor(a[0], a[1])
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'eq':
            return a[0] == a[1]
        if op == 'slt':
            return a[0] < a[1]
        if op == 'sle':
            return a[0] <= a[1]
        if op == 'ult':
            return z3.ULT(a[0], a[1])
        if op == 'ule':
            return z3.ULE(a[0], a[1])
        if op == 'zext':
            return z3.If(a[0], z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if A[0].w == 1 else z3.ZeroExt(w - A[0].w, a[0])
        if op == 'sext':
            return z3.SignExt(w - A[0].w, a[0])
        if op == 'trunc':
            return z3.Extract(w - 1, 0, a[0])
        if op == 'cat':
            return z3.Concat(*reversed(a))
        if op == 'fcmp':
            return {'oeq': z3.fpEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ}[x.k](a[0], a[1])
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(w))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(w))
        f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q,
             'sdiv': lambda p, q: p / q, 'srem': z3.SRem, 'udiv': z3.UDiv, 'urem': z3.URem,
             'and_': lambda p, q: p & q, 'or_': lambda p, q: p | q, 'xor_': lambda p, q: p ^ q,
             'shl': lambda p, q: p << q, 'lshr': z3.LShR, 'ashr': lambda p, q: p >> q}.get(op)
        if f is None:
            raise Unsupported(op)
        return f(a[0], a[1])


def to_int(v):
    if v is None:
        return None
    if z3.is_bv_value(v):
        return t.sx(v.as_long(), v.size())
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return None


class Result:
    __slots__ = ('status', 'model', 'time', 'mode', 'smt2', 'by', 'nl')

    def __init__(self, status, model=None, time=0.0, mode='int', smt2=None, by=None):
        self.status, self.model, self.time, self.mode, self.smt2, self.by = status, model, time, mode, smt2, by
        self.nl = False


PROCS = (
    ('cvc5', ['cvc5', '--lang=smt2', '--produce-models', '--seed=1']),
    ('z3', ['z3', '-smt2', 'smt.arith.solver=2', 'smt.random_seed=1']),
    ('z3', ['z3-new', '-smt2', 'smt.random_seed=1']),
)


def parse_value(x):
    x = x.strip()
    if x in ('true', 'false'):
        return int(x == 'true')
    if x.startswith('#x'):
        return int(x[2:], 16)
    if x.startswith('#b'):
        return int(x[2:], 2)
    m = re.fullmatch(r'\(-\s*(\d+)\)', x)
    if m:
        return -int(m.group(1))
    m = re.fullmatch(r'\(_ bv(\d+) \d+\)', x)
    if m:
        return int(m.group(1))
    return int(x)


def race(smt2, names, timeout, accept):
    """first definite answer of the solver processes; any '(error' line, and a model `accept` turns down, counts as no answer"""
    import subprocess
    import tempfile
    import time
    txt = smt2
    if names:
        txt += ''.join('(get-value (|%s|))\n' % n for n in names)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n(set-option :produce-models true)\n' + txt)
        path = f.name
    ps = []
    try:
        for nm, cmd in PROCS:
            out = tempfile.TemporaryFile('w+')
            ps.append((nm, subprocess.Popen(cmd + [path], stdout=out, stderr=subprocess.DEVNULL, preexec_fn=_limit), out))
        end = time.time() + timeout
        live = list(ps)
        nap = 0.004
        while live and time.time() < end:
            for x in list(live):
                nm, p, out = x
                if p.poll() is None:
                    continue
                live.remove(x)
                out.seek(0)
                o = out.read()
                lines = o.split('\n', 1)
                first = lines[0].strip()
                if first == 'unsat':
                    return 'unsat', None, nm
                if first == 'sat' and '(error' not in o:
                    vals = {}
                    for mm in re.finditer(r'\(\(\|?([^\s|]+)\|? (\(- \d+\)|\(_ bv\d+ \d+\)|[^\s()]+)\)\)', lines[1] if len(lines) > 1 else ''):
                        vals[mm.group(1)] = parse_value(mm.group(2))
                    vals = accept(vals)
                    if vals is not None:
                        return 'sat', vals, nm
            time.sleep(nap)
            nap = min(nap * 1.5, 0.1)
        return 'unknown', None, None
    finally:
        for nm, p, out in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            out.close()
        os.unlink(path)


def _limit():
    import resource
    import ctypes
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        ctypes.CDLL('libc.so.6').prctl(1, 9)     # end with the worker
    except OSError:
        pass


def solve(formula, vars, timeout_ms=60000, mode='int', want_smt2=False, seed=1):
    ctx = IntLowering() if mode == 'int' else BVLowering()
    r = _solve(ctx, formula, vars, timeout_ms, mode, want_smt2, seed)
    r.nl = getattr(ctx, 'nl', False)
    return r


def _solve(ctx, formula, vars, timeout_ms, mode, want_smt2, seed):
    """satisfiability of a Bool term; vars: name -> term (to read the model)"""
    import time
    t0 = time.time()
    if formula is t.FALSE:
        return Result('unsat', time=0.0, mode='const')
    e = ctx.bool(formula)
    s = z3.Solver()
    s.set('timeout', int(min(timeout_ms, 300)))
    s.set('random_seed', seed)
    if mode == 'int':
        s.set('arith.solver', 2)
    s.add(e)
    for c in ctx.side:
        s.add(c)
    r = s.check()
    by = 'z3'

    def fix(n, v, k):
        if v.lo is not None and k is not None and v.w > 1:
            if mode != 'int':
                k = t.sx(k, v.w)
            k = min(max(k, v.lo), v.hi)
        return k

    def holds(m):
        """a model is believed only if the formula evaluates to true under it (solvers do return wrong models)"""
        if not vars:
            return True
        try:
            if t.evaluate([formula], m)[0]:
                return True
        except (NotImplementedError, TypeError):
            return True
        ctx.nl = True           # so that the bit-vector encoding gets its turn
        return False

    if r == z3.sat:
        m = s.model()
        out = {}
        for n, v in vars.items():
            z = (z3.Bool(n) if v.w == 1 else z3.Int(n)) if mode == 'int' else (z3.Bool(n) if v.w == 1 else z3.BitVec(n, v.w))
            k = to_int(m.eval(z, model_completion=True))
            out[n] = fix(n, v, k)
        if holds(out):
            return Result('sat', out, time.time() - t0, mode, s.to_smt2() if want_smt2 else None, by)
        r = z3.unknown
    if r == z3.unknown and timeout_ms > 300:
        smt2 = s.to_smt2()
        declared = [n for n in vars if re.search(r'\(declare-fun \|?%s\|? ' % re.escape(n), smt2)]

        def accept(vals):
            out = {}
            for n, v in vars.items():
                k = vals.get(n)
                if k is None:
                    if n in declared:
                        return None
                    k = v.lo if v.lo is not None else 0
                out[n] = fix(n, v, k)
            return out if holds(out) else None
        st, out, by = race(smt2, declared, (timeout_ms - 300) / 1000.0, accept)
        dt = time.time() - t0
        if st == 'sat':
            return Result('sat', out, dt, mode, smt2, by)
        return Result(st, None, dt, mode, smt2 if want_smt2 else None, by)
    smt2 = s.to_smt2() if want_smt2 else None
    dt = time.time() - t0
    if r == z3.unsat:
        return Result('unsat', None, dt, mode, smt2, by)
    return Result('unknown', None, dt, mode, smt2, by)
