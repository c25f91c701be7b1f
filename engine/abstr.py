"""Cone abstraction: a linear combination of inputs that every path from the formula to those inputs goes through
(typically a decimal number assembled from its digits) is replaced by one fresh variable with the interval of the
combination.  The result over-approximates the formula: unsat carries over; sat is decided on the original."""
import terms as t

AFF = ('add', 'sub', 'mul', 'sext', 'zext', 'trunc')


def affine(n, aff):
    if n.op == 'var':
        return n.w != 1 and n.lo is not None
    if n.op == 'c':
        return n.w != 1
    if n.w == 1 or not isinstance(n.w, int) or n.op not in AFF or n.lo is None:
        return False
    if n.op in ('add', 'sub'):
        a, b = n.args
        if not (aff[a.id] and aff[b.id]):
            return False
        lo, hi = (a.lo + b.lo, a.hi + b.hi) if n.op == 'add' else (a.lo - b.hi, a.hi - b.lo)
        return t.imin(n.w) <= lo and hi <= t.imax(n.w)
    if n.op == 'mul':
        a, b = n.args
        if not (aff[a.id] and aff[b.id]) or not (t.isc(a) or t.isc(b)):
            return False
        ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return t.imin(n.w) <= min(ps) and max(ps) <= t.imax(n.w)
    if n.op == 'sext':
        return aff[n.args[0].id]
    if n.op == 'zext':
        return aff[n.args[0].id] and n.args[0].lo >= 0
    a = n.args[0]
    return aff[a.id] and t.imin(n.w) <= a.lo and a.hi <= t.imax(n.w)


def order(root):
    out, seen, st = [], set(), [(root, False)]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if a.id not in seen:
                st.append((a, False))
    return out          # children before parents


def abstract(root):
    """(formula, number of abstracted combinations)"""
    post = order(root)
    topo = post[::-1]
    rank = {n.id: i for i, n in enumerate(topo)}
    idom = {root.id: root}
    preds = {}
    for n in topo:
        for a in n.args:
            preds.setdefault(a.id, []).append(n)

    def meet(a, b):
        while a is not b:
            if rank[a.id] > rank[b.id]:
                a = idom[a.id]
            else:
                b = idom[b.id]
        return a
    for n in topo[1:]:
        d = None
        for p in preds[n.id]:
            d = p if d is None else meet(d, p)
        idom[n.id] = d
    aff, nv = {}, {}
    for n in post:
        aff[n.id] = affine(n, aff)
        if n.op == 'var':
            nv[n.id] = frozenset((n.id,))
        elif aff[n.id]:
            nv[n.id] = frozenset().union(*[nv.get(a.id, frozenset()) for a in n.args])
    byid = {n.id: n for n in post}
    cand = {}
    for n in post:
        if n.op != 'var' or not aff[n.id]:
            continue
        best, x = None, n
        while x is not root:
            x = idom[x.id]
            if aff[x.id] and len(nv[x.id]) >= 2:
                best = x
        if best is not None:
            cand[best.id] = best
    good = {}
    for i, n in cand.items():
        ok = True
        for v in nv[i]:
            x = byid[v]
            while x is not root and x is not n:
                x = idom[x.id]
            if x is not n:
                ok = False
                break
        if ok:
            good[i] = n
    if not good:
        return root, 0
    new = {}
    for n in post:
        if n.id in good:
            new[n.id] = t.mk('var', n.w, (), 'cone.%d' % n.id, n.lo, n.hi)
        elif n.args:
            args = tuple(new[a.id] for a in n.args)
            new[n.id] = n if all(x is y for x, y in zip(args, n.args)) else t.mk(n.op, n.w, args, n.k, n.lo, n.hi)
        else:
            new[n.id] = n
    return new[root.id], len(good)
