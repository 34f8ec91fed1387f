"""Guard facts: what the branch outcomes of a path establish, in a canonical vocabulary.

A path's branch log is turned into order/equality literals over provenance terms and into
quantified literals over the elements of a collection (`any`, `all`, `filter().count()`,
`for` loops and counted loops all normalise to ALL / EXISTS).  Deciding is literal matching plus
transitivity of < and = -- no solver."""
from common import *
from flow import LAM_LEVEL, shift_levels, subst, index_term, T, mk, INT, BOOL, TRUE, FALSE

ITEM = mk('sym', 'ITEM')
LOOPITEM = None


# ---- canonical literals ---------------------------------------------------
def lits(t, val=True):
    """boolean term -> (atom, value) or None when it is a compound; is_empty and constants folded"""
    while t.op == 'not':
        t, val = t.a[0], not val
    if t.op == 'bool':
        return (TRUE, t.a[0] == val)
    t = strip_phi_once(t)
    if t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty' and len(cargs(t)) == 1:
        return (mk('bin', 'Eq', INT(0), lenof(cargs(t)[0])), val)
    if t.op == 'bin' and t.a[0] == 'Lt':
        a, b = t.a[1], t.a[2]
        if a.op == 'int' and a.a[0] == 0 and is_len(b):
            return (mk('bin', 'Eq', INT(0), b), not val)
        if b.op == 'int' and b.a[0] == 1 and is_len(a):
            return (mk('bin', 'Eq', INT(0), a), val)
        # x < y+1  ==  not (y < x)
        if b.op == 'bin' and b.a[0] == 'Add' and INT(1) in b.a[1:]:
            y = b.a[2] if b.a[1] is INT(1) else b.a[1]
            return (mk('bin', 'Lt', y, a), not val)
    if t.op == 'bin' and t.a[0] == 'Eq':
        a, b = simp(t.a[1]), simp(t.a[2])
        # y+1 == x  -> y == x-1
        for x, y in ((a, b), (b, a)):
            if x.op == 'bin' and x.a[0] == 'Add' and INT(1) in x.a[1:]:
                z = x.a[2] if x.a[1] is INT(1) else x.a[1]
                if y.op != 'int':
                    a, b = z, simp(mk('bin', 'Sub', y, INT(1)))
                break
        if b < a:
            a, b = b, a
        return (mk('bin', 'Eq', a, b), val)
    return (t, val)


def simp(t):
    """(x + 1) - 1 -> x"""
    if t.op == 'bin' and t.a[0] == 'Sub' and t.a[2].op == 'int' and t.a[1].op == 'bin' and t.a[1].a[0] == 'Add':
        x, y = t.a[1].a[1], t.a[1].a[2]
        if x is t.a[2]:
            return y
        if y is t.a[2]:
            return x
    return t


def strip_phi_once(t):
    return t


def is_len(t):
    return t.op == 'call' and t.a[0].split('::')[-1] == 'len'


def lenof(x):
    return mk('call', 'len', None, x)


def dnf(t, val=True, cap=64):
    """boolean term -> list of {atom: bool} alternatives equivalent to t == val"""
    while t.op == 'not':
        t, val = t.a[0], not val
    if t.op == 'bool':
        return [{}] if t.a[0] == val else []
    if t.op == 'bin' and t.a[0] in ('BitOr', 'BitAnd'):
        a, b = t.a[1], t.a[2]
        if (t.a[0] == 'BitOr') == val:
            # disjunction; keep the alternatives disjoint
            out = list(dnf(a, val))
            out += conj(dnf(a, not val), dnf(b, val))
            return out[:cap]
        return conj(dnf(a, val), dnf(b, val))[:cap]
    if t.op == 'bin' and t.a[0] == 'BitXor':
        return (conj(dnf(t.a[1], True), dnf(t.a[2], not val)) + conj(dnf(t.a[1], False), dnf(t.a[2], val)))[:cap]
    a, v = lits(t, val)
    if a is TRUE:
        return [{}] if v else []
    return [{a: v}]


def conj(xs, ys):
    out = []
    for x in xs:
        for y in ys:
            z = dict(x)
            ok = True
            for k, v in y.items():
                if z.get(k, v) != v:
                    ok = False
                    break
                z[k] = v
            if ok:
                out.append(z)
    return out


def lam_dnf(l, item, val):
    """alternatives under which the predicate lam yields val on `item`"""
    out = []
    lv = LAM_LEVEL.get(l)
    for cse in l.a:
        if cse.op != 'case':
            return None
        cs, body = cse.a
        cond = [{}]
        for lt in cs.a:
            c, v = lt.a
            if c.op == 'disc':
                cond = conj(cond, [{mk('is', bind(c.a[0], item, lv), str(v)): True}])
            elif isinstance(v, bool):
                cond = conj(cond, dnf(bind(c, item, lv), v))
            else:
                return None
        if body.op == 'const':
            continue
        out += conj(cond, dnf(bind(body, item, lv), val))
    return out


def bind(t, item, level=None):
    """part of a closure applied to its argument; closures inside move up one level"""
    d = bounds_of(t)
    if not d:
        return t
    lo = min(x.a[0] for x in d) if level is None else level
    m = {x: item for x in d if x.a[0] == lo and x.a[1] == 0}
    if level is None:
        # a predicate captured from outside the closure keeps its own bound variable
        for l in find_terms(t, lambda x: x.op == 'lam'):
            if {x.a[0] for x in bounds_of(l)} == {lo}:
                m[l] = l
        return subst(t, m)
    if not any(x.a[0] == lo and x.a[1] != 0 for x in d):
        m.update({x: mk('bound', x.a[0] - 1, *x.a[1:]) for x in d if x.a[0] > lo})
        return shift_levels(t, m, lo + 1, -1)
    return subst(t, m)


def bounds_of(t):
    return find_terms(t, lambda x: x.op == 'bound')


def iter_src(t, item=ITEM):
    """iterator term -> (collection, element term, [filter alternatives]) or None"""
    t = unphi(t)
    while t.op == 'mut' and t.a[0].endswith('next'):
        t = unphi(t.a[3])
    if t.op == 'iter':
        return t.a[0], item, [{}]
    if t.op in ('map', 'filter', 'rev', 'copied', 'cloned', 'by_ref') or (t.op == 'call' and t.a[0].split('::')[-1] in ('map', 'filter', 'rev', 'copied', 'cloned', 'collect', 'peekable')):
        name = t.op if t.op != 'call' else t.a[0].split('::')[-1]
        args = t.a if t.op != 'call' else cargs(t)
        s = iter_src(args[0], item)
        if s is None:
            return None
        coll, el, filt = s
        if name == 'map':
            l = args[1]
            if l.op != 'lam' or len(l.a) != 1 or l.a[0].a[0].a:
                return None
            return coll, bind(l.a[0].a[1], el, LAM_LEVEL.get(l)), filt
        if name == 'filter':
            alts = lam_dnf(args[1], el, True)
            return (coll, el, conj(filt, alts)) if alts is not None else None
        return s
    return None


class Facts:
    """facts established on one path"""

    def __init__(self):
        self.lit = {}      # atom -> bool
        self.alls = []     # (collection, {atom over ITEM: bool})
        self.exs = []      # (collection, [ {atom over ITEM: bool}, ... ])
        self.disc = {}     # term -> variant

    def copy(self):
        f = Facts()
        f.lit = dict(self.lit)
        f.alls = list(self.alls)
        f.exs = list(self.exs)
        f.disc = dict(self.disc)
        return f

    # ---- order
    def _bounds(self):
        le = {}
        def add(a, b, w):
            # a <= b (w=0) or a < b (w=1)
            k = (a, b)
            if le.get(k, -1) < w:
                le[k] = w
        for t, v in self.lit.items():
            if t.op == 'bin' and t.a[0] == 'Lt':
                if v:
                    add(t.a[1], t.a[2], 1)
                else:
                    add(t.a[2], t.a[1], 0)
            elif t.op == 'bin' and t.a[0] == 'Eq':
                if v:
                    add(t.a[1], t.a[2], 0)
                    add(t.a[2], t.a[1], 0)
                elif t.a[1] is INT(0) and is_len(t.a[2]):
                    add(INT(0), t.a[2], 1)
        return le

    def order(self, a, b):
        """greatest w found with a + w <= b entailed, or None (differences of integer terms)"""
        if a is b:
            return 0
        le = self._bounds()
        nodes = {a, b}
        for x, y in le:
            nodes.add(x)
            nodes.add(y)

        def put(x, y, w):
            if le.get((x, y), -1 << 62) < w:
                le[(x, y)] = w
        for _ in range(3):
            # terms that are built from others
            for n in list(nodes):
                if n.op == 'call' and n.a[0] in ('min', 'Ord::min', 'cmp::min', 'max', 'Ord::max', 'cmp::max'):
                    nodes |= set(cargs(n))
                if n.op == 'bin' and n.a[0] in ('Sub', 'SubUnchecked', 'Add', 'AddUnchecked'):
                    nodes |= set(n.a[1:3])
        ints = [n for n in nodes if n.op == 'int']
        for x in ints:
            for y in ints:
                if x is not y:
                    put(x, y, y.a[0] - x.a[0])
        for n in nodes:
            # min(x,y) <= x,y <= max(x,y)
            if n.op == 'call' and n.a[0] in ('min', 'Ord::min', 'cmp::min'):
                for c in cargs(n):
                    put(n, c, 0)
            if n.op == 'call' and n.a[0] in ('max', 'Ord::max', 'cmp::max'):
                for c in cargs(n):
                    put(c, n, 0)
            # x - k and x + k (no wrap: an overflow panics in the checked build)
            if n.op == 'bin' and n.a[0] in ('Sub', 'SubUnchecked') and n.a[2].op == 'int':
                put(n, n.a[1], n.a[2].a[0])
                put(n.a[1], n, -n.a[2].a[0])
            if n.op == 'bin' and n.a[0] in ('Add', 'AddUnchecked'):
                for x, k in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
                    if k.op == 'int':
                        put(x, n, k.a[0])
                        put(n, x, -k.a[0])
        best = {a: 0}
        changed = True
        n = 0
        while changed and n < 30:
            changed = False
            n += 1
            for (x, y), w in le.items():
                if x in best and best.get(y, -1 << 62) < best[x] + w:
                    best[y] = best[x] + w
                    changed = True
        for m in nodes:
            # a <= min(x,y) if a <= x and a <= y
            if m is b and m.op == 'call' and m.a[0] in ('min', 'Ord::min', 'cmp::min') and all(c in best for c in cargs(m)):
                best[m] = max(best.get(m, -1 << 62), min(best[c] for c in cargs(m)))
        w = best.get(b)
        return w if w is not None and w >= 0 else None

    def lt(self, a, b):
        w = self.order(a, b)
        return w is not None and w >= 1

    def le(self, a, b):
        return self.order(a, b) is not None

    def holds(self, t, val=True):
        a, v = lits(t, val)
        if a is TRUE:
            return v
        if self.lit.get(a) == v:
            return True
        if a.op == 'bin' and a.a[0] == 'Lt':
            return self.lt(a.a[1], a.a[2]) if v else self.le(a.a[2], a.a[1])
        if a.op == 'bin' and a.a[0] == 'Eq' and v:
            return self.le(a.a[1], a.a[2]) and self.le(a.a[2], a.a[1])
        if a.op == 'bin' and a.a[0] == 'Eq' and not v:
            return self.lt(a.a[1], a.a[2]) or self.lt(a.a[2], a.a[1])
        return False

    # ---- quantified
    def all_of(self, coll, atom, val):
        for c, ls in self.alls:
            if same(c, coll):
                f = Facts()
                f.lit = ls
                if f.holds(atom, val):
                    return True
        return False

    def refuted(self, coll, req):
        """some element is known to violate at least one required (atom, value)"""
        for c, alts in self.exs:
            if same(c, coll) and alts and all(any(neg_holds(ls, a, v) for a, v in req) for ls in alts):
                return True
        return False


def neg_holds(ls, a, v):
    f = Facts()
    f.lit = ls
    return f.holds(a, not v)


def add_lit(out, c, v):
    """one branch outcome -> facts; returns a list of alternative Facts"""
    c0, v0 = c, v
    if c.op == 'disc':
        if isinstance(v, str):
            out.disc[c.a[0]] = v
        return [out]
    if not isinstance(v, bool):
        return [out]
    while c.op == 'not':
        c, v = c.a[0], not v
    if c.op == 'call' and c.a[0].split('::')[-1] in ('any', 'all') and len(cargs(c)) == 2 and cargs(c)[1].op == 'lam':
        name = c.a[0].split('::')[-1]
        src = iter_src(cargs(c)[0])
        if src is not None:
            coll, el, filt = src
            want = name == 'any'
            pos = lam_dnf(cargs(c)[1], el, want)       # witness alternatives
            neg = lam_dnf(cargs(c)[1], el, not want)
            if pos is not None and filt == [{}]:
                if v == want:
                    out.exs.append((coll, pos))
                else:
                    for ls in common_lits(neg):
                        out.alls.append((coll, ls))
                return [out]
    # filter(pred).count() == len  <=> all
    if c.op == 'bin' and c.a[0] in ('Eq', 'Lt'):
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if x.op == 'call' and x.a[0].split('::')[-1] == 'count':
                src = iter_src(cargs(x)[0])
                if src and src[2] != [{}] and is_len(y) and same(cargs(y)[0], src[0]):
                    allhold = v if c.a[0] == 'Eq' else (not v)
                    if allhold:
                        for ls in common_lits(src[2]):
                            out.alls.append((src[0], ls))
                    else:
                        out.exs.append((src[0], negate(src[2])))
                    return [out]
                if src and src[2] != [{}] and y is INT(0) and c.a[0] == 'Eq':
                    if v:
                        for ls in common_lits(negate(src[2])):
                            out.alls.append((src[0], ls))
                    else:
                        out.exs.append((src[0], src[2]))
                    return [out]
    alts = dnf(c, v)
    res = []
    for ls in alts:
        if any(out.lit.get(a, w) != w for a, w in ls.items()):
            continue
        f = out.copy() if len(alts) > 1 else out
        f.lit.update(ls)
        res.append(f)
    return res


def negate(alts):
    out = [{}]
    for ls in alts:
        out = conj(out, [{a: not v} for a, v in ls.items()])
    return out


def common_lits(alts):
    """literals common to every alternative (what holds for each element)"""
    if not alts:
        return []
    c = dict(alts[0])
    for ls in alts[1:]:
        c = {a: v for a, v in c.items() if ls.get(a) == v}
    return [c] if c else []


def next_item(c):
    """disc(Iterator::next(iter..)) -> (collection, item term)"""
    if c.op == 'disc' and is_call(c.a[0], 'Iterator::next', 'next', 'Iterator::next_back', 'DoubleEndedIterator::next_back'):
        it = cargs(c.a[0])[0]
        src = iter_src(it)
        if src is not None:
            return src, mk('fld', c.a[0], 'Some.0')
    return None


def counted(c):
    """(phi<i=0> < len(X)) -> (X, i)"""
    if c.op == 'bin' and c.a[0] == 'Lt' and c.a[1].op == 'phi' and c.a[1].a[2] is INT(0) and is_len(c.a[2]):
        return cargs(c.a[2])[0], c.a[1]
    return None


def item_terms(t, coll, idx):
    """elements of coll selected by the loop counter idx"""
    return find_terms(t, lambda x: x.op == 'fld' and same(x.a[0], coll) and index_term(x.a[1]) is not None and strip_phi(index_term(x.a[1])) is strip_phi(idx))


def advances(p, c):
    """does the loop round p advance the iteration that guard c belongs to"""
    n = next_item(c)
    if n:
        it = strip_phi(cargs(c.a[0])[0])
        for k, v in (p.updates or {}).items():
            if v.op == 'mut' and v.a[0].split('::')[-1] in ('next', 'next_back') and strip_phi(v.a[3]) is it:
                return True
        return False
    k = counted(c)
    if k:
        return any(contains(v, k[1]) for v in (p.updates or {}).values())
    return False


def loop_alls(c, paths):
    """what every completed round of the loop guarded by c established about its element"""
    alts = []
    for p in paths:
        if p.outcome != 'loop' or not any(cc is c and v in ('Some', True) for cc, v in p.clog) or not advances(p, c):
            continue
        ls = elem_lits(p, c)
        if ls is None:
            return None
        alts.append(ls)
    return alts


def elem_lits(p, c):
    """literals about the current element on path p (loop guard c), over ITEM"""
    n = next_item(c)
    k = counted(c)
    ls = {}
    seen = False
    for cc, v in p.clog:
        if cc is c:
            seen = True
            continue
        if not seen or not isinstance(v, bool):
            continue
        if n:
            (coll, el, filt), it = n
            if not contains(cc, it):
                continue
            cc2 = subst(cc, {it: el})
        else:
            coll, idx = k
            its = item_terms(cc, coll, idx)
            if not its:
                continue
            cc2 = subst(cc, {x: ITEM for x in its})
        d = dnf(cc2, v)
        if len(d) != 1:
            continue
        ls.update(d[0])
    if n:
        for ls2 in n[0][2][:1] if len(n[0][2]) == 1 else []:
            ls.update(ls2)
    return ls


def path_facts(p, paths, upto=None):
    """alternative Facts of one path (several when a disjunction was assumed)"""
    cur = [Facts()]
    for c, v in (p.clog if upto is None else p.clog[:upto]):
        nxt = []
        n = next_item(c)
        k = counted(c) if isinstance(v, bool) else None
        for f in cur:
            if n and (v == 'None' or (isinstance(v, frozenset) and 'Some' in v)):
                al = loop_alls(c, paths)
                f.disc[c.a[0]] = 'None'
                if al:
                    filt = n[0][2]
                    if filt == [{}]:
                        for ls in common_lits(al):
                            f.alls.append((n[0][0], ls))
                nxt.append(f)
            elif n and v == 'Some':
                f.disc[c.a[0]] = 'Some'
                ls = elem_lits(p, c)
                if p.outcome != 'loop' and ls:
                    f.exs.append((n[0][0], [ls]))
                nxt.append(f)
            elif k and v is False:
                al = loop_alls(c, paths)
                if al:
                    for ls in common_lits(al):
                        f.alls.append((k[0], ls))
                nxt += add_lit(f, c, v)
            elif k and v is True:
                ls = elem_lits(p, c)
                if p.outcome != 'loop' and ls:
                    f.exs.append((k[0], [ls]))
                nxt += add_lit(f, c, v)
            else:
                nxt += add_lit(f, c, v)
        cur = nxt
    return cur


def bool_rows(p, paths, ret=None):
    """(Facts, bool) rows of a path returning a boolean term"""
    ret = p.ret if ret is None else ret
    out = []
    for f in path_facts(p, paths):
        for val in (True, False):
            for ls in dnf(ret, val):
                g = f.copy()
                if any(g.lit.get(a, w) != w for a, w in ls.items()):
                    continue
                bad = False
                for a, w in ls.items():
                    r = add_lit(g, a, w)
                    if not r:
                        bad = True
                        break
                    g = r[0]
                if not bad:
                    out.append((g, val))
    return out


def same(a, b):
    """the same collection (an in-loop view of an unmodified one included)"""
    return a is b or (strip_phi(a) is strip_phi(b) and origin(a).op != 'call')


# ---- reductions -------------------------------------------------------------
def reduction(t, paths):
    """term -> (kind, collection, element term over ITEM) for sum/max/min/collect/len spelled with
    iterator adaptors, fold, or an accumulating loop"""
    if t.op == 'fld' and t.a[1] in ('Some.0', 'Ok.0'):
        r = reduction(t.a[0], paths)
        return r if r and r[0] in ('max', 'min') else None
    if t.op == 'call':
        n = t.a[0].split('::')[-1]
        a = cargs(t)
        if n in ('sum', 'max', 'min', 'collect') and len(a) == 1:
            src = iter_src(a[0])
            if src and src[2] == [{}]:
                if n == 'collect' and src[1] is ITEM and src[0].op == 'phi':
                    # from a list that was filled before
                    r = reduction(src[0], paths)
                    if r and r[0] == 'collect':
                        return r
                return n, src[0], src[1]
        if n in ('unwrap_or', 'unwrap_or_default') and a:
            return reduction(a[0], paths)
        if n == 'fold' and len(a) == 3 and a[2].op == 'lam' and len(a[2].a) == 1:
            src = iter_src(a[0])
            body = a[2].a[0].a[1]
            acc = [x for x in find_terms(body, lambda x: x.op == 'bound' and x.a[1] == 0)]
            el = [x for x in find_terms(body, lambda x: x.op == 'bound' and x.a[1] == 1)]
            if src and src[2] == [{}] and acc and el:
                b = subst(body, {el[0]: src[1]})
                return step(b, acc[0], a[1], src[0])
    if t.op == 'phi':
        ups = []
        for p in paths:
            if p.outcome != 'loop':
                continue
            for k, v in (p.updates or {}).items():
                if contains(v, t):
                    ups.append((p, v))
        # a round that leaves the value as it is: not every element is taken in
        took = {id(p) for p, v in ups}
        for p in paths:
            if p.outcome == 'loop' and p.loopkey is not None and p.loopkey[1:] == t.a[0][1:] and id(p) not in took \
               and not any(find_terms(v, lambda y: y.op == 'phi' and y.a[0][1:] == t.a[0][1:] and tuple(y.a[1]) == tuple(t.a[1]) and y is not t) for v in (p.updates or {}).values()):
                return None
        for p, v in ups:
            for c, o in p.clog:
                n = next_item(c)
                if n and o == 'Some':
                    (coll, el, filt), it = n
                    if contains(v, it) and filt == [{}]:
                        others = [w for q, w in ups if w is not v]
                        if not others:
                            return step(subst(v, {it: el}), t, t.a[2], coll)
                k = counted(c) if o is True else None
                if k:
                    its = item_terms(v, k[0], k[1])
                    if its and not [w for q, w in ups if w is not v]:
                        return step(subst(v, {x: ITEM for x in its}), t, t.a[2], k[0])
    return None


FROM = []


def sum_from(t, paths):
    """init + sum(coll, element) as one accumulation -> (('sum', coll, element), init)"""
    if t.op == 'phi':
        init = t.a[2]
    elif t.op == 'call' and t.a[0].split('::')[-1] == 'fold' and len(cargs(t)) == 3:
        init = cargs(t)[1]
    else:
        return None
    FROM.append(1)
    try:
        r = reduction(t, paths)
    finally:
        FROM.pop()
    return (r, init) if r and r[0] == 'sum' else None


def step(v, acc, init, coll):
    if v.op == 'bin' and v.a[0] == 'Add' and (init is INT(0) or FROM):
        o = v.a[2] if v.a[1] is acc else v.a[1] if v.a[2] is acc else None
        if o is not None and not contains(o, acc):
            return 'sum', coll, o
    if v.op == 'call' and v.a[0].split('::')[-1] in ('max', 'min'):
        o = [x for x in cargs(v) if x is not acc]
        if len(o) == 1 and len(cargs(v)) == 2:
            return v.a[0].split('::')[-1], coll, o[0]
    if v.op == 'mut' and v.a[0].split('::')[-1] in ('push', 'push_back') and v.a[3] is acc and len(v.a) == 5:
        return 'collect', coll, v.a[4]
    return None


def acc_of(t):
    """ITEM accessor name: Index::count(ITEM) -> 'count'"""
    if t.op == 'call' and len(cargs(t)) == 1 and cargs(t)[0] is ITEM:
        return t.a[0].split('::')[-1]
    return None
