"""P20: the elements of a chunk and of a block: offset, key and value of the same position."""
import re
from common import *
from facts import *
from write import short, param
from append import ret_ty, phi_updates
from traverse import lin, diff, elem, uncast
from readers import seq_fns, errs, block_of, counted_rest
import flow

POS = mk('sym', 'POS')


def is_get(t, c):
    return t is not None and t.op == 'call' and t.a[0].split('::')[-1] == 'get' and len(cargs(t)) == 2 and cargs(t)[0] is c and cargs(t)[1] is POS


def at(c):
    return mk('elt', c)


def sget(c):
    return mk('call', 'CompactSeq::get', None, c, POS)


def vget(b):
    return mk('call', 'ZstdDagCborSeq::get', None, b, POS)


def norm(t):
    """fields of aggregates resolved, unwraps of element accessors dropped, list[POS] -> element"""
    m = {}
    for _ in range(60):
        new = t
        for x in find_terms(t, lambda x: x.op == 'elemat' and x.a[1] is POS):
            new = subst(new, {x: at(x.a[0])})
        for x in find_terms(new, lambda x: x.op == 'fld'):
            if x.a[0].op == 'agg':
                v = agg_get(x.a[0], x.a[1])
                if v is not None:
                    new = subst(new, {x: v})
                    break
            e = elem(x)
            if e and e[1] is POS:
                new = subst(new, {x: at(e[0])})
                break
            if x.a[1] == 'Some.0' and x.a[0].op == 'call' and x.a[0].a[0].split('::')[-1] == 'get' and x.a[0].a[-1] is POS:
                y = x.a[0]
                if y.a[0] == 'CompactSeq::get':
                    new = subst(new, {x: mk('some', y)})
                elif cargs(y):
                    new = subst(new, {x: at(cargs(y)[0])})
                break
        for x in find_terms(new, lambda x: x.op in ('cast',) ):
            new = subst(new, {x: uncast(x)})
        if new is t:
            return t
        t = new
    return t


def value(t):
    t = norm(t)
    m = {x: x.a[0] for x in find_terms(t, lambda x: x.op == 'some')}
    return norm(subst(t, m))


class Rows:
    """what a list or iterator yields: positions 0.. (all) or those with a true bit (sel), in ascending order, and the
    element at position POS"""
    def __init__(self, kind, mask, el, ends):
        self.kind, self.mask, self.el, self.ends = kind, mask, el, ends


def pre(t):
    """make the index of list[i] visible to substitution"""
    m = {x: mk('elemat', *elem(x)) for x in find_terms(t, lambda x: x.op == 'fld' and elem(x) is not None)}
    return subst(t, m)


def lam1(l, item):
    """the function body applied to an item -> [(conditions, result)]"""
    if l.op != 'lam':
        if l.op == 'const':
            return [([], mk('call', l.a[0], None, item))]
        return None
    out = []
    lv = flow.LAM_LEVEL.get(l)
    for cse in l.a:
        if cse.op != 'case':
            return None
        cs, body = cse.a
        if body.op == 'const' and body.a[0] in ('panic', 'loop'):
            if body.a[0] == 'loop':
                return None
            continue
        out.append(([(value(bind(pre(lt.a[0]), item, lv)), lt.a[1]) for lt in cs.a], value(bind(pre(body), item, lv))))
    return out


def known(conds, c):
    """condition that an element of an accessor exists, which holds for positions in range"""
    t, v = c
    return t.op == 'disc' and t.a[0].op == 'call' and t.a[0].a[0] == 'CompactSeq::get' and v == 'Some'


def stripped(t):
    t = flow.erase(t)
    while t.op == 'iter' or t.op == 'phi' and not fresh_list(t) or t.op == 'call' and t.a[0].split('::')[-1] in ('iter', 'into_iter', 'cloned', 'copied') and len(cargs(t)) == 1:
        t = t.a[2] if t.op == 'phi' else t.a[0] if t.op == 'iter' else cargs(t)[0]
    return t


def looped(t, ps):
    """the next() that drives the loop of a phi, and the rounds of that loop"""
    rounds = [q for q in ps if q.outcome == 'loop' and q.loopkey is not None and q.loopkey[1:] == t.a[0][1:]]
    nxs = set()
    for q in rounds:
        mine = {c.a[0] for c, v in q.clog if c.op == 'disc' and v == 'Some' and is_named(c.a[0], 'next')}
        drv = set()
        for k, v in (q.updates or {}).items():
            if v.op == 'mut' and v.a[0].split('::')[-1] == 'next' and v.a[3].op == 'phi' and v.a[3].a[0][1:] == t.a[0][1:]:
                drv |= {n for n in mine if n.a[1] == v.a[1]}
        nxs.add(drv.pop() if len(drv) == 1 else None)
    return (nxs.pop(), rounds) if len(nxs) == 1 and None not in nxs else (None, rounds)


def unloop(t, q, ps, used=None):
    """lists and sets filled item by item in a loop, as collect(map(items, f))"""
    out = {}
    items = find_terms(t, lambda x: is_named(x, 'next'))
    for ph in find_terms(t, lambda x: x.op == 'phi' and fresh_list(x)):
        if any(contains(x, ph) for x in items):
            continue
        nx, rounds = looped(ph, ps)
        ups = phi_updates(ph, ps)
        if nx is None or len(ups) != len(rounds) or len(ups) != 1:
            continue
        if not any(c.op == 'disc' and c.a[0] is nx and v == 'None' for c, v in q.clog):
            continue
        r, u = ups[0]
        if u.op != 'mut' or u.a[0].split('::')[-1] not in ('insert', 'push') or len(u.a) != 5 or flow.erase(u.a[3]) is not ph:
            continue
        k = [i for i, (c, v) in enumerate(r.clog) if c.op == 'disc' and c.a[0] is nx][0]
        it = mk('fld', nx, 'Some.0')
        if not all(c.op == 'disc' and is_named(c.a[0], 'binary_search', 'get') and v in ('Ok', 'Some') for c, v in r.clog[k + 1:]):
            continue
        body = pre(u.a[4])
        if find_terms(body, lambda x: x.op in ('lam', 'bound')):
            continue
        m = {it: mk('bound', 0, 0)}
        if used is not None:
            used.add(nx)
        out[ph] = mk('call', 'collect', None, mk('map', mk('iter', stripped(cargs(nx)[0])), mk('lam', mk('case', mk('conds'), subst(body, m)))))
    return subst(t, out) if out else t


def loop_rows(t, p, ps):
    """a list filled by pushing in a loop that has run to its end"""
    lst = t
    ends = [c.a[0] for c, v in p.clog if c.op == 'disc' and v == 'None' and is_named(c.a[0], 'next')]
    ups = phi_updates(lst, ps)
    for nx in ends:
        rounds_ = [q for q in ps if q.outcome == 'loop' and q.loopkey is not None and q.loopkey[1:] == lst.a[0][1:] and any(c.op == 'disc' and c.a[0] is nx and v == 'Some' for c, v in q.clog)]
        if not rounds_ or not all(any(q is r for r in rounds_) for q, _ in ups):
            continue
        src = rows(cargs(nx)[0], p, ps)
        if not src or src.kind != 'all':
            continue
        it = mk('fld', nx, 'Some.0')
        els, masks, skips = set(), set(), False
        for q in rounds_:
            m = {it: src.el}
            for c, v in q.clog:
                pass
            terms = [c for c, v in q.clog] + [u for r, u in ups if r is q]
            for x in [x for y in terms for x in find_terms(y, lambda x: x.op in ('idx', 'zipitem'))]:
                if x.op == 'idx' and x.a[0] is it:
                    m[x] = POS
                elif x.op == 'zipitem' and x.a[1] is mk('idx', it):
                    o = rows(x.a[0], p, ps)
                    if o is None or o.kind != 'all':
                        return None
                    m[x] = o.el
            f = lambda y: value(subst(pre2(y, m), m))
            dead = False
            push = [u for r, u in ups if r is q]
            base, new = pushed(push[0]) if push else (lst, [])
            inner = set()
            if new:
                new = [unloop(x, q, ps, inner) for x in new]
            bits = []
            k = [i for i, (c, v) in enumerate(q.clog) if c.op == 'disc' and c.a[0] is nx][0]
            for c, v in q.clog[k + 1:]:
                if c.op == 'disc' and c.a[0] in inner:
                    continue
                if c.op == 'filtered':
                    cs = lam1(c.a[0], f(c.a[1]))
                    if cs is None:
                        return None
                    ls = [(b, True) for cc, b in cs if not cc and b not in (TRUE, FALSE)] + [x for cc, b in cs if b is TRUE for x in cc]
                    bs = [selbit(a, w, True) for a, w in ls]
                    if len(bs) != 1 or bs[0] is None:
                        return None
                    bits.append((bs[0], True))
                    continue
                c2 = f(c)
                if c2.op == 'disc' and is_named(c2.a[0], 'get') and c2.a[0].a[-1] is POS:
                    dead = dead or v == 'None'
                    continue
                if isinstance(v, bool):
                    for w in (True, False):
                        b = selbit(c2, v, w)
                        if b is not None:
                            bits.append((b, w))
                            break
                    else:
                        return None
                elif c2.op == 'disc':
                    return None
            if dead:
                continue
            if base is not lst or len(new) > 1 or len(set(bits)) > 1:
                return None
            bit = bits[0] if bits else None
            if new:
                els.add(f(new[0]))
                if bit is None or bit[1] is True:
                    masks.add(bit and bit[0])
                else:
                    return None
            elif bit is not None and bit[1] is False:
                skips = True
                masks.add(bit[0])
            else:
                return None
        if len(els) != 1 or len(masks) != 1:
            continue
        mask = masks.pop()
        if mask is not None and not skips and not any(c.op == 'filtered' for q in rounds_ for c, v in q.clog):
            continue
        el, ends_ = els.pop(), src.ends
        # what is zipped with the items that are taken: it has to be the same selection
        while True:
            zs = [z for z in find_terms(el, lambda x: x.op == 'zipitem' and x.a[1].op == 'idx' and contains(x.a[1], POS))]
            zs = [z for z in zs if not find_terms(z.a[1], lambda x: x.op == 'zipitem')]
            if not zs:
                break
            o = rows(zs[0].a[0], p, ps)
            if o is None or (o.kind, o.mask) != ('sel' if mask is not None else 'all', mask):
                return None
            el = subst(el, {zs[0]: o.el})
            ends_ = ends_ | o.ends
        return Rows('sel' if mask is not None else 'all', mask, el, ends_)
    return None


def pre2(t, m):
    """like pre, for indexes that are loop items"""
    r = {x: mk('elemat', *elem(x)) for x in find_terms(t, lambda x: x.op == 'fld' and elem(x) is not None)}
    return subst(t, r)


def rows(t, p=None, ps=()):
    while t.op == 'phi' and not fresh_list(t) or t.op == 'mut' and t.a[0].split('::')[-1] in ('next', 'next_back'):
        t = t.a[2] if t.op == 'phi' else t.a[3]
    if t.op == 'phi':
        return loop_rows(t, p, ps) if p is not None else None
    if t.op in ('iter', 'collect') and isinstance(t.a[0], T):
        return rows(t.a[0], p, ps)
    if t.op == 'take':
        r = rows(t.a[0], p, ps)
        return r and r.kind == 'all' and Rows('all', None, r.el, r.ends | {t.a[1]}) or None
    if t.op == 'call' and t.a[0].split('::')[-1] in ('iter', 'into_iter', 'cloned', 'copied', 'collect') and len(cargs(t)) == 1:
        return rows(cargs(t)[0], p, ps)
    if t.op == 'call' and t.a[0] == 'CompactSeq::to_vec':
        return Rows('all', None, sget(cargs(t)[0]), {mk('call', 'CompactSeq::len', None, cargs(t)[0])})
    if t.op == 'call' and t.a[0] == 'CompactSeq::select':
        return Rows('sel', cargs(t)[1], sget(cargs(t)[0]), {mk('call', 'CompactSeq::len', None, cargs(t)[0])})
    if t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call' and t.a[0].a[0] == 'ZstdDagCborSeq::select':
        return Rows('sel', cargs(t.a[0])[1], vget(cargs(t.a[0])[0]), set())
    if t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call' and t.a[0].a[0] == 'ZstdDagCborSeq::items':
        return Rows('all', None, vget(cargs(t.a[0])[0]), set())
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Range':
        s, e = agg_get(t, 'start'), agg_get(t, 'end')
        if s is INT(0):
            return Rows('all', None, POS, {e})
        return Rows('all', None, mk('bin', 'Add', POS, s), {mk('bin', 'Sub', e, s)})
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'RangeFrom':
        s = agg_get(t, 'start')
        return Rows('all', None, POS if s is INT(0) else mk('bin', 'Add', POS, s), set())
    if t.op == 'enumerate':
        r = rows(t.a[0], p, ps)
        return r and r.kind == 'all' and Rows('all', None, flow.agg('()', [('0', POS), ('1', r.el)]), r.ends) or None
    if t.op in ('map', 'filter', 'filter_map'):
        r = rows(t.a[0], p, ps)
        if not r:
            return None
        cs = lam1(t.a[1], r.el)
        if cs is None:
            return None
        if t.op == 'map':
            cs = [([c for c in cc if not known(cc, c)], b) for cc, b in cs]
            bodies = {b for cc, b in cs}
            return Rows(r.kind, r.mask, bodies.pop(), r.ends) if len(bodies) == 1 and all(not cc for cc, b in cs) else None
        if t.op == 'filter_map' and len(cs) == 1 and not [c for c in cs[0][0] if not known(cs[0][0], c)] and is_named(cs[0][1], 'get'):
            return Rows(r.kind, r.mask, cs[0][1], r.ends)
        if r.kind != 'all':
            return None
        yes, no = [], []
        for cc, b in cs:
            lits_ = [c for c in cc if not known(cc, c)]
            if t.op == 'filter':
                if b is TRUE or b is FALSE:
                    (yes if b is TRUE else no).append((lits_, r.el))
                elif not lits_:
                    yes.append(([(b, True)], r.el))
                    no.append(([(b, False)], r.el))
                else:
                    return None
            elif b.op == 'agg' and b.a[0] == 'Option::None':
                no.append((lits_, None))
            elif b.op == 'agg' and b.a[0] == 'Option::Some':
                yes.append((lits_, agg_get(b, '0')))
            else:
                yes.append((lits_, b))
        masks = set()
        for l, b in yes:
            ms = [selbit(c, v, True) for c, v in l]
            if len(ms) != 1 or ms[0] is None:
                return None
            masks.add(ms[0])
        for l, b in no:
            ms = [selbit(c, v, False) for c, v in l]
            if len(ms) != 1 or ms[0] is None:
                return None
            masks.add(ms[0])
        els = {b for l, b in yes}
        if len(masks) != 1 or len(els) != 1:
            return None
        return Rows('sel', masks.pop(), els.pop(), r.ends)
    if t.op == 'zip':
        a, b = rows(t.a[0], p, ps), rows(t.a[1], p, ps)
        if not a or not b or a.kind != b.kind or a.mask is not b.mask:
            return None
        return Rows(a.kind, a.mask, flow.agg('()', [('0', a.el), ('1', b.el)]), a.ends | b.ends)
    if t.op in ('sym', 'fld', 'arg', 'f'):
        return Rows('all', None, at(t), {mk('call', 'len', None, t)})
    return None


def selbit(c, v, want):
    while c.op == 'not':
        c, v = c.a[0], not v
    return c.a[0] if c.op == 'elt' and v is want else None


def is_named(t, *n):
    return t.op == 'call' and t.a[0].split('::')[-1] in n


def seq_len(t, c):
    t = uncast(t)
    return is_named(t, 'len', 'count') and cargs(t)[0] is c


# ---- sequences ---------------------------------------------------------------
def check_seq(ck, f):
    s = param(f, 0)

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    ps = [p for p in ck.run(f) if p.outcome in ('return', 'loop')]
    for p in ps:
        if p.outcome != 'return':
            continue
        r = p.ret
        if f.method in ('to_vec', 'select'):
            w = rows(r, p, ps)
            bits = param(f, 1) if f.method == 'select' else None
            ok = w is not None and is_get(w.el, s) and (w.kind, w.mask) == (('sel', bits) if bits is not None else ('all', None))
            ok = ok and any(seq_len(e, s) for e in w.ends) and all(seq_len(e, s) or bits is not None and is_len(e) and lenarg(e) is bits for e in w.ends)
            ob('seq.' + f.method, ok, 'does not return exactly the %s of the sequence in order' % ('marked elements' if bits is not None else 'elements'))
        else:
            want = INT(0) if f.method == 'first' else None
            y = value(r)
            y = r.a[0] if r.op == 'fld' and r.a[1] == 'Some.0' else r
            ok = is_named(y, 'get') and cargs(y)[0] is s
            if ok and want is not None:
                ok = cargs(y)[1] is want
            elif ok:
                d = lin(cargs(y)[1])
                ks = [k for k in d if k is not None]
                ok = len(ks) == 1 and d[ks[0]] == 1 and d.get(None) == -1 and seq_len(ks[0], s)
            ob('seq.' + f.method, ok, 'returns something else than the %s element' % f.method)


def lenarg(t):
    return t.a[0] if t.op == 'len' else cargs(t)[0]


# ---- blocks ------------------------------------------------------------------
def is_buf(t, self):
    """the whole decompressed content of the block"""
    if not (t.op == 'call' and t.a[0] == 'slice'):
        return False
    b, r = cargs(t)[:2]
    if r.op != 'agg' or agg_get(r, 'start') is not None and agg_get(r, 'start') is not INT(0):
        return False
    e = agg_get(r, 'end')
    if e is None or b.op != 'mut' or not b.a[0].endswith('decompress_to_buffer'):
        return False
    if not (e.op == 'fld' and e.a[1] == 'Ok.0' and is_named(e.a[0], 'decompress_to_buffer')):
        return False
    return any(x is mk('fld', self, 'data') for x in cargs(e.a[0]))


def cursor_of(t, s, ps):
    """t is a cursor into the items of the block: the whole content, advanced by one item per round"""
    return t.op == 'phi' and is_buf(t.a[2], s)


def rest_of(t):
    return t.a[0].a[0] if t.op == 'fld' and t.a[1] == '1' and t.a[0].op == 'fld' and t.a[0].a[1] == 'Ok.0' and is_named(t.a[0].a[0], 'checked_prefix') else None


def item_at(t):
    """read_cbor of the item the cursor stands on -> the cursor"""
    while t.op == 'fld' and t.a[1] == 'Ok.0' and is_named(t.a[0], 'read_cbor', 'read_cbor_root', 'decode'):
        t = t.a[0]
    if not is_named(t, 'read_cbor'):
        return None
    y = cargs(t)[0]
    if y.op == 'fld' and y.a[1] == '0' and y.a[0].op == 'fld' and y.a[0].a[1] == 'Ok.0' and is_named(y.a[0].a[0], 'checked_prefix'):
        return cargs(y.a[0].a[0])[0]
    return None


def at_end(p, s, ps):
    for c, v in p.clog:
        l = lits(c, v) if isinstance(v, bool) else None
        if l and l[1] is True and l[0].op == 'bin' and l[0].a[0] == 'Eq' and l[0].a[1] is INT(0) and is_len(l[0].a[2]) and cursor_of(lenarg(l[0].a[2]), s, ps):
            return True
        if isinstance(v, bool) and v and is_named(c, 'is_empty') and cursor_of(cargs(c)[0], s, ps):
            return True
    return False


def rounds(t, ps):
    """integer loop variable with a constant step -> (initial value, step)"""
    if t.op != 'phi':
        return None
    ups = [u for p, u in phi_updates(t, ps)]
    ds = [diff(u, t) for u in ups]
    if ds and all(set(d) <= {None} for d in ds) and len({d.get(None, 0) for d in ds}) == 1 and ds[0].get(None) in (1, -1):
        return t.a[2], ds[0][None]
    return None


RHO = mk('sym', 'ROUNDS')


def counters(t, ps):
    m = {}
    for x in find_terms(t, lambda x: x.op == 'phi'):
        r = rounds(x, ps)
        if r:
            m[x] = mk('bin', 'Add' if r[1] > 0 else 'Sub', r[0], RHO)
    return subst(t, m)


def ordinal(p, ps, idx):
    """what the path knows about the number of rounds done compared to idx: subset of {'<', '=', '>'}"""
    poss = {'<', '=', '>'}
    for c, v in p.clog:
        n = False
        while c.op == 'not':
            c, n = c.a[0], not n
        if isinstance(v, bool) and c.op == 'bin' and c.a[0] in ('Lt', 'Eq', 'Le', 'Ne', 'Gt', 'Ge'):
            op, a, b = c.a[0], counters(uncast(c.a[1]), ps), counters(uncast(c.a[2]), ps)
            v = v != n
        elif not isinstance(v, (bool, str)) or isinstance(v, str) and v.isdigit() or isinstance(v, frozenset):
            # switch on an integer
            op, a = 'Eq', counters(uncast(c), ps)
            if a.op == 'disc':
                continue
            if isinstance(v, frozenset):
                if not any(str(x) == '0' for x in v):
                    continue
                b, v = INT(0), False
            else:
                try:
                    b, v = INT(int(v)), True
                except (TypeError, ValueError):
                    continue
        else:
            continue
        d = diff(a, b)
        if op in ('Gt', 'Ge'):
            d = diff(b, a)
            op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
        if d == {RHO: 1, idx: -1}:
            t = {'Lt': '<', 'Le': '<=', 'Eq': '=', 'Ne': '<>'}[op]
        elif d == {RHO: -1, idx: 1}:
            t = {'Lt': '>', 'Le': '>=', 'Eq': '=', 'Ne': '<>'}[op]
        else:
            continue
        poss &= set(t) if v else {'<', '=', '>'} - set(t)
    return poss


def prefix_with_all_bits(t, take, p, ps):
    """t is the mask, or a prefix of it that contains all true bits"""
    t = unphi(t)
    while t.op == 'iter' or is_named(t, 'iter', 'cloned', 'copied', 'into_iter') and len(cargs(t)) == 1:
        t = unphi(t.a[0] if t.op == 'iter' else cargs(t)[0])
    if t is take:
        return True
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Range' and agg_get(t, 'start') is INT(0) and is_len(agg_get(t, 'end')):
        return prefix_with_all_bits(lenarg(agg_get(t, 'end')), take, p, ps)
    if t.op == 'agg' and t.a[0] == '[]' and len(t.a) == 1 or is_named(t, 'empty'):
        return last_true(None, take, p, ps)
    if t.op == 'call' and t.a[0] == 'slice' and cargs(t)[0] is take:
        r = cargs(t)[1]
        e = None
        if is_named(r, 'new') and 'RangeInclusive' in r.a[0] and cargs(r)[0] is INT(0):
            e = cargs(r)[1]
        elif r.op == 'agg' and r.a[0].split('::')[-1] in ('RangeToInclusive', 'RangeInclusive'):
            e = agg_get(r, 'end')
        elif r.op == 'agg' and r.a[0].split('::')[-1] in ('Range', 'RangeTo') and agg_get(r, 'start') in (None, INT(0)):
            d = lin(agg_get(r, 'end'))
            ks = [k for k in d if k is not None]
            if len(ks) == 1 and d[ks[0]] == 1 and d.get(None) == 1:
                e = ks[0]
        return e is not None and last_true(e, take, p, ps)
    return False


def last_true(e, take, p, ps):
    """e is the position of the last true bit of take (None: there is none)"""
    if e is not None and e.op == 'fld' and e.a[1] == 'Some.0':
        y = e.a[0]
        if is_named(y, 'rposition') and unwrapped(cargs(y)[0]) is take and ident(cargs(y)[1]):
            return True
        if is_named(y, 'next_back'):
            r = unphi(cargs(y)[0])
            full = r.op == 'agg' and agg_get(r, 'start') is INT(0) and is_len(agg_get(r, 'end')) and lenarg(agg_get(r, 'end')) is take
            hit = any(isinstance(v, bool) and v and elem(c) and elem(c)[0] is take and elem(c)[1] is e for c, v in p.clog)
            # the loop over the positions goes on only past false bits
            cont = [q for q in ps if q.outcome == 'loop' and any(c.op == 'disc' and c.a[0] is y and v == 'Some' for c, v in q.clog) and not any(isinstance(v, bool) and v and elem(c) and elem(c)[0] is take for c, v in q.clog)]
            loops = [q for q in ps if q.outcome == 'loop' and any('next_back' in str(u.a[0]) for u in (q.updates or {}).values() if u.op == 'mut')]
            okc = all(any(v is False and elem(c) and elem(c)[0] is take and elem(c)[1] is e for c, v in q.clog) for q in loops)
            return full and hit and bool(loops) and okc
        return False
    if e is None:
        for c, v in p.clog:
            if c.op == 'disc' and v == 'None':
                y = c.a[0]
                if is_named(y, 'rposition') and unwrapped(cargs(y)[0]) is take and ident(cargs(y)[1]):
                    return True
                if is_named(y, 'next_back'):
                    e2 = mk('fld', y, 'Some.0')
                    r = unphi(cargs(y)[0])
                    full = r.op == 'agg' and agg_get(r, 'start') is INT(0) and is_len(agg_get(r, 'end')) and lenarg(agg_get(r, 'end')) is take
                    loops = [q for q in ps if q.outcome == 'loop' and any('next_back' in str(u.a[0]) for u in (q.updates or {}).values() if u.op == 'mut')]
                    if full and loops and all(any(v2 is False and elem(c2) and elem(c2)[0] is take and elem(c2)[1] is e2 for c2, v2 in q.clog) for q in loops):
                        return True
    return False


def unwrapped(t):
    t = unphi(t)
    while t.op == 'iter':
        t = unphi(t.a[0])
    return t


def ident(l):
    return l.op == 'lam' and len(l.a) == 1 and l.a[0].a[1].op == 'bound' and not l.a[0].a[0].a


def pushed(t):
    """-> (base, [pushed])"""
    out = []
    t = flow.erase(t)
    while t.op == 'mut' and t.a[0].split('::')[-1].startswith('push'):
        out.append(t.a[4])
        t = t.a[3]
    return t, out[::-1]


def check_block(ck, f):
    s = param(f, 0)
    ps = [p for p in ck.run(f) if p.outcome in ('return', 'loop')]

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    idx = param(f, 1) if f.method in ('get', 'select') else None
    seen = set()
    for p in ps:
        er = errs(p)
        if p.outcome == 'return' and er:
            ob('block.error', is_err(p.ret) and any(contains(p.ret, mk('fld', t, 'Err.0')) for t in er), 'does not report that %s failed' % show(er[-1])[:60])
            continue
        if p.outcome == 'loop':
            curs = [(k, v) for k, v in (p.updates or {}).items() if rest_of(v) is not None or any(cursor_of(x, s, ps) for x in subterms(v) if x.op == 'phi')]
            items = [(k, v) for k, v in (p.updates or {}).items() if pushed(v)[1]]
            if not any(is_named(x, 'checked_prefix') for c, v in p.clog for x in subterms(c)) and not items:
                # a loop that does not look at the content: shrinking the mask
                if f.method == 'select' and not mentions_cursor(p, s, ps):
                    continue
            ob('block.error', not er, 'goes on although %s failed' % (er and show(er[0])[:60]))
            # exactly one item is consumed
            ok = any(rest_of(v) is not None and cursor_of(cargs(rest_of(v))[0], s, ps) and place_phi(p, k, v, s, ps) for k, v in curs)
            ob('block.advance', ok, 'does not advance by exactly one item per round')
            if f.method == 'get':
                ob('block.get.pass', ordinal(p, ps, idx) <= {'<'} or ordinal(p, ps, idx) <= {'<', '>'}, 'may pass over the item at the given index')
            elif f.method == 'count':
                seen.add('count')
            elif f.method in ('items', 'select'):
                got = [(pushed(v)) for k, v in items]
                one = len(got) == 1 and len(got[0][1]) == 1 and cursor_ok(item_at(got[0][1][0]), s, ps) and got[0][0].op == 'phi'
                if f.method == 'items':
                    ob('block.items.push', one, 'does not add exactly the item it passes')
                    seen.add('push')
                else:
                    bit = mask_bit(p, idx, ps)
                    ob('block.select.bit', bit is not None, 'does not go through the mask in step with the items')
                    if bit is True:
                        ob('block.select.push', one, 'does not add a marked item')
                        seen.add('push')
                    elif bit is False:
                        ob('block.select.skip', not items, 'adds an item that is not marked')
                        seen.add('skip')
            continue
        # returns without an error inside
        r = p.ret
        if not is_ok(r):
            ob('block.fail', False, 'fails although nothing went wrong, or returns %s' % show(r)[:60])
            continue
        v = agg_get(r, '0')
        if f.method == 'get':
            if v.op == 'agg' and v.a[0] == 'Option::None':
                ob('block.get.none', at_end(p, s, ps), 'returns nothing before the end of the block')
                seen.add('none')
            else:
                x = agg_get(v, '0') if v.op == 'agg' else None
                ob('block.get.item', x is not None and cursor_ok(item_at(x), s, ps), 'returns something that is not an item of the block')
                ob('block.get.index', bool(ordinal(p, ps, idx)) and not ({'<'} & ordinal(p, ps, idx)), 'may return an item before the given index')
                seen.add('item')
        elif f.method == 'count':
            ob('block.count', at_end(p, s, ps) and rounds(v, ps) == (INT(0), 1), 'returns something else than the number of items')
        elif f.method == 'items':
            ob('block.items', at_end(p, s, ps) and fresh_list(v), 'does not return all items')
        else:
            if is_named(v, 'empty', 'new') and not any(is_named(c.a[0], 'decompress_to_buffer') for c, vv in p.clog if c.op == 'disc'):
                ok = any(isinstance(vv, bool) and empty_lit(c, vv) is not None and prefix_with_all_bits(empty_lit(c, vv), idx, p, ps) for c, vv in p.clog)
                ok = ok or last_true(None, idx, p, ps) or none_set(p, idx)
                ob('block.select.none', ok, 'returns nothing although a bit may be set')
                continue
            done = at_end(p, s, ps) or any(c.op == 'disc' and vv == 'None' and is_named(c.a[0], 'next') and prefix_with_all_bits(maskiter(cargs(c.a[0])[0]), idx, p, ps) for c, vv in p.clog)
            ob('block.select', done and fresh_list(v), 'does not return all marked items')
    for k in {'get': ('none', 'item'), 'count': ('count',), 'items': ('push',), 'select': ('push', 'skip')}[f.method]:
        ob('block.cases', k in seen, 'has no path for the case `%s`' % k)


def none_set(p, take):
    for c, v in p.clog:
        if is_named(c, 'any') and v is False and unwrapped(cargs(c)[0]) is take and ident(cargs(c)[1]):
            return True
    return False


def empty_lit(c, v):
    l = lits(c, v)
    if l and l[1] is True and l[0].op == 'bin' and l[0].a[0] == 'Eq' and l[0].a[1] is INT(0) and is_len(l[0].a[2]):
        return lenarg(l[0].a[2])
    if v and is_named(c, 'is_empty'):
        return cargs(c)[0]
    return None


def maskiter(t):
    return unphi(t)


def mentions_cursor(p, s, ps):
    return any(cursor_of(x, s, ps) for c, v in p.clog for x in subterms(c) if x.op == 'phi')


def cursor_ok(c, s, ps):
    return c is not None and cursor_of(c, s, ps)


def place_phi(p, k, v, s, ps):
    """the value is stored back into the variable it was read from"""
    c = cargs(rest_of(v))[0]
    return any(u is v for q, u in phi_updates(c, [p]))


def mask_bit(p, take, ps):
    """the mask bit of this round"""
    for c, v in p.clog:
        if isinstance(v, bool):
            n = v
            while c.op == 'not':
                c, n = c.a[0], not n
            if c.op == 'fld' and c.a[1] == 'Some.0' and is_named(c.a[0], 'next') and prefix_with_all_bits(maskiter(cargs(c.a[0])[0]), take, p, ps):
                return n
            e = elem(c)
            if e and prefix_with_all_bits(e[0], take, p, ps):
                if rounds(e[1], ps) == (INT(0), 1):
                    return n
                i = e[1]
                if i.op == 'fld' and i.a[1] == 'Some.0' and is_named(i.a[0], 'next'):
                    r = unphi(cargs(i.a[0])[0])
                    if r.op == 'agg' and agg_get(r, 'start') is INT(0) and is_len(agg_get(r, 'end')):
                        return n
    return None


def fresh_list(v):
    return v.op == 'phi' and (is_named(v.a[2], 'empty', 'new', 'with_capacity') or v.a[2].op == 'agg' and len(v.a[2].a) == 1)


# ---- chunks ------------------------------------------------------------------
def check_chunk(ck, f, opq):
    ty = {f.locals[a]: param(f, i) for i, a in enumerate(f.args)}
    g = lambda rx: [v for k, v in ty.items() if re.search(rx, k)]
    rng, idx, ldr, mask = [(g(r) or [None])[0] for r in (r'Range<u64>', r'LeafIndex<', r'LeafLoader<', r'\[bool\]')]

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    if not ob('anchor', None not in (rng, idx, ldr, mask), 'has other arguments than expected'):
        return
    n = 0
    keys = mk('fld', idx, 'keys')
    ps = [p for p in ck.run(f, opaque=opq) if p.outcome in ('return', 'loop')]
    rg = flow.agg('std::ops::Range', [('start', mk('fld', rng, 'start')), ('end', mk('fld', rng, 'end'))])
    for p in ps:
        er = errs(p)
        if p.outcome == 'loop':
            ob('chunk.error', not er, 'goes on although %s failed' % (er and show(er[-1])[:60]))
            continue
        if er:
            ob('chunk.error', is_err(p.ret) and any(contains(p.ret, mk('fld', t, 'Err.0')) for t in er), 'does not report that %s failed' % show(er[-1])[:60])
            continue
        if not is_ok(p.ret):
            # the error values of the loader
            continue
        ch = agg_get(p.ret, '0')
        data = agg_get(ch, 'data') if ch.op == 'agg' else None
        if not ob('chunk.shape', data is not None, 'returns %s' % show(ch)[:60]):
            continue
        ob('chunk.range', agg_get(ch, 'range') is rng, 'reports another range than the one of the leaf')
        if is_named(data, 'empty', 'new', 'with_capacity') or data.op == 'agg' and len(data.a) == 1:
            ob('chunk.empty', none_set(p, mask) or last_true(None, mask, p, [p]), 'returns no elements although some may match')
            continue
        w = rows(norm(subst(data, {rng: rg})), p, ps)
        ok = w is not None and (w.kind, w.mask) == ('sel', mask)
        ok = ok and all(is_len(x) and lenarg(x) is mask or seq_len(x, keys) or diff(x, mk('fld', rng, 'end')) == {mk('fld', rng, 'start'): -1} for x in w.ends)
        if not ob('chunk.rows', ok, 'does not return one element per matching position, in order'):
            continue
        n += 1
        e = w.el
        o, k, v = [agg_get(e, x) if e.op == 'agg' else None for x in '012']
        ob('chunk.offset', o is not None and diff(o, POS) == {mk('fld', rng, 'start'): 1}, 'reports another offset than the start of the leaf plus the position')
        ob('chunk.key', is_get(k, keys), 'pairs an element with a key from another position')
        ob('chunk.value', v is not None and is_named(v, 'get') and block_of_loader(cargs(v)[0], ldr) and cargs(v)[1] is POS, 'pairs an element with a value from another position or block')
    ob('chunk.cases', n >= 1, 'never returns elements')


def block_of_loader(t, ldr):
    while t.op == 'fld' and t.a[1] in ('items', 'Ok.0', '0'):
        t = t.a[0]
    return t.op == 'call' and t.a[0].split('::')[-1] in ('load', 'load_leaf_from_link') and (cargs(t)[0] is ldr or any(contains(x, mk('fld', ldr, 'link')) for x in cargs(t)))


def P20(ck):
    """the chunk builder (every implementation of TreeVisitor::leaf that produces a FilteredChunk of elements), the default
    methods of CompactSeq and the accessors of a value block: the list of results, as a function of the position, contains
    for exactly the marked positions in ascending order the offset start+position, the key at the position and the value at
    the position; a block is read item by item from its start to its end, one item per round."""
    prog = ck.prog
    n = 0
    for f in all_fns(prog):
        if f.crate in ('banyan', 'banyan_utils') and f.trait == 'CompactSeq' and '{closure' not in f.key and f.method in ('to_vec', 'select', 'first', 'last'):
            check_seq(ck, f)
    for f in all_fns(prog):
        if f.crate == 'banyan' and '{closure' not in f.key and f.selfty and mir.type_head(f.selfty) == 'ZstdDagCborSeq' and f.method in ('get', 'items', 'select', 'count'):
            check_block(ck, f)
    opq = seq_fns(prog)
    for f in all_fns(prog):
        if f.crate == 'banyan' and f.trait == 'TreeVisitor' and f.method == 'leaf' and '{closure' not in f.key and 'ChunkVisitor' in (f.selfty or ''):
            check_chunk(ck, f, opq)
    for r in ('seq.to_vec', 'seq.select', 'seq.first', 'seq.last', 'block.get.item', 'block.items', 'block.select', 'block.count', 'chunk.value'):
        ck.floor(r, 1)
