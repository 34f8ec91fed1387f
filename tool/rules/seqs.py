"""P29: what a sequence of keys or summaries is built from is what it gives back, and its summary covers it."""
from common import *
from facts import *
from write import short, param
from append import phi_updates
from traverse import elem, uncast, lin
from elements import POS, at, rows, lam1, looped, unloop, stripped, value, pre, is_named, fresh_list
import flow


class Lost(Exception):
    pass


def leaves(t, path=()):
    """aggregate -> [(field path, term)] of the parts that are not themselves built here"""
    t = flow.erase(t)
    if t.op == 'agg' and len(t.a) > 1 and not t.a[0].startswith('Option') and not t.a[0].startswith('['):
        out = []
        for f in t.a[1:]:
            out += leaves(f.a[1], path + (f.a[0],))
        return out
    return [(path, t)]


def contrib(u, base, ps):
    """what is added to the set `base` to make `u`: the set term, if nothing else happens to it"""
    u = flow.erase(u)
    if u.op == 'mut' and u.a[0].split('::')[-1] == 'extend' and len(u.a) == 5 and flow.erase(u.a[3]) is base:
        return stripped(u.a[4])
    if u.op == 'phi' and flow.erase(u.a[2]) is base:
        nx, rounds = looped(u, ps)
        ups = phi_updates(u, ps)
        if nx is None or len(ups) != len(rounds):
            return None
        it = mk('fld', nx, 'Some.0')
        for q, v in ups:
            if v.op != 'mut' or v.a[0].split('::')[-1] != 'insert' or len(v.a) != 5 or flow.erase(v.a[3]) is not u or flow.erase(v.a[4]) is not it:
                return None
        return stripped(cargs(nx)[0])
    return None


def union(t, p, ps):
    """a set into which all of set(item), over every item of a list, is put -> set(at(list))"""
    if t.op == 'phi' and fresh_list(t):
        nx, rounds = looped(t, ps)
        ups = phi_updates(t, ps)
        if nx is None or len(ups) != len(rounds) or not any(c.op == 'disc' and c.a[0] is nx and v == 'None' for c, v in p.clog):
            return None
        r = rows(cargs(nx)[0], p, ps)
        if r is None or r.kind != 'all':
            return None
        it = mk('fld', nx, 'Some.0')
        els = set()
        for q, u in ups:
            c = contrib(u, t, ps)
            els.add(c and stripped(subst(c, {it: r.el})))
        return els.pop() if len(els) == 1 else None
    if is_named(t, 'fold') and len(cargs(t)) == 3:
        # the same, with the set as the state of a fold
        src, init, l = cargs(t)
        r = rows(src, p, ps)
        fresh = is_named(init, 'empty', 'new', 'default', 'with_capacity') or init.op == 'agg' and len(init.a) == 1
        if r is None or r.kind != 'all' or not fresh or l.op != 'lam' or len(l.a) != 1 or l.a[0].op != 'case' or l.a[0].a[0].a:
            return None
        acc, it = [mk('bound', flow.LAM_LEVEL.get(l, 0), i) for i in (0, 1)]
        c = contrib(l.a[0].a[1], acc, ps)
        if c is None or acc in find_terms(c, lambda x: x.op == 'bound'):
            return None
        return stripped(subst(c, {it: r.el}))
    if t.op == 'call' and is_named(t, 'collect') or t.op == 'collect':
        s = t.a[0] if t.op == 'collect' else cargs(t)[0]
        fm = None
        if s.op == 'flat_map':
            fm = s.a[0], s.a[1]
        elif is_named(s, 'flat_map') and len(cargs(s)) == 2:
            fm = tuple(cargs(s))
        elif is_named(s, 'flatten'):
            m = cargs(s)[0]
            fm = (m.a[0], m.a[1]) if m.op == 'map' else None
        if fm:
            r = rows(fm[0], p, ps)
            cs = lam1(fm[1], r.el) if r and r.kind == 'all' else None
            if cs and len(cs) == 1 and not cs[0][0]:
                return stripped(cs[0][1])
    return None


class Source:
    """the fields of a sequence as its from_iter fills them, for the item at POS"""
    def __init__(self, prog, ret, p, ps, item):
        self.prog, self.item = prog, item
        self.lists, self.tables, self.counts = {}, {}, set()
        ts = leaves(ret)
        for path, t in ts:
            u = union(t, p, ps)
            if u is not None:
                self.tables[path] = (t, u)
        for path, t in ts:
            if path in self.tables:
                continue
            if is_named(t, 'count') and stripped(cargs(t)[0]) is item or t.op == 'call' and is_named(t, 'len') and self.every(cargs(t)[0], p, ps):
                self.counts.add(path)
                continue
            r = rows(t, p, ps)
            if r is None or r.kind != 'all':
                raise Lost('field %s does not hold one entry for every item: %s' % ('.'.join(path), show(t)[:110]))
            if not all(self.whole(e, p, ps) for e in r.ends):
                raise Lost('field %s may end before the last item' % '.'.join(path))
            el = r.el
            for tp, (tt, u) in self.tables.items():
                # also where a nested closure captures it
                el = subst(el, {x: self.table(tp) for x in [tt] + [flow.shift_captured(tt, d) for d in range(3)]})
            self.lists[path] = el

    def every(self, t, p, ps):
        r = rows(t, p, ps)
        return r is not None and r.kind == 'all' and all(self.whole(e, p, ps) for e in r.ends)

    def whole(self, e, p, ps):
        if is_named(e, 'len', 'count'):
            x = stripped(cargs(e)[0])
            return x is self.item or self.every(x, p, ps)
        return False

    def table(self, path):
        return mk('sym', 'table ' + '.'.join(path))

    def path_of(self, t, s):
        out = []
        while t.op == 'fld' and t is not s:
            out.append(t.a[1])
            t = t.a[0]
        return tuple(out[::-1]) if t is s else None

    # what a term of a reader means for a sequence that from_iter has built
    def val(self, t, s, idx, item=None):
        t = flow.erase(t)
        f = lambda x: self.val(x, s, idx, item)
        if t is idx:
            return POS
        e = elem(t) or (t.a if t.op == 'elemat' else None)
        g = None
        if e is None and t.op == 'fld' and t.a[1] == 'Some.0' and is_named(t.a[0], 'get') and len(cargs(t.a[0])) == 2:
            e = cargs(t.a[0])
        if e is not None:
            pth = self.path_of(e[0], s)
            i = f(e[1])
            if pth in self.lists and i is POS:
                return self.lists[pth]
            if pth in self.tables:
                return self.lookup(self.table(pth), i)
            if e[0].op == 'sym' and str(e[0].a[0]).startswith('table '):
                return self.lookup(e[0], i)
        pth = self.path_of(t, s)
        if pth in self.tables:
            return self.table(pth)
        if t.op == 'cast':
            return mk('cast', *[f(x) if isinstance(x, T) else x for x in t.a])
        if t.op == 'agg':
            parts = [(x.a[0], f(x.a[1])) for x in t.a[1:]]
            return self.eta(flow.agg(t.a[0], parts))
        if t.op == 'call' and is_named(t, 'collect') or t.op == 'collect':
            src = t.a[0] if t.op == 'collect' else cargs(t)[0]
            lams = []
            while src.op in ('map', 'iter') or src.op == 'call' and src.a[0].split('::')[-1] in ('iter', 'into_iter', 'cloned', 'copied', 'map', 'collect'):
                a = list(src.a) if src.op in ('map', 'iter') else cargs(src)
                if len(a) > 1:
                    lams.append(a[1])
                src = a[0]
            base = f(src)
            while (base.op == 'collect' or is_named(base, 'collect')):
                src = base.a[0] if base.op == 'collect' else cargs(base)[0]
                while src.op in ('map', 'iter') or src.op == 'call' and src.a[0].split('::')[-1] in ('iter', 'into_iter', 'cloned', 'copied', 'map', 'collect'):
                    a = list(src.a) if src.op in ('map', 'iter') else cargs(src)
                    if len(a) > 1:
                        lams.append(a[1])
                    src = a[0]
                base = src
            el = at(base)
            for l in reversed(lams):
                cs = lam1(l, el)
                if cs is None or len(cs) != 1:
                    return t
                bad = [c for c in cs[0][0] if not (c[0].op == 'disc' and is_named(c[0].a[0], 'binary_search', 'get') and c[1] in ('Ok', 'Some'))]
                if bad:
                    return t
                el = self.val(cs[0][1], s, idx)
            return base if el is at(base) else mk('collect', mk('map', base, el))
        return t

    def lookup(self, table, i):
        w = i
        while w.op == 'cast' and any(x in ('u32', 'u64', 'usize') for x in w.a):
            w = w.a[-1] if isinstance(w.a[-1], T) else w.a[0]
        if w.op == 'fld' and w.a[1] == 'Ok.0' and is_named(w.a[0], 'binary_search') and cargs(w.a[0])[0] is table:
            return cargs(w.a[0])[1]
        return mk('elemat', table, i)

    def eta(self, t):
        """Struct { a: x.a, b: x.b, .. } is x"""
        fs = struct_fields(self.prog, t.a[0])
        parts = {x.a[0]: x.a[1] for x in t.a[1:]}
        if not fs or set(parts) != {n for n, _ in fs}:
            return t
        xs = {v.a[0] if v.op == 'fld' and v.a[1] == n else None for n, v in parts.items()}
        return xs.pop() if len(xs) == 1 and None not in xs else t


def in_range(S, c, v, s, idx):
    """the condition that position idx exists in a field of the sequence"""
    while c.op == 'not':
        c, v = c.a[0], not v
    if c.op == 'disc' and is_named(c.a[0], 'get') and len(cargs(c.a[0])) == 2 and S.path_of(cargs(c.a[0])[0], s) in S.lists and cargs(c.a[0])[1] is idx:
        return v == 'Some'
    if c.op == 'bin' and c.a[0] in ('Lt', 'Le', 'Gt', 'Ge'):
        o, a, b = c.a
        if o in ('Gt', 'Ge'):
            o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
        if o == 'Le':
            o, a, b, v = 'Lt', b, a, not v
        if uncast(a) is idx and length(S, b, s):
            return v
    return None


def length(S, t, s):
    t = uncast(t)
    if S.path_of(t, s) in S.counts:
        return True
    return (is_named(t, 'len') or t.op == 'len') and S.path_of(lenof(t) if t.op == 'len' else cargs(t)[0], s) in S.lists


def source(ck, f, nargs, item):
    """run a from_iter -> list of Source, one for each way it returns"""
    ps = ck.run(f)
    out = []
    for p in ps:
        if p.outcome == 'return':
            out.append(Source(ck.prog, p.ret, p, ps, item))
    return out


def read(ck, f, S, item, rule):
    """get(index) of a sequence gives back the item at index, exactly when there is one"""
    s, idx = param(f, 0), param(f, 1)

    def ob(r, ok, msg):
        return ck.ob(r, ok, f.key, '%s %s' % (short(f), msg), f.where)
    ps = ck.run(f)
    for p in ps:
        if p.outcome != 'return':
            continue
        cs = [in_range(S, c, v, s, idx) for c, v in p.clog]
        r = p.ret
        if r.op == 'agg' and r.a[0] == 'Option::None':
            ob(rule + '.get', False in cs, 'answers None for a position that may exist: %s' % '; '.join('%s=%s' % (show(c)[:60], v) for c, v in p.clog[:4]))
            continue
        v = agg_get(r, '0') if r.op == 'agg' and r.a[0] == 'Option::Some' else None
        if v is None and is_named(r, 'get') and len(cargs(r)) == 2 and cargs(r)[1] is idx:
            got = S.lists.get(S.path_of(cargs(r)[0], s))
        elif v is None:
            got = None
        else:
            ob(rule + '.get', True in cs, 'answers with an item for a position that may not exist')
            got = S.val(unloop(v, p, ps), s, idx)
        unit = got is not None and got.op == 'agg' and got.a[0] in ('()', 'tuple') and len(got.a) == 1
        ob(rule + '.item', got is at(item) or unit and bool(S.counts), 'gives back %s, not the item at that position' % (show(got)[:140] if got is not None else show(r)[:140]))


def build(ck, f, item, rule, types):
    """-> Source or None"""
    def ob(r, ok, msg):
        return ck.ob(r, ok, f.key, '%s %s' % (short(f), msg), f.where)
    try:
        Ss = source(ck, f, 1, item)
    except Lost as e:
        ob(rule + '.build', False, str(e))
        return None
    ob(rule + '.build', len(Ss) >= 1, 'never returns')
    if not Ss:
        return None
    S = Ss[0]
    ob(rule + '.build', all(x.lists == S.lists and x.counts == S.counts and set(x.tables) == set(S.tables) for x in Ss), 'builds different sequences')
    ob(rule + '.build', bool(S.lists or S.counts), 'keeps nothing of the items')
    # every list whose entries are positions in a table: the table has every tag, the set of the item
    for pth, el in S.lists.items():
        for tp in S.tables:
            if any(x is S.table(tp) for x in find_terms(el, lambda x: x.op == 'sym')):
                bs = find_terms(el, lambda x: is_named(x, 'binary_search'))
                src = el.a[0] if el.op == 'collect' and isinstance(el.a[0], T) else cargs(el)[0] if el.op == 'call' and is_named(el, 'collect') else None
                src = src and (src.a[0] if src.op == 'map' else cargs(src)[0] if is_named(src, 'map') else None)
                ob(rule + '.table', src is not None and bool(bs) and stripped(src) is S.tables[tp][1],
                   'the table %s does not hold everything that %s refers to' % ('.'.join(tp), '.'.join(pth)))
    return S


def order_kind(prog, ty, path):
    """type of a nested field"""
    t = ty
    for n in path:
        d = dict(struct_fields(prog, mir.type_head(t)))
        t = d.get(n, '?')
    return t


def check_lens(ck, f, S, rule):
    s = param(f, 0)
    for p in ck.run(f):
        if p.outcome == 'return':
            ck.ob(rule + '.len', length(S, p.ret, s), f.key, '%s is not the number of items: %s' % (short(f), show(p.ret)[:80]), f.where)


def folded(S, t, s, p, ps):
    """a value that starts from the item at 0 and takes in those at 1.. up to the end -> (min|max|union, what of the item)"""
    if t.op != 'phi':
        return None
    nx, rounds = looped(t, ps)
    ups = phi_updates(t, ps)
    if nx is None or len(ups) != len(rounds) or not any(c.op == 'disc' and c.a[0] is nx and v == 'None' for c, v in p.clog):
        return None
    it = unphi(cargs(nx)[0])
    if not (it.op == 'agg' and it.a[0].split('::')[-1] == 'Range' and agg_get(it, 'start') is flow.INT(1) and length(S, agg_get(it, 'end'), s)):
        return None
    first = S.val(t.a[2], s, flow.INT(0))
    idx = mk('fld', nx, 'Some.0')
    kinds = set()
    for q, u in ups:
        if is_named(u, 'min', 'max') and len(cargs(u)) == 2 and t in cargs(u):
            k = u.a[0].split('::')[-1]
            o = [x for x in cargs(u) if x is not t]
        elif u.op == 'mut' and u.a[0].split('::')[-1] in ('extend', 'append') and u.a[3] is t and len(u.a) == 5:
            k = 'union'
            x = u.a[4]
            while x.op == 'iter' or is_named(x, 'iter', 'into_iter', 'cloned', 'copied') and len(cargs(x)) == 1:
                x = x.a[0] if x.op == 'iter' else cargs(x)[0]
            o = [x]
        else:
            return None
        if len(o) != 1 or S.val(o[0], s, idx) is not first:
            return None
        kinds.add(k)
    return (kinds.pop(), first) if len(kinds) == 1 else None


def check_summary(ck, f, S, item):
    """minimum of minima, maximum of maxima, union of tags"""
    s = param(f, 0)
    ps = ck.run(f)
    el = {}
    for pth, t in S.lists.items():
        el[pth] = t
    n = 0

    def ob(r, ok, msg):
        return ck.ob(r, ok, f.key, '%s %s' % (short(f), msg), f.where)
    def bare(t):
        """(kind, list) of the minimum or maximum over a whole list"""
        x = t.a[0] if t.op == 'fld' and t.a[1] == 'Some.0' else t
        a = cargs(x) if x.op == 'call' else []
        kind = None
        if is_named(x, 'min', 'max') and len(a) == 1:
            kind = x.a[0].split('::')[-1]
        elif is_named(x, 'reduce') and len(a) == 2:
            b = a[1].a[0].a[1] if a[1].op == 'lam' and len(a[1].a) == 1 else None
            n = b.a[0].split('::')[-1] if b is not None and b.op == 'call' else a[1].a[0].split('::')[-1] if a[1].op == 'const' else None
            if b is None or {y.op for y in cargs(b)} == {'bound'} and len(set(cargs(b))) == 2:
                kind = n if n in ('min', 'max') else None
        if kind is None:
            return None, None
        w = rows(a[0])
        return kind, w.el.a[0] if w is not None and w.kind == 'all' and w.el.op == 'elt' else None
    for p in ps:
        if p.outcome != 'return' or any(c.op == 'disc' and v == 'None' and S.path_of(bare(c.a[0])[1] or s, s) in S.lists for c, v in p.clog):
            continue
        for path, t in leaves(p.ret):
            name = path[-1] if path else ''
            if S.path_of(t, s) in S.tables:
                ob('summary.tags', True, '')
                n += 1
                continue
            kind, coll = None, None
            fo = folded(S, t, s, p, ps)
            if fo is not None:
                k, v = fo
                fp = []
                while v.op == 'fld':
                    fp.append(v.a[1])
                    v = v.a[0]
                whole = v is at(item) and tuple(fp[::-1]) == path
                if k == 'union':
                    ob('summary.tags', whole, 'takes %s of the summary from %s' % ('.'.join(path), show(t)[:100]))
                else:
                    ob('summary.bound', whole and name.startswith(k + '_'), 'takes %s of the summary from %s' % ('.'.join(path), show(t)[:100]))
                n += 1
                continue
            r = reduction(t, ps)
            if r and r[0] in ('min', 'max') and r[2] is ITEM:
                kind, coll = r[0], r[1]
            if kind is None:
                kind, coll = bare(t)
            pth = S.path_of(coll, s) if coll is not None else None
            src = S.lists.get(pth)
            # the field of the item that list was filled from
            fp = []
            while src is not None and src.op == 'fld':
                fp.append(src.a[1])
                src = src.a[0]
            want = {'min': 'min', 'max': 'max'}.get(kind)
            ok = src is not None and src.op == 'elt' and tuple(fp[::-1]) == path and want is not None and name.startswith(want + '_')
            ob('summary.bound', ok, 'takes %s of the summary from %s' % ('.'.join(path), show(t)[:100]))
            n += 1
    return n


def P29(ck):
    """Sequences of keys and summaries. For every type that is built by FromIterator and read as a CompactSeq (KeySeq, VecSeq,
    UnitSeq), and for TagIndex: symbolic execution of from_iter gives, for each list field, the entry at position POS as a
    function of the item at POS; the list has one entry for every item. Substituting those entries into what `get(index)`
    returns must reduce to the item itself (struct eta, table[binary_search(table, x)] = x without narrowing below 32 bits), on
    every path; None only where the position is past the end; len is the number of items. The tag table is filled from the
    tags of every item. The summary of a KeySeq takes min_* / max_* as minimum / maximum over the whole list of the same
    field, and the whole tag table."""
    prog = ck.prog
    fns = [f for f in all_fns(prog) if '{closure' not in f.key]
    seqs_ = {}
    for f in fns:
        if f.trait == 'FromIterator' and f.method == 'from_iter':
            seqs_[f.selfty] = f
    n = 0
    for ty, f in sorted(seqs_.items()):
        ms = {g.method: g for g in fns if g.selfty == ty and g.trait == 'CompactSeq'}
        if 'get' not in ms:
            continue
        item = param(f, 0)
        S = build(ck, f, item, 'seq', ty)
        n += 1
        if S is None:
            continue
        read(ck, ms['get'], S, item, 'seq')
        if 'len' in ms:
            check_lens(ck, ms['len'], S, 'seq')
        for g in fns:
            if g.selfty == ty and g.trait == 'Summarizable' and g.method == 'summarize' and S.lists:
                check_summary(ck, g, S, item)
    # the tag index on its own
    tys = {g.selfty: g for g in fns if g.method == 'from_elements' and g.trait is None}
    for ty, f in sorted(tys.items()):
        item = param(f, 0)
        S = build(ck, f, item, 'tags', ty)
        if S is None:
            continue
        for g in fns:
            if g.selfty != ty or g.trait is not None:
                continue
            if g.method == 'get':
                read(ck, g, S, item, 'tags')
            elif g.method == 'as_elements':
                s = param(g, 0)
                for p in ck.run(g):
                    if p.outcome != 'return':
                        continue
                    r = rows(p.ret, p, ck.run(g))
                    got = None
                    if r is not None and r.kind == 'all' and all(length(S, e, s) for e in r.ends):
                        el = r.el
                        m = {at(x): S.lists[S.path_of(x, s)] for x in [x.a[0] for x in find_terms(el, lambda x: x.op == 'elt')] if S.path_of(x, s) in S.lists}
                        got = S.val(subst(el, m), s, mk('sym', 'none'))
                    ck.ob('tags.elements', got is at(item), g.key, '%s does not list the sets the index was built from' % short(g), g.where)
    for r, k in (('seq.build', 3), ('seq.get', 3), ('seq.item', 3), ('seq.len', 3), ('seq.table', 1), ('summary.tags', 1), ('summary.bound', 3), ('tags.build', 1), ('tags.item', 1)):
        ck.floor(r, k)
