"""P07, P08: branch metadata and sealing."""
from common import *
from facts import *
from crypto import put_roots, callgraph, PUT


def core_node(b):
    """the node a payload (`Some(x)`, `Index::Branch(x)`, a box) belongs to"""
    b = strip_phi(b)
    while b.op in ('fld', 'erase', 'er') and (b.op != 'fld' or str(b.a[1]) in ('0', 'Branch', 'Branch.0')):
        b = strip_phi(b.a[0])
    return b


def struct_update(a):
    """BranchIndex { link, ..old }: every field that describes the children is that of one existing node"""
    bases = []
    for fl in ('count', 'level', 'sealed', 'summaries', 'key_bytes', 'value_bytes'):
        v = agg_get(a, fl)
        if v is None:
            continue
        v = strip_phi(v)
        while v.op == 'call' and v.a[0].split('::')[-1] == 'clone':
            v = strip_phi(cargs(v)[0])
        if v.op == 'fld' and v.a[1] == fl:
            bases.append(v.a[0])
        elif v.op == 'call' and v.a[0].split('::')[-1] == fl and len(cargs(v)) == 1 and v.a[0].split('::')[-2:-1] in (['Index'], ['BranchIndex']):
            bases.append(cargs(v)[0])
        else:
            return False
    return bool(bases) and len({core_node(b) for b in bases}) == 1


def branch_builders(ck):
    """functions that produce a new BranchIndex from a list of children (climbing to the callers
    when the constructor only stores its parameters or asks a caller-supplied predicate)"""
    prog = ck.prog
    cg = callgraph(prog)
    work = [f for f in constructors(prog, 'BranchIndex') if f.trait is None and f.crate == 'banyan']
    out, seen = [], set()
    while work:
        f = work.pop(0)
        if f.key in seen:
            continue
        seen.add(f.key)
        ps = ck.run(f)
        rows = []
        up = copies = False
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            for a in find_terms(p.ret, lambda x: x.op == 'agg' and x.a[0] == 'BranchIndex'):
                if struct_update(a):
                    copies = True
                    continue      # an existing node with another link, not a new one
                rows.append((p, a))
                for fl in a.a[1:]:
                    if fl.a[1].op == 'sym' and fl.a[0] in ('count', 'level', 'sealed', 'summaries'):
                        up = True
                    if fl.a[0] == 'sealed' and is_call(fl.a[1], 'apply'):
                        up = True
        if copies and not rows:
            continue
        if up:
            cs = [g for g in cg.get(f.key, ()) if g.key not in seen and g.crate == 'banyan']
            work.extend(cs)
            # the constructor is still analysed for everything but the open fields
            out.append((f, ps, rows, True))
        else:
            out.append((f, ps, rows, False))
    return out


def encoded_children(ps):
    """collections whose elements are serialised into the block on these paths"""
    out = []
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and any(cname(e.name, n) for n in ('WriteCbor::write_cbor', 'write_cbor', 'Codec::encode')):
                for a in e.args:
                    for x in find_terms(a, lambda x: x.op == 'fld' and x.a[1] == 'Some.0' and is_call(x.a[0], 'Iterator::next', 'next')):
                        it = unphi(cargs(x.a[0])[0])
                        out.append(it.a[0] if it.op == 'iter' else it)
                    u = unphi(a)
                    if u.op in ('sym', 'phi'):
                        out.append(u)
    return out


SPEC = {'count': ('sum', 'count'), 'value_bytes': ('sum', 'value_bytes'), 'summaries': ('collect', 'summarize')}


def P07(ck):
    """every construction of a branch index: level one above the maximum over the children, count, value bytes and key bytes
    the sums over the children (plus the length of the own block for the key bytes), one summary per child in order, the
    link that of the block in which exactly this list of children was stored or from which it was decoded; the functions
    creating an index from children and from a block agree field by field."""
    n = 0
    for f, ps, rows, up in branch_builders(ck):
        enc = encoded_children(ps)
        for p, a in rows:
            coll = None
            link = agg_get(a, 'link')
            if link is not None and link.op == 'agg' and link.a[0] == 'Option::None':
                continue
            n += 1
            cs = []
            for fld, (kind, acc) in SPEC.items():
                v = agg_get(a, fld)
                if v is None or (up and v.op == 'sym'):
                    continue
                r = reduction(v, ps)
                ok = r is not None and r[0] == kind and acc_of(r[2]) == acc
                ck.ob('branch.%s' % fld, ok, f.key, '%s: branch field `%s` is %s, not the %s of the children\'s %s' % (short(f), fld, show(v)[:120], kind, acc), f.where)
                if ok:
                    cs.append((fld, r[1]))
            lv = agg_get(a, 'level')
            if lv is not None and not (up and lv.op == 'sym'):
                ad = addends(lv)
                rest = [x for x in ad if x is not INT(1)]
                r = reduction(rest[0], ps) if len(rest) == 1 and len(ad) == 2 else None
                ok = r is not None and r[0] == 'max' and acc_of(r[2]) == 'level'
                ck.ob('branch.level', ok, f.key, '%s: branch level is %s, not one more than the highest child level' % (short(f), show(lv)[:120]), f.where)
                if ok:
                    cs.append(('level', r[1]))
            kb = agg_get(a, 'key_bytes')
            blk = block_of(p, link)
            if kb is not None and not (up and kb.op == 'sym'):
                ad = addends(kb)
                red, oth = [], []
                for x in ad:
                    r = reduction(x, ps)
                    if r is None:
                        # the accumulation may start from the rest
                        sf = sum_from(x, ps)
                        r = sf and sf[0]
                        oth += addends(sf[1]) if sf else [x]
                    if r:
                        red.append(r)
                ok = len(red) == 1 and red[0][0] == 'sum' and acc_of(red[0][2]) == 'key_bytes' and len(oth) == 1
                ck.ob('branch.key_bytes', ok, f.key, '%s: branch key bytes are %s, not the sum of the children\'s key bytes plus the size of the block' % (short(f), show(kb)[:120]), f.where)
                if ok:
                    cs.append(('key_bytes', red[0][1]))
                    o = oth[0]
                    okb = blk is not None and is_len(o) and strip_phi(cargs(o)[0]) is strip_phi(blk)
                    ck.ob('branch.block_size', okb, f.key, '%s: the size added for the branch itself (%s) is not the size of the block stored under its link' % (short(f), show(o)[:120]), f.where)
            # one collection, and it is the one in the block
            ref = cs[0][1] if cs else None
            for fld, c in cs:
                ck.ob('branch.same_children', same(c, ref), f.key + ':' + fld, '%s: `%s` summarises a different list of children than `%s`' % (short(f), fld, cs[0][0]), f.where)
            if ref is not None:
                put = [e for e in ev_calls(p, *PUT)]
                if put:
                    okc = any(same(c, ref) or same(strip_iter(c), strip_iter(ref)) for c in enc)
                    ck.ob('branch.children_stored', okc, f.key, '%s: the children summarised in the index are not the children written to the block' % short(f), f.where)
    ck.floor('branch.count', 5)
    ck.floor('branch.level', 5)
    ck.floor('branch.summaries', 5)
    ck.floor('branch.key_bytes', 5)
    ck.floor('branch.block_size', 5)
    leaf_index(ck)


def strip_iter(t):
    while t.op in ('iter', 'phi'):
        t = t.a[0] if t.op == 'iter' else t.a[2]
    return t


def short(f):
    return f.key.split('::', 1)[1] if '::' in f.key else f.key


def block_of(p, link):
    """the bytes stored under / loaded from the link"""
    if link is None or link.op != 'agg' or link.a[0] != 'Option::Some':
        return None
    l = link.a[1].a[1]
    for e in p.events:
        if e.kind == 'call' and cname(e.name, 'BlockWriter::put') and l.op == 'fld' and l.a[1] == 'Ok.0' and l.a[0] is e.res:
            return e.args[1]
        if e.kind == 'call' and cname(e.name, 'ReadOnlyStore::get') and any(strip_phi(x) is strip_phi(l) for x in e.args):
            return mk('fld', e.res, 'Ok.0')
    return None


def leaf_index(ck):
    """a new leaf's index: keys and sealed flag from the fill, size of the compressed data, link of the block"""
    prog = ck.prog
    for f in constructors(prog, 'LeafIndex'):
        if f.trait is not None or f.crate != 'banyan':
            continue
        ps = ck.run(f, opaque=prog.find('ZstdDagCborSeq::fill') + prog.find('ZstdDagCborSeq::fill_ipld'))
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            for a in find_terms(p.ret, lambda x: x.op == 'agg' and x.a[0] == 'LeafIndex'):
                blk = block_of(p, agg_get(a, 'link'))
                ck.ob('leaf.link', blk is not None, f.key, '%s: the leaf link is not the link returned for the block just stored' % short(f), f.where)
                fills = [e for e in p.events if e.kind == 'call' and cname(e.name, 'fill') or e.kind == 'call' and cname(e.name, 'fill_ipld') or e.kind == 'call' and 'ZstdDagCborSeq::fill' in e.name]
                if not ck.ob('leaf.fill', len(fills) == 1, f.key, '%s: expected exactly one fill of the compressed sequence per leaf, found %d' % (short(f), len(fills)), f.where):
                    continue
                res = mk('fld', fills[0].res, 'Ok.0')
                seq, full = mk('fld', res, '0'), mk('fld', res, '1')
                ck.ob('leaf.sealed', agg_get(a, 'sealed') is full, f.key, '%s: a leaf is sealed by %s, not by the full flag of its fill' % (short(f), show(agg_get(a, 'sealed'))[:100]), f.where)
                vb = agg_get(a, 'value_bytes')
                okv = is_len(vb) and origin_fld(cargs(vb)[0]) is seq
                ck.ob('leaf.value_bytes', okv, f.key, '%s: value bytes are %s, not the length of the compressed data' % (short(f), show(vb)[:100]), f.where)
                ks = agg_get(a, 'keys')
                okk = contains(ks, fills[0].res) or mentions(ks, lambda x: x.op == 'mut' and 'fill' in x.a[0])
                ck.ob('leaf.keys', okk, f.key, '%s: the stored keys %s are not the key list extended by the fill' % (short(f), show(ks)[:100]), f.where)
                if blk is not None:
                    ck.ob('leaf.data', contains(blk, seq), f.key, '%s: the stored block does not contain the filled sequence' % short(f), f.where)
    ck.floor('leaf.sealed', 1)
    ck.floor('leaf.value_bytes', 1)
    ck.floor('leaf.data', 1)


def origin_fld(t):
    t = unphi(t)
    while t.op == 'fld' and t.a[1] in ('data',):
        t = unphi(t.a[0])
    return t


# --------------------------------------------------------------------------
def limit_field(f):
    return f
LIM1, LIMN = 'max_key_branches', 'max_summary_branches'


def is_limit(t, name):
    t = unphi(t)
    return t.op == 'fld' and t.a[1] == name


def limits_in(f, name):
    out = set()
    for a in list(f.lit) :
        for x in find_terms(a, lambda x: is_limit(x, name)):
            out.add(x)
    return out


def level_is_one(f, lv, coll=None):
    """does the path know whether a branch of level `lv` is of level 1?  True/False/None"""
    t1, t0 = [lv], []
    m = None
    ad = addends(lv)
    if INT(1) in ad and len(ad) == 2:
        m = [x for x in ad if x is not INT(1)]
        t0 += m
    t0.append(mk('bin', 'Sub', lv, INT(1)))
    for a, v in f.lit.items():
        if a.op == 'bin' and a.a[0] == 'Eq':
            x, y = a.a[1], a.a[2]
            if (x is INT(1) and y in t1) or (y is INT(1) and x in t1) or (x is INT(0) and y in t0) or (y is INT(0) and x in t0):
                return v
            if coll is not None and INT(0) in (x, y):
                o = y if x is INT(0) else x
                if is_call(o, 'Index::level') and cargs(o)[0].op in ('fld', 'at') and same(cargs(o)[0].a[0], coll):
                    return v
        if a.op == 'bin' and a.a[0] == 'Lt':
            if a.a[1] in t1 and a.a[2] is INT(2) or a.a[1] in t0 and a.a[2] is INT(1):
                return v
            if a.a[1] is INT(1) and a.a[2] in t1 or a.a[1] is INT(0) and a.a[2] in t0:
                if a.a[1] is INT(0) and not v:
                    return True
                if a.a[1] is INT(1):
                    return not v
                return False if v else True
    return None


def counted_to(p, ps, ph, want, fa):
    """for _ in list.len()..limit { list.push(..) }: one more element per round, from the length at the start"""
    from append import phi_updates
    for c, v in p.clog:
        if c.op != 'disc' or v != 'Some' or not is_call(c.a[0], 'Iterator::next', 'next'):
            continue
        r = unphi(cargs(c.a[0])[0])
        r = r.a[0] if r.op == 'iter' else r
        if r.op != 'agg' or r.a[0].split('::')[-1] != 'Range':
            continue
        lo, hi = agg_get(r, 'start'), agg_get(r, 'end')
        ups = phi_updates(ph, ps)
        once = ups and all(is_mut(u, 'push', 'Vec::push') and u.a[3] is ph for q, u in ups)
        if is_len(lo) and cargs(lo)[0] is ph.a[2] and is_limit(hi, want) and once:
            return True
    return False



def P08(ck):
    """sealed => every child sealed, exactly one level below, and count >= limit(level); not sealed => one of these fails.
    Branch construction never goes beyond limit(level)."""
    prog = ck.prog
    builders = []
    for f, ps, rows, up in branch_builders(ck):
        for p, a in rows:
            sv = agg_get(a, 'sealed')
            if sv is None or is_call(sv, 'apply') or sv.op == 'sym':
                continue
            if find_terms(p.ret, lambda x: x.op == 'agg' and x.a[0] == 'Tree'):
                continue      # read-only snapshot: the flag is never written back
            lv = agg_get(a, 'level')
            sm = reduction(agg_get(a, 'summaries'), ps)
            if not ck.ob('sealed.children', sm is not None, f.key, '%s: cannot relate the branch to its children' % short(f), f.where):
                continue
            coll = sm[1]
            wl = [mk('bin', 'Sub', lv, INT(1))] + ([x for x in addends(lv) if x is not INT(1)] if len(addends(lv)) == 2 else [])
            req = [(mk('call', 'index::Index::sealed', None, ITEM), True)]
            iss = [mk('call', n, None, ITEM) for n in ('Index::sealed', 'index::Index::sealed')]
            ilv = [mk('call', n, None, ITEM) for n in ('Index::level', 'index::Index::level')]
            n = lenof(coll)
            for fa, val in bool_rows(p, ps, sv):
                one = level_is_one(fa, lv, coll)
                lim = None
                ls = [x for nm in (LIM1, LIMN) for x in limits_in(fa, nm)]
                use = [x for x in ls if fa.order(x, n) is not None or fa.order(n, x) is not None]
                sealed_ok = any(fa.all_of(coll, a0, True) for a0 in iss)
                level_ok = any(fa.all_of(coll, mk_eq(a0, w), True) for a0 in ilv for w in wl)
                if val:
                    ck.ob('sealed.children-sealed', sealed_ok, f.key, '%s marks a branch sealed without every child known to be sealed' % short(f), f.where)
                    ck.ob('sealed.children-level', level_ok, f.key, '%s marks a branch sealed without every child known to be exactly one level below' % short(f), f.where)
                    lo = [x for x in use if fa.le(x, n)]
                    want = LIM1 if one else LIMN
                    ck.ob('sealed.full', one is not None and any(is_limit(x, want) for x in lo), f.key + (':1' if one else ':n'),
                          '%s marks a level %s branch sealed although its child count is not known to reach %s' % (short(f), '1' if one else '>1', want), f.where)
                else:
                    r1 = any(fa.refuted(coll, [(a0, True)]) for a0 in iss) or any(fa.refuted(coll, [(a0, True), (mk_eq(b0, w), True)]) for a0 in iss for b0 in ilv for w in wl)
                    r2 = any(fa.refuted(coll, [(mk_eq(b0, w), True)]) for b0 in ilv for w in wl)
                    want = LIM1 if one else LIMN
                    r3 = one is not None and any(is_limit(x, want) and fa.lt(n, x) for x in ls)
                    ck.ob('unsealed.reason', r1 or r2 or r3, f.key, '%s leaves a branch unsealed although all children may be sealed, one level below, and at the limit' % short(f), f.where)
        if any(e for p in ps for e in ev_calls(p, *PUT)):
            builders.append(f)
    ck.floor('sealed.full', 6)
    ck.floor('unsealed.reason', 8)
    # ---- number of children
    if not ck.ob('limit.builder', bool(builders), 'none', 'no function stores a branch built from children'):
        return
    cg = callgraph(prog)
    nloop = nslice = 0
    for b in builders:
        for g in cg.get(b.key, ()):
            ps = ck.run(g, opaque=[b] + prog.find('Transaction::fill_node') + [g2 for g2 in cg.get(b.key, ()) if g2.key != g.key])
            evs = [(p, e) for p in ps for e in p.events if e.kind == 'call' and any(cname(e.name, s) for s in (b.key, short(b), b.method or b.key))]
            kidx = child_arg(b)
            phis = set()
            for p, e in evs:
                c = e.args[kidx]
                for x in find_terms(c, lambda x: x.op == 'phi'):
                    phis.add(x)
                u = unphi(c)
                if is_call(u, 'slice') and u.a:
                    rg = cargs(u)[1]
                    nslice += 1
                    slice_limit(ck, g, p, ps, u, rg)
            for p in ps:
                if p.outcome != 'loop':
                    continue
                for k, v in (p.updates or {}).items():
                    grown = [x for x in find_terms(v, lambda x: is_mut(x, 'push', 'Vec::push') and x.a[3] in phis)]
                    for x in grown:
                        nloop += 1
                        fs = path_facts(p, ps)
                        n = lenof(x.a[3])
                        lvl = level_param(g)
                        for fa in fs:
                            one = level_is_one(fa, lvl)
                            want = LIM1 if one else LIMN
                            ok = one is not None and (any(is_limit(l, want) and fa.lt(n, l) for l in limits_in(fa, want))
                                                     or counted_to(p, ps, x.a[3], want, fa))
                            ck.ob('limit.grow', ok, g.key + (':1' if one else ':n'), '%s adds a child to a level %s branch without the child count being below %s' % (short(g), '1' if one else '>1', want), g.where)
    ck.floor('limit.grow', 2)
    ck.floor('limit.slice', 4)


def mk_eq(a, b):
    return lits(mk('bin', 'Eq', a, b))[0]


def child_arg(b):
    for i, a in enumerate(b.args):
        t = b.locals[a]
        if 'Index<' in t and ('[' in t or 'Vec<' in t or 'Arc<' in t):
            return i
    return 1


def level_param(g):
    """the parameter that carries the level of the node under construction"""
    for i, a in enumerate(g.args):
        if g.locals[a].strip() == 'u32':
            return param(g, i)
    return INT(0)


def param(g, i):
    nm = None
    for n, v in g.debug.items():
        if '_%d' % g.args[i] in v:
            nm = n
    return mk('sym', nm or 'arg%d' % g.args[i])


def slice_limit(ck, g, p, ps, u, rg):
    """new branch from roots[from..from+count]: count within the limit of the level of the first of them"""
    base = cargs(u)[0]
    lo, hi = agg_get(rg, 'start'), agg_get(rg, 'end')
    if rg.op != 'agg' or lo is None or hi is None:
        ck.ob('limit.slice', False, g.key, '%s builds a branch from a range of roots that is not bounded: %s' % (short(g), show(rg)[:120]), g.where)
        return
    cnt = [x for x in addends(hi) if x is not lo]
    cnt = cnt[0] if len(cnt) == 1 else None
    firsts = find_terms(mk('agg', 'x', *[mk('f', 'c', c) for c, v in p.clog]), lambda x: is_call(x, 'Index::level') and cargs(x)[0].op == 'fld')
    for fa in path_facts(p, ps):
        one = None
        for a, v in fa.lit.items():
            if a.op == 'bin' and a.a[0] == 'Eq' and INT(0) in (a.a[1], a.a[2]):
                o = a.a[2] if a.a[1] is INT(0) else a.a[1]
                if o in firsts:
                    one = v
        want = LIM1 if one else LIMN
        ok = cnt is not None and one is not None and any(fa_le(fa, cnt, l) for l in find_terms(mk('agg', 'x', mk('f', 'c', cnt), *[mk('f', 'c', c) for c, v in p.clog]), lambda x: is_limit(x, want)))
        ck.ob('limit.slice', ok, g.key + (':1' if one else ':n'), '%s builds a branch of level %s from %s children, not known to be within %s' % (short(g), '1' if one else '>1', show(cnt)[:100] if cnt is not None else '?', want), g.where)


def fa_le(fa, a, b):
    g = fa.copy()
    # make min/max operands visible
    g.lit.setdefault(mk('bin', 'Eq', a, a), True)
    return g.le(a, b)
