"""P11, P12: what retain and repair may forget."""
import re
from common import *
from facts import *
from write import short, param
from append import node_fns, ret_ty, callee, callee_ev, prog_by_key, phi_updates, strip_node, final_field, NODE, loaders
from crypto import callgraph, PUT


# ---- shared vocabulary ------------------------------------------------------
def attr(t, x, name):
    """t is the metadata `name` of node x"""
    if t is None:
        return False
    if t.op == 'call' and t.a[0].endswith('Index::' + name):
        return strip_node(cargs(t)[0]) is strip_node(x)
    return t.op == 'fld' and t.a[1] == name and strip_node(t.a[0]) is strip_node(x)


def node_like(t, x):
    """t is node x, or a field-by-field copy of it in which only the link may differ"""
    t = strip_node(t)
    if t is strip_node(x):
        return True
    if t.op == 'agg' and t.a[0] in ('BranchIndex', 'LeafIndex'):
        return all(attr(f.a[1], x, f.a[0]) for f in t.a[1:] if f.a[0] != 'link')
    if t.op == 'upd' and t.a[1] == 'link':
        return node_like(t.a[0], x)
    return False


def link_of(t):
    """the link of a returned node"""
    t = strip_node(t)
    if t.op == 'agg' and t.a[0] in ('BranchIndex', 'LeafIndex'):
        return agg_get(t, 'link')
    if t.op == 'upd' and t.a[1] == 'link':
        return t.a[2]
    return mk('call', 'Index::link', None, t)


def link_sources(t, x):
    return [y for y in subterms(t) if attr(y, x, 'link')]


def head_call(t):
    while t.op in ('fld', 'phi'):
        t = t.a[0] if t.op == 'fld' else t.a[2]
    return t


def children_of(prog, t, x):
    """the loading call when t is the child list in the block behind x's own link"""
    while True:
        if t.op == 'phi':
            t = t.a[2]
        elif t.op == 'iter' or t.op == 'slice' and len(t.a) == 1:
            t = t.a[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('to_vec', 'iter', 'deref', 'as_ref', 'collect', 'cloned', 'into'):
            t = cargs(t)[0]
        else:
            break
    h = head_call(t)
    if h.op != 'call' or h is t:
        return None
    g = callee(prog, h)
    if g is not None and re.search(r'Vec<(index::)?Index<|index::Branch<', ret_ty(g)):
        if any(link_sources(a, x) for a in cargs(h)):
            return h
    return None


def decoders(prog):
    """functions that decode a list of nodes from the bytes of a block"""
    return [f for f in all_fns(prog) if f.crate == 'banyan' and re.search(r'Vec<(index::)?Index<', ret_ty(f)) and any('[u8]' in f.locals[a] for a in f.args)]


def encoders(prog):
    """functions that encode a list of nodes to the bytes of a block"""
    return [f for f in all_fns(prog) if f.crate == 'banyan' and re.search(r'Vec<u8>', ret_ty(f)) and any(re.search(r'\[(index::)?Index<', f.locals[a]) for a in f.args)]


def scan_offsets(ck, t):
    """scan(iter, start, closure) that pairs every child with its own offset -> (iter source, start, field of child, field of offset)"""
    prog = ck.prog
    t = unphi(t)
    while t.op in ('enumerate', 'iter'):
        t = unphi(t.a[0])
    if t.op != 'scan':
        return None
    cl = t.a[2]
    f = prog.by_closure.get(cl.a[0]) if cl.op == 'agg' else None
    if f is None:
        return None
    ps = ck.run(f)
    st, it = param(f, 1), param(f, 2)
    rows = [p for p in ps if p.outcome == 'return']
    out = None
    for p in rows:
        r = p.ret
        if not (r.op == 'agg' and r.a[0] == 'Option::Some'):
            return None
        r = agg_get(r, '0')
        if r.op != 'agg' or len(r.a) != 3:
            return None
        ch = [x.a[0] for x in r.a[1:] if strip_node(x.a[1]) is it]
        of = [x.a[0] for x in r.a[1:] if x.a[1] is st]
        fin = p.store.get(('O', st))
        ad = addends(flow.erase(fin)) if fin is not None else []
        ok = len(ch) == 1 and len(of) == 1 and len(ad) == 2 and st in ad and any(attr(a, it, 'count') for a in ad)
        if not ok:
            return None
        out = (ch[0], of[0])
    return (t.a[0], t.a[1]) + out if out else None


def item_of(t):
    """next(it).Some.0 -> it"""
    if t.op == 'fld' and t.a[1] == 'Some.0' and is_call(t.a[0], 'Iterator::next', 'next'):
        return cargs(t.a[0])[0]
    return None


def position(ck, o, c, base, ps):
    """child term c (of a loop over a child list) is visited with offset o = base + counts of the children before it.
    Returns the iterated list, or None."""
    if c.op == 'fld':
        it = item_of(c.a[0])
        if it is not None:
            s = scan_offsets(ck, it)
            if s and c.a[1] == s[2] and o.op == 'fld' and o.a[0] is c.a[0] and o.a[1] == s[3] and strip_phi(s[1]) is base:
                return s[0]
            return None
    it = child_items(c, ps)
    if it is not None and o.op == 'phi' and o.a[2] is base:
        ups = phi_updates(o, ps)
        for p, v in ups:
            ad = addends(v)
            if not (len(ad) == 2 and o in ad and any(attr(a, c, 'count') for a in ad)):
                return None
        n = [p for p in ps if p.outcome == 'loop' and p.loopkey is not None and p.loopkey[1:] == o.a[0][1:]]
        if ups and len({id(p) for p, v in ups}) == len([p for p in n if any(x is o for cc, vv in p.clog for x in subterms(cc)) or any(e.args and o in e.args for e in p.events if e.kind == 'call')]):
            return it
    return None


def loop_child(c, ps):
    """a child term of a loop over a list -> (the iterated source, terms that denote its position)"""
    it = item_of(c)
    if it is not None:
        return it, [mk('idx', c)]
    if c.op == 'fld' and item_of(c.a[0]) is not None:
        return item_of(c.a[0]), [mk('idx', c.a[0]), mk('idx', c)]
    if c.op == 'fld':
        k = index_term(c.a[1]) if str(c.a[1]).startswith('[') else None
        coll = c.a[0]
        if k is None:
            return None
        r = item_of(k)
        r = unphi(r) if r is not None else None
        if r is not None and r.op == 'agg' and r.a[0].split('::')[-1].startswith('Range') and agg_get(r, 'start') is INT(0):
            e = agg_get(r, 'end')
            if is_len(e) and same(cargs(e)[0], coll):
                return coll, [k]
        if k.op == 'phi' and k.a[2] is INT(0):
            ups = phi_updates(k, ps)
            if ups and all(sorted(addends(v), key=lambda z: z.id) == sorted([k, INT(1)], key=lambda z: z.id) for p, v in ups):
                if any(g and same(g[0], coll) and g[1] is k for p in ps for cc, v in p.clog if v is True for g in [counted(cc)]):
                    return coll, [k]
    return None


def over_children(prog, src, x):
    """iterator over all children of x, or over all their positions"""
    w = whole(src)
    if w is not None and children_of(prog, w, x) is not None:
        return True
    r = unphi(src)
    e = agg_get(r, 'end') if r.op == 'agg' and r.a[0].split('::')[-1].startswith('Range') and agg_get(r, 'start') is INT(0) else None
    return e is not None and is_len(e) and children_of(prog, cargs(e)[0], x) is not None


def skipped_child(prog, ps, x, keys):
    """a round of a loop over the children of x that does not hand the child to one of the functions -> reason or None"""
    for p in ps:
        its = []
        for t, v in p.clog:
            if t.op == 'disc' and v == 'Some' and is_call(t.a[0], 'Iterator::next', 'next'):
                it = mk('fld', t.a[0], 'Some.0')
                if over_children(prog, cargs(t.a[0])[0], x):
                    its.append(it)
        for it in its:
            if any(t.op == 'filtered' and any(y is it for y in subterms(t)) for t, v in p.clog):
                return 'some children are filtered out'
            if p.outcome == 'loop':
                hit = False
                for e in p.events:
                    g = callee_ev(prog, e) if e.kind == 'call' else None
                    if g is not None and g.key in keys and any(contains(a, it) or any(str(y.a[1]).startswith('[') and index_term(y.a[1]) is it for y in subterms(a) if y.op == 'fld') for a in e.args):
                        hit = True
                if not hit:
                    return 'some children are passed over'
    return None


def child_items(c, ps=()):
    """iterated source for a child term"""
    r = loop_child(c, ps)
    return r[0] if r else None


def link_equal(p, a, b):
    """the path established that nodes a and b have the same link"""
    for t, v in p.clog:
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and (v is True) == (t.a[0] == 'Eq'):
            l, r = t.a[1], t.a[2]
            if attr(l, a, 'link') and attr(r, b, 'link') or attr(l, b, 'link') and attr(r, a, 'link'):
                return True
    return False


def rewritten(ck, f, lst, coll, ps, rec):
    """list `lst` is `coll` with each child either kept or replaced by its own result of the recursive call.
    rec(v) -> the child the value v was computed from, or None.  Returns an error text or None."""
    lst0 = lst
    while lst.op == 'iter' or lst.op == 'slice' and len(lst.a) == 1:
        lst = lst.a[0]
    if lst.op != 'phi':
        r = reduction(lst, ps)
        if r and r[0] == 'collect' and rec(r[2]) is ITEM:
            return None
        return 'the stored list %s is not built child by child' % show(lst)[:100]
    init = lst.a[2]
    ups = phi_updates(lst, ps)
    loops = [p for p in ps if p.outcome == 'loop' and p.loopkey is not None and p.loopkey[1:] == lst.a[0][1:]]
    if init.op == 'call' and init.a[0].split('::')[-1] in ('empty', 'new', 'with_capacity'):
        for p, v in ups:
            if not (v.op == 'mut' and v.a[0].split('::')[-1] == 'push' and v.a[3] is lst):
                return 'a round of the loop over the children does not add exactly one child'
            c = rec(v.a[4])
            if c is None:
                c = strip_node(v.a[4])
                r = [e.res for e in p.events if e.kind == 'call' and e.res is not None and rec(mk('fld', e.res, 'Ok.0')) is c]
                if not r or not any(link_equal(p, mk('fld', x, 'Ok.0'), c) for x in r):
                    return 'a child whose link has changed is written back in its old form'
        if len({id(p) for p, v in ups}) != len({id(p) for p in loops if touches(p, lst)}):
            return 'a round of the loop over the children adds nothing'
        return None
    for p, v in ups:
        if v is lst:
            continue
        if not (v.op == 'upd' and v.a[0] is lst):
            return 'a round of the loop over the children changes the list in another way than replacing one child'
        i = index_term(v.a[1])
        c = rec(v.a[2])
        if c is None:
            return 'a child is replaced by %s' % show(v.a[2])[:100]
        lc = loop_child(c, ps)
        if i is None or lc is None or not any(i is k for k in lc[1]):
            return 'the result for one child is stored at the position of another'
    done = {id(p) for p, v in ups if v is not lst}
    for p in loops:
        if id(p) in done:
            continue
        for e in p.events:
            if e.kind == 'call' and e.res is not None:
                n = mk('fld', e.res, 'Ok.0')
                c = rec(n)
                if c is not None and contains_phi(p, lst) and not link_equal(p, n, c):
                    return 'a child whose link has changed may be written back in its old form'
    return None


def touches(p, ph):
    return True


def contains_phi(p, ph):
    return True


def flag_sound(p, ps, lst):
    """a path that keeps the old link although children were revisited: the flag it tested is raised in
    every round that replaces a child"""
    flags = [t for t, v in p.clog if t.op == 'phi' and v is False]
    for fl in flags:
        ups = {id(q): v for q, v in phi_updates(fl, ps)}
        ok = True
        for q, v in phi_updates(lst, ps):
            if v is not lst and ups.get(id(q)) is not TRUE_:
                ok = False
        if ok:
            return True
    return False


TRUE_ = flow.BOOL(True)


def reach(prog, tops):
    cg = callgraph(prog)
    down = {}
    for k, cs in cg.items():
        for c in cs:
            down.setdefault(c.key, set()).add(k)
    seen, work = set(), [f.key for f in tops]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        work += list(down.get(k, ()))
    return seen


def rewriters(ck, top):
    """node functions below a public operation that take one node and return its replacement"""
    prog = ck.prog
    r = reach(prog, top)
    out = []
    for f in node_fns(prog):
        if f.key in r and any('StreamBuilderState' in f.locals[a] for a in f.args):
            xs = [i for i, a in enumerate(f.args) if NODE.search(f.locals[a]) and '[' not in f.locals[a] and 'Vec<' not in f.locals[a]]
            if len(xs) == 1:
                out.append((f, xs[0]))
    return out


def rec_child(prog, fns, v):
    """v = result of a rewriting function for a child -> (function, args, child)"""
    if v.op == 'fld' and v.a[1] == 'Ok.0' and v.a[0].op == 'call':
        g = callee(prog, v.a[0])
        for f, i in fns:
            if g is not None and g.key == f.key:
                return f, cargs(v.a[0]), cargs(v.a[0])[i]
    return None


def unmatched(p, x, f):
    """literal: the query, asked about x at offset o over all its elements, matched nothing -> (query, offset, polarity)"""
    out = []
    for t, v in p.clog:
        if not isinstance(v, bool):
            continue
        m = t
        if is_call(m, 'any') or m.op == 'any':
            neg = v
        else:
            continue
        src = m.a[0] if m.op == 'any' else cargs(m)[0]
        while src.op == 'iter':
            src = src.a[0]
        plain = True
        q = src
        if not (q.op == 'mut' and q.a[0].split('::')[-1] in ('containing', 'intersecting')):
            continue
        out.append((q, neg))
    return out


def purge_query(ck, f, p, x, kind):
    """check the query literal of a path; returns (matched?, error)"""
    for q, m in unmatched(p, x, f):
        return q, m
    return None, None


def P11(ck):
    """retain: on every path of the node-rewriting functions below Transaction::retain, a link is dropped only under
    (sealed, packed part, nothing of the node matched by the caller's query at the node's own offset); everything else
    of the node is kept; every child is revisited at its own offset and stored back at its own place."""
    prog = ck.prog
    top = ck.find('Transaction::retain')
    fns = rewriters(ck, top)
    ck.ob('anchor', len(fns) >= 1, 'retain', 'no function rewrites nodes below Transaction::retain')
    opq = decoders(prog) + encoders(prog) + [f for f, i in fns]
    rec = lambda v: (lambda r: r[2] if r else None)(rec_child(prog, fns, v))
    for f, xi in fns:
        x = param(f, xi)
        offs = [param(f, i) for i, a in enumerate(f.args) if f.locals[a].strip() == 'u64']
        qs = [param(f, i) for i, a in enumerate(f.args) if re.fullmatch(r"&('\w+ )?[A-Z]\w*", f.locals[a].strip())]
        lvs = [param(f, i) for i, a in enumerate(f.args) if 'i32' in f.locals[a]]
        if not ck.ob('anchor', len(offs) == 1 and len(qs) == 1, f.key, '%s: offset and query parameters not found' % short(f), f.where):
            continue
        off, query = offs[0], qs[0]
        ps = ck.run(f, opaque=[o for o in opq if o.key != f.key])
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            r = agg_get(p.ret, '0') if is_ok(p.ret) else p.ret
            ck.ob('node.kept', node_like(r, x), f.key, '%s returns a node that differs from the given one in more than its link: %s' % (short(f), show(r)[:140]), f.where)
            if lvs:
                level_tracking(ck, f, p, ps, x, lvs[0])
            l = link_of(r)
            kept = attr(l, x, 'link')
            linked = [v for t, v in p.clog if t.op == 'disc' and attr(t.a[0], x, 'link')]
            none = l.op == 'agg' and l.a[0] == 'Option::None'
            rows = unmatched(p, x, f)
            if none and linked[:1] != ['None']:
                facts = path_facts(p, ps)
                sealed = any(attr(t, x, 'sealed') and v is True for t, v in p.clog)
                ck.ob('purge.sealed', sealed, f.key, '%s forgets a node on a path that has not established that it is sealed' % short(f), f.where)
                q = [q for q, m in rows if m is False]
                ck.ob('purge.unmatched', len(q) >= 1, f.key, '%s forgets a node on a path that has not established that the query matches none of its elements' % short(f), f.where)
                for q1 in q[:1]:
                    query_call(ck, f, q1, x, query, off, p)
                if lvs:
                    lv = mk('cast', 'i32', mk('call', 'Index::level', None, x))
                    isleaf = any(t.op == 'disc' and strip_node(t.a[0]) is x and v == 'Leaf' for t, v in p.clog)
                    ok = all(level_le(fa, x, lvs[0], isleaf) for fa in facts)
                    ck.ob('purge.packed', ok, f.key, '%s forgets a node outside of the packed part (its level is not checked against the level bound)' % short(f), f.where)
            elif kept and linked[:1] != ['None']:
                # the node keeps its block although it might be unmatched: one of the reasons must hold
                no = any(attr(t, x, 'sealed') and v is False for t, v in p.clog) or any(m for q, m in rows) or \
                    any(v is True and t.op == 'bin' and t.a[0] == 'Lt' and any(contains(t, z) or contains(t, mk('call', 'Index::level', None, x)) for z in lvs) for t, v in p.clog)
                ck.ob('purge.done', no, f.key, '%s keeps the block of a node that is sealed and does not match' % short(f), f.where)
            isbranch = [v for t, v in p.clog if t.op == 'disc' and strip_node(t.a[0]) is x]
            put = l.op == 'agg' and l.a[0] == 'Option::Some' and not kept
            if put:
                items = stored_items(ck, l)
                if not ck.ob('branch.items', items is not None, f.key, '%s: the new link %s is not that of a stored list of nodes' % (short(f), show(l)[:100]), f.where):
                    continue
                src = items
                err = rewritten(ck, f, items, None, ps, rec)
                ck.ob('branch.rewritten', err is None, f.key, '%s: %s' % (short(f), err), f.where)
                base = base_list(items, ps)
                ck.ob('branch.own', base is not None and children_of(prog, base, x) is not None, f.key, '%s writes back a list that is not the child list of the node' % short(f), f.where)
            elif kept and isbranch[:1] == ['Branch'] and linked[:1] == ['Some']:
                lsts = [t for q in ps for (root, path), v in (q.updates or {}).items() for t in find_terms(v, lambda y: y.op == 'upd' and y.a[0].op == 'phi') if q.outcome == 'loop']
                if lsts and any(t.op == 'phi' and isinstance(v, bool) for t, v in p.clog):
                    ok = any(flag_sound(p, ps, t.a[0]) for t in lsts)
                    ck.ob('branch.flag', ok, f.key, '%s keeps the old block of a branch although a child may have changed' % short(f), f.where)
        if lvs:
            level_threaded(ck, f, ps, x, lvs[0], fns)
        # recursion: every child, at its own offset, with the same query
        nrec = 0
        for p in ps:
            for e in p.events:
                if e.kind != 'call':
                    continue
                g = callee_ev(prog, e)
                m = [(h, i) for h, i in fns if g is not None and h.key == g.key]
                if not m:
                    continue
                h, hi = m[0]
                hoffs = [i for i, a in enumerate(h.args) if h.locals[a].strip() == 'u64']
                hq = [i for i, a in enumerate(h.args) if re.fullmatch(r"&('\w+ )?[A-Z]\w*", h.locals[a].strip())]
                c, o, q = e.args[hi], e.args[hoffs[0]], e.args[hq[0]]
                if strip_node(c) is strip_node(x):
                    ck.ob('child.offset', origin(o) is off and q is query, f.key, '%s passes the node on with another offset or query' % short(f), f.where)
                    nrec += 1
                    continue
                nrec += 1
                src = position(ck, o, c, off, ps)
                ck.ob('child.offset', src is not None, f.key, '%s visits a child with an offset (%s) that is not the node\'s offset plus the sizes of the children before it' % (short(f), show(o)[-80:]), e.where)
                ck.ob('child.query', strip_phi(q) is query, f.key, '%s visits a child with another query' % short(f), e.where)
                if src is not None:
                    ck.ob('child.all', whole(src) is not None and children_of(prog, whole(src), x) is not None, f.key, '%s does not visit all children of the node' % short(f), e.where)
        ck.ob('child.visited', nrec >= 1, f.key, '%s does not descend into the children' % short(f), f.where)
        sk = skipped_child(prog, ps, x, {g.key for g, i in fns})
        ck.ob('child.skipped', sk is None, f.key, '%s: %s' % (short(f), sk), f.where)
    top_root(ck, top[0], fns, 'retain')
    for r, n in (('purge.sealed', 2), ('purge.unmatched', 2), ('purge.query', 2), ('child.offset', 1), ('node.kept', 4), ('branch.rewritten', 1), ('root.set', 1), ('purge.done', 2)):
        ck.floor(r, n)


def level_tracking(ck, f, p, ps, x, lv):
    """the level bound never rises, and drops below the level of every unsealed node"""
    fin = p.store.get(('O', lv))
    v = origin(flow.erase(fin)) if fin is not None else lv
    while v.op == 'lammut':     # a closure run any number of times: each run hands the bound on to the walk
        step = v.a[1]
        if origin(step) is not origin(v.a[0]) or step.op != 'mut':
            break
        v = origin(v.a[0])
    uns = any(attr(t, x, 'sealed') and o is False for t, o in p.clog)
    sld = any(attr(t, x, 'sealed') and o is True for t, o in p.clog)
    for fa in path_facts(p, ps):
        ck.ob('level.lowered', fa.le(v, lv), f.key, '%s may raise the level bound of the packed part to %s' % (short(f), show(v)[:80]), f.where)
        if not sld:
            cand = [t for t in subterms(v) if t.op == 'cast' and attr(t.a[1], x, 'level') or attr(t, x, 'level')]
            ck.ob('level.unsealed', uns and any(fa.lt(v, c) for c in cand), f.key, '%s: below or behind an unsealed node the level bound (%s) does not exclude its level' % (short(f), show(v)[:80]), f.where)


def level_threaded(ck, f, ps, x, lv, fns):
    """the children are visited with one level bound: each visit starts from what the visit of the child before it left,
    and what the last one left is what the caller gets"""
    prog, loops = ck.prog, []
    for p in ps:
        if p.outcome != 'loop':
            continue
        for e in p.events:
            g = callee_ev(prog, e) if e.kind == 'call' else None
            m = [h for h, i in fns if g is not None and h.key == g.key]
            if not m:
                continue
            li = [i for i, a in enumerate(m[0].args) if 'i32' in m[0].locals[a]]
            if not li or '&mut' not in m[0].locals[m[0].args[li[0]]]:
                continue
            b = e.args[li[0]]
            left = [u for u in (p.updates or {}).values() if u.op == 'mut' and u.a[3] is b]
            ck.ob('level.threaded', b.op == 'phi' and len(left) >= 1, f.key, '%s visits a child with a level bound (%s) that does not take the children before it into account' % (short(f), show(b)[:80]), e.where)
            if b.op == 'phi':
                loops.append(b.a[0])
    # the bound may come back through the caller's own bound only: which memory it was in does not matter
    for p in ps:
        if p.outcome != 'return' or is_err(p.ret) or not loops:
            continue
        if not any(z.op == 'phi' and z.a[0] in loops for t, v in p.clog for z in subterms(t)):
            continue
        fin = p.store.get(('O', lv))
        ok = fin is not None and any(z.op == 'phi' and z.a[0] in loops for z in subterms(flow.erase(fin)))
        ck.ob('level.handed', ok, f.key, '%s does not hand on the level bound that the visit of its children left' % short(f), f.where)


def level_le(fa, x, lv, isleaf):
    cand = [t for a in list(fa.lit) for t in subterms(a) if t.op in ('call', 'fld', 'cast') and (attr(t, x, 'level') or t.op == 'cast' and attr(t.a[1], x, 'level'))]
    if isleaf:
        cand.append(INT(0))
    return any(fa.le(c, lv) for c in cand)


def whole(t):
    """the list behind an iterator that yields all of it"""
    t = unphi(t)
    while t.op in ('iter', 'enumerate') or t.op == 'call' and t.a[0].split('::')[-1] in ('iter', 'cloned', 'copied', 'into_iter'):
        t = unphi(t.a[0] if t.op in ('iter', 'enumerate') else cargs(t)[0])
    if t.op in ('take', 'skip', 'filter', 'rev', 'step_by', 'take_while', 'skip_while', 'chain', 'filter_map', 'zip'):
        return None
    return t


def base_list(lst, ps):
    while lst.op in ('iter',):
        lst = lst.a[0]
    if lst.op == 'phi':
        i = lst.a[2]
        if i.op == 'call' and i.a[0].split('::')[-1] in ('empty', 'new', 'with_capacity'):
            for p, v in phi_updates(lst, ps):
                for y in subterms(v):
                    it = child_items(y, ps)
                    if it is not None:
                        it = unphi(it)
                        while it.op in ('scan', 'enumerate', 'iter'):
                            it = unphi(it.a[0])
                        return whole(it)
            return None
        return i
    r = reduction(lst, ps)
    return r[1] if r else None


def stored_items(ck, l):
    """the list of nodes in the block a link refers to"""
    v = l.a[1].a[1]
    enc = {f.key: f for f in encoders(ck.prog)}
    hits = []
    for t in find_terms(v, lambda t: t.op == 'call'):
        g = callee(ck.prog, t)
        if g is not None and g.key in enc:
            i = [i for i, a in enumerate(g.args) if re.search(r'\[(index::)?Index<', g.locals[a])][0]
            hits.append(cargs(t)[i])
    hits = [h for h in hits]
    return hits[0] if hits and head_call(v).op == 'call' and head_call(v).a[0].endswith('put') else None


def query_call(ck, f, q, x, query, off, p):
    """q = Query::containing/intersecting!k(old, query, offset, index)"""
    args = q.a[4:]
    old = q.a[3]
    ok = len(args) >= 3 and args[0] is query and args[1] is off and node_like(args[2], x)
    ck.ob('purge.query', ok, f.key, '%s asks the query about another node or at another offset than the one it forgets: %s' % (short(f), show(q)[:160]), f.where)
    name = q.a[0].split('::')[-1]
    kinds = [v for t, v in p.clog if t.op == 'disc' and strip_node(t.a[0]) is strip_node(x)]
    ck.ob('purge.kind', kinds[:1] == ['Leaf' if name == 'containing' else 'Branch'], f.key, '%s uses `%s` for the wrong kind of node' % (short(f), name), f.where)
    # the mask starts out all true with one entry per element
    ok = old.op == 'call' and old.a[0].split('::')[-1] == 'from_elem' and cargs(old)[0] is flow.BOOL(True)
    n = cargs(old)[1] if ok else None
    ok2 = ok and n.op == 'call' and n.a[0].split('::')[-1] in ('len', 'count') and any(attr(cargs(n)[0], x, k) for k in ('keys', 'summaries')) 
    ok2 = ok2 or ok and attr(n, x, 'count') and name == 'containing'
    ck.ob('purge.mask', ok2, f.key, '%s asks the query with a mask (%s) that does not cover all elements of the node' % (short(f), show(old)[:80]), f.where)


def top_root(ck, top, fns, what):
    """the public operation installs the rewritten root (and only on success)"""
    prog = ck.prog
    b = [i for i, a in enumerate(top.args) if 'StreamBuilder<' in top.locals[a]]
    if not ck.ob('anchor', len(b) == 1, top.key, '%s has no stream builder argument' % short(top), top.where):
        return
    tree = param(top, b[0])
    ps = ck.run(top, opaque=[f for f, i in fns])
    old = mk('fld', tree, 'root')
    for p in ps:
        if p.outcome != 'return':
            continue
        new = final_field(p, tree, 'root')
        if is_err(p.ret):
            ck.ob('root.onerror', new is old, top.key, '%s fails but has changed the root' % short(top), top.where)
            continue
        none = any(t.op == 'disc' and t.a[0] is old and v == 'None' for t, v in p.clog)
        if none:
            ck.ob('root.none', new is old or new.op == 'agg' and new.a[0] == 'Option::None', top.key, '%s gives an empty tree a root' % short(top), top.where)
            continue
        r = agg_get(new, '0') if new.op == 'agg' and new.a[0] == 'Option::Some' else new
        rc = rec_child(prog, fns, r)
        ok = rc is not None and strip_node(rc[2]) is mk('fld', old, 'Some.0')
        if ok and what == 'retain':
            f, args, c = rc
            o = [args[i] for i, a in enumerate(f.args) if f.locals[a].strip() == 'u64']
            q = [args[i] for i, a in enumerate(f.args) if re.fullmatch(r"&('\w+ )?[A-Z]\w*", f.locals[a].strip())]
            qt = [param(top, i) for i, a in enumerate(top.args) if re.fullmatch(r"&('\w+ )?[A-Z]\w*", top.locals[a].strip())]
            ok = o == [INT(0)] and q == qt
        ck.ob('root.set', ok, top.key, '%s: the new root (%s) is not the old root as rewritten by this call' % (short(top), show(new)[:120]), top.where)


def load_errs(p, x, fns, prog):
    """outcomes of the fallible steps of the path other than rewriting children and storing: [(term, outcome)]"""
    out = []
    for t, v in p.clog:
        if t.op == 'disc' and v in ('Ok', 'Err'):
            h = t.a[0]
            g = callee(prog, h) if h.op == 'call' else None
            if g is not None and g.key in {f.key for f, i in fns} | {f.key for f in encoders(prog)}:
                continue
            if h.op == 'call' and cname(h.a[0], 'BlockWriter::put'):
                continue
            out.append((t, v))
    return out


def P12(ck):
    """repair: a node's link is dropped exactly on the paths on which loading its own block from the store (not from
    the cache) has failed, and a report line naming it is added; everything else is kept and every child is visited."""
    prog = ck.prog
    top = ck.find('Transaction::repair')
    fns = rewriters(ck, top)
    ck.ob('anchor', len(fns) >= 1, 'repair', 'no function rewrites nodes below Transaction::repair')
    ld = [f for f in loaders(prog) if mir.type_head(ret_ty(f)) == 'Result' and 'Option<' not in ret_ty(f)]
    lk = {f.key: 'Cache' in ' '.join(reach(prog, [f])) for f in ld}
    opq = decoders(prog) + encoders(prog) + [f for f, i in fns] + ld
    rec = lambda v: (lambda r: r[2] if r else None)(rec_child(prog, fns, v))
    for f, xi in fns:
        x = param(f, xi)
        reps = [param(f, i) for i, a in enumerate(f.args) if 'Vec<' in f.locals[a] and 'String' in f.locals[a]]
        if not ck.ob('anchor', len(reps) == 1, f.key, '%s: report parameter not found' % short(f), f.where):
            continue
        rep = reps[0]
        ps = ck.run(f, opaque=[o for o in opq if o.key != f.key])
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            r = agg_get(p.ret, '0') if is_ok(p.ret) else p.ret
            ck.ob('node.kept', node_like(r, x), f.key, '%s returns a node that differs from the given one in more than its link: %s' % (short(f), show(r)[:140]), f.where)
            l = link_of(r)
            kept = attr(l, x, 'link')
            linked = [v for t, v in p.clog if t.op == 'disc' and attr(t.a[0], x, 'link')]
            none = l.op == 'agg' and l.a[0] == 'Option::None'
            les = load_errs(p, x, fns, prog)
            failed = any(v == 'Err' for t, v in les)
            if linked[:1] == ['None']:
                ck.ob('purged.kept', none or kept, f.key, '%s gives a purged node a block' % short(f), f.where)
                continue
            lds = [e for e in p.events if e.kind == 'call' and callee_ev(prog, e) is not None and callee_ev(prog, e).key in lk]
            tried = [e for e in p.events if e.kind == 'call' and (cname(e.name, 'ReadOnlyStore::get') or e in lds) and any(link_sources(a, x) for a in e.args)]
            ck.ob('load.tried', len(tried) >= 1, f.key, '%s decides about a node without reading its block from the store' % short(f), f.where)
            cached = [e for e in lds if lk[callee_ev(prog, e).key]] + [e for e in p.events if e.kind == 'call' and re.search(r'(BranchCache|BranchCache<.*>)::(get|with)', e.name)] + \
                [t for t, v in p.clog if any(y.op == 'call' and 'Cache' in y.a[0] for y in subterms(t))]
            ck.ob('load.uncached', not cached, f.key, '%s may take a node from the cache instead of reading its block' % short(f), f.where)
            if none:
                ck.ob('forget.failed', failed, f.key, '%s forgets a node whose block could be loaded' % short(f), f.where)
                fin = p.store.get(('O', rep))
                fin = flow.erase(fin) if fin is not None else None
                ok = fin is not None and fin.op == 'mut' and origin(fin) is rep and pushes(fin, x)
                ck.ob('forget.reported', ok, f.key, '%s forgets a node without naming its link in the report' % short(f), f.where)
            else:
                ck.ob('failed.forgotten', not failed, f.key, '%s keeps a node whose block could not be loaded' % short(f), f.where)
            put = l.op == 'agg' and l.a[0] == 'Option::Some' and not kept
            if put:
                items = stored_items(ck, l)
                if not ck.ob('branch.items', items is not None, f.key, '%s: the new link %s is not that of a stored list of nodes' % (short(f), show(l)[:100]), f.where):
                    continue
                err = rewritten(ck, f, items, None, ps, rec)
                ck.ob('branch.rewritten', err is None, f.key, '%s: %s' % (short(f), err), f.where)
                base = base_list(items, ps)
                ck.ob('branch.own', base is not None and children_of(prog, base, x) is not None, f.key, '%s writes back a list that is not the child list of the node' % short(f), f.where)
            elif kept:
                lsts = [t for q in ps for (root, path), v in (q.updates or {}).items() for t in find_terms(v, lambda y: y.op == 'upd' and y.a[0].op == 'phi') if q.outcome == 'loop']
                if lsts and any(t.op == 'phi' and isinstance(v, bool) for t, v in p.clog):
                    ok = any(flag_sound(p, ps, t.a[0]) for t in lsts)
                    ck.ob('branch.flag', ok, f.key, '%s keeps the old block of a branch although a child may have changed' % short(f), f.where)
        nrec = 0
        for p in ps:
            for e in p.events:
                if e.kind != 'call':
                    continue
                g = callee_ev(prog, e)
                m = [(h, i) for h, i in fns if g is not None and h.key == g.key]
                if not m:
                    continue
                h, hi = m[0]
                nrec += 1
                ck.ob('child.report', any(origin(a) is rep for a in e.args), f.key, '%s repairs a child with another report' % short(f), e.where)
                c = e.args[hi]
                if strip_node(c) is strip_node(x):
                    continue
                src = child_items(c, ps)
                ok = src is not None and whole(src) is not None and children_of(prog, whole(src), x) is not None
                ck.ob('child.all', ok, f.key, '%s does not visit all children of the node' % short(f), e.where)
        ck.ob('child.visited', nrec >= 1, f.key, '%s does not descend into the children' % short(f), f.where)
        sk = skipped_child(prog, ps, x, {g.key for g, i in fns})
        ck.ob('child.skipped', sk is None, f.key, '%s: %s' % (short(f), sk), f.where)
    top_root(ck, top[0], fns, 'repair')
    # the report reaches the caller
    f = top[0]
    ps = ck.run(f, opaque=[g for g, i in fns])
    for p in ps:
        if p.outcome == 'return' and is_ok(p.ret):
            calls = [e for e in p.events if e.kind == 'call' and callee_ev(prog, e) is not None and callee_ev(prog, e).key in {g.key for g, i in fns}]
            r = agg_get(p.ret, '0')
            ok = not calls or any(is_mutated_by(r, e) for e in calls)
            ck.ob('report.returned', ok, f.key, '%s returns %s, not the report of the repair' % (short(f), show(r)[:80]), f.where)
    for r, n in (('forget.failed', 2), ('forget.reported', 2), ('load.uncached', 4), ('load.tried', 4), ('branch.rewritten', 1), ('child.all', 1), ('root.set', 1), ('report.returned', 1), ('failed.forgotten', 2)):
        ck.floor(r, n)


def pushes(m, x):
    """one of the lines added to the report names the link of x"""
    while m.op in ('mut', 'phi'):
        if m.op == 'phi':
            m = m.a[2]
            continue
        if m.a[0].split('::')[-1] in ('push', 'extend', 'insert') and any(link_sources(a, x) for a in m.a[4:]):
            return True
        m = m.a[3]
    return False


def is_mutated_by(r, e):
    r = unphi(r)
    while r.op == 'mut':
        if r.a[0].replace('rec:', '') == e.name.replace('rec:', '') or r.a[0].endswith(e.name.split('::')[-1]):
            return True
        r = unphi(r.a[3])
    return False
