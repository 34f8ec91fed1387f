"""P10: packing reuses a prefix of sealed nodes and re-appends exactly the rest."""
import re
from common import *
from facts import *
from write import short, param
from append import node_fns, loaders, callee, callee_ev, phi_updates, strip_node, final_field, ret_ty, NODE
from purge import decoders, encoders, reach, children_of, whole, attr, level_tracking, level_le, item_of, loop_child, skipped_child, over_children

LIST = re.compile(r"&('\w+ )?mut (std::vec::)?Vec<(index::)?Index<")
SLICE = re.compile(r"&('\w+ )?(\[(index::)?Index<|(std::vec::)?Vec<(index::)?Index<)")
OUT = re.compile(r"&('\w+ )?mut (std::vec::)?Vec<.*Option<")


def nodes(f):
    return [i for i, a in enumerate(f.args) if NODE.search(f.locals[a]) and '[' not in f.locals[a] and 'Vec<' not in f.locals[a]]


def lists(f, rx):
    return [i for i, a in enumerate(f.args) if rx.search(f.locals[a])]


def parts(ck, top):
    prog = ck.prog
    r = reach(prog, top)
    fs = [f for f in all_fns(prog) if f.crate == 'banyan' and f.key in r and '{closure' not in f.key and f.trait is None]
    coll = [f for f in fs if lists(f, LIST) and len(nodes(f)) == 1]
    make = [f for f in node_fns(prog) if f.key in r and lists(f, SLICE) and not nodes(f)]
    mks = {f.key for f in make}
    join = [f for f in fs if len(lists(f, LIST)) == 1 and not nodes(f) and reach(prog, [f]) & mks]
    read = [f for f in fs if lists(f, OUT) and len(nodes(f)) == 1]
    return coll, join, make, read


def collectors(ck, coll, opq):
    """a node is taken exactly when it is sealed and not above the level bound; otherwise its children are visited"""
    prog = ck.prog
    keys = {f.key: f for f in coll}
    for f in coll:
        x, res = param(f, nodes(f)[0]), param(f, lists(f, LIST)[0])
        lvs = [param(f, i) for i, a in enumerate(f.args) if 'i32' in f.locals[a]]
        if not ck.ob('anchor', len(lvs) == 1, f.key, '%s: level bound not found' % short(f), f.where):
            continue
        lv = lvs[0]
        ps = ck.run(f, opaque=[o for o in opq if o.key != f.key])
        nrec = 0
        for p in ps:
            for e in p.events:
                g = callee_ev(prog, e) if e.kind == 'call' else None
                if g is not None and g.key in keys:
                    c = e.args[nodes(g)[0]]
                    src, pos = loop_child(c, ps) or (None, None)
                    ok = src is not None and whole(src) is not None and children_of(prog, whole(src), x) is not None
                    ck.ob('child.all', ok, f.key, '%s does not visit all children of the node in order (%s)' % (short(f), show(c)[-80:]), e.where)
                    l = e.args[[i for i, a in enumerate(g.args) if 'i32' in g.locals[a]][0]]
                    ck.ob('child.list', origin(e.args[lists(g, LIST)[0]]) is res and origin(l) is not None and (strip_phi(l) is lv or contains(l, lv)), f.key, '%s visits a child with another list or level bound' % short(f), e.where)
                    nrec += 1
            if p.outcome != 'return' or is_err(p.ret):
                continue
            fin = p.store.get(('O', res))
            fin = flow.erase(fin) if fin is not None else res
            pushed = fin.op == 'mut' and fin.a[0].split('::')[-1] == 'push'
            if pushed:
                ok = fin.a[3] is res and strip_node(fin.a[4]) is x
                ck.ob('taken.node', ok, f.key, '%s takes over something else than the node itself: %s' % (short(f), show(fin)[:120]), f.where)
                sealed = any(attr(t, x, 'sealed') and v is True for t, v in p.clog)
                isleaf = any(t.op == 'disc' and strip_node(t.a[0]) is x and v == 'Leaf' for t, v in p.clog)
                ck.ob('taken.sealed', sealed, f.key, '%s reuses a node that may not be sealed' % short(f), f.where)
                ck.ob('taken.level', all(level_le(fa, x, lv, isleaf) for fa in path_facts(p, ps)), f.key, '%s reuses a node behind or below the level bound' % short(f), f.where)
                level_tracking(ck, f, p, ps, x, lv)
                v = p.store.get(('O', lv))
                ok = v is not None and all(any(fa.le(flow.erase(v), c) for c in level_terms(v, fa, x)) for fa in path_facts(p, ps))
                ck.ob('taken.bound', ok, f.key, '%s: after reusing a node the level bound does not exclude higher nodes' % short(f), f.where)
                continue
            # not taken: the bound must exclude everything of this level or above from now on
            loaded = [t for t, v in p.clog if t.op == 'disc' and v == 'None' and item_of(mk('fld', t.a[0], 'Some.0')) is not None]
            kind = [v for t, v in p.clog if t.op == 'disc' and strip_node(t.a[0]) is x]
            linked = [v for t, v in p.clog if t.op == 'disc' and attr(t.a[0], x, 'link')]
            if kind[:1] == ['Branch'] and linked[:1] == ['Some'] or kind[:1] != ['Leaf'] and linked[:1] != ['None']:
                done = [t for t in loaded if over_children(prog, cargs(t.a[0])[0], x)]
                ck.ob('skip.descend', len(done) >= 1, f.key, '%s neither takes a branch nor visits all its children' % short(f), f.where)
                v = phi_init(p, lv)
            else:
                ck.ob('skip.list', strip_phi(fin) is res, f.key, '%s changes the list of roots for a node it skips: %s' % (short(f), show(fin)[:100]), f.where)
                v = p.store.get(('O', lv))
            v = flow.erase(v) if v is not None else lv
            for fa in path_facts(p, ps):
                sld = any(attr(t, x, 'sealed') and o is True for t, o in p.clog)
                below = any(fa.lt(lv, c) for c in level_terms(v, fa, x))
                ck.ob('skip.bound', fa.le(v, lv) and (below or any(fa.lt(v, c) for c in level_terms(v, fa, x))), f.key,
                      '%s skips a node without lowering the level bound below its level: later nodes could be taken although this one was not' % short(f), f.where)
        ck.ob('child.visited', nrec >= 1, f.key, '%s does not descend into the children' % short(f), f.where)
        sk = skipped_child(prog, ps, x, keys)
        ck.ob('child.skipped', sk is None, f.key, '%s: %s' % (short(f), sk), f.where)


def phi_init(p, lv):
    v = p.store.get(('O', lv))
    if v is None:
        return lv
    v = flow.erase(v)
    while v.op == 'phi':
        v = v.a[2]
    return v


def level_terms(v, fa, x):
    src = [v] + list(fa.lit)
    return [t for s in src for t in subterms(s) if t.op in ('call', 'fld', 'cast') and (attr(t, x, 'level') or t.op == 'cast' and attr(t.a[1], x, 'level'))]


def sl(t):
    """(list, range) of a slice"""
    if t.op == 'slice' or t.op == 'call' and t.a[0] == 'slice':
        a = cargs(t) if t.op == 'call' else list(t.a)
        return (a[0], a[1]) if len(a) == 2 else (a[0], None)
    return None


def rng(t):
    """(start, end) of a Range term"""
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Range':
        return agg_get(t, 'start'), agg_get(t, 'end')
    return None


def joined(ck, v, lst, make):
    """v = list lst with the nodes of one range replaced by the branch made of exactly them -> range term"""
    mk_keys = {f.key: f for f in make}
    if v.op == 'mut' and v.a[0].split('::')[-1] == 'splice' and v.a[3] is lst:
        r, new = v.a[4], v.a[5]
    elif v.op == 'mut' and v.a[0].split('::')[-1] == 'insert' and v.a[3].op == 'mut' and v.a[3].a[0].split('::')[-1] == 'drain' and v.a[3].a[3] is lst:
        r, new = v.a[3].a[4], v.a[5]
        if rng(r) is None or rng(r)[0] is not v.a[4]:
            return None
    else:
        return None
    if new.op in ('iter',):
        new = new.a[0]
    if new.op == 'agg' and new.a[0] in ('Option::Some', '[]') and len(new.a) == 2:
        new = new.a[1].a[1]
    elif is_call(new, 'once', 'iter::once'):
        new = cargs(new)[0]
    n = strip_node(new)
    if n.op == 'fld' and n.a[1] == 'Ok.0' and n.a[0].op == 'call':
        g = callee(ck.prog, n.a[0])
        if g is not None and g.key in mk_keys:
            src = cargs(n.a[0])[lists(g, SLICE)[0]]
            while src.op == 'call' and src.a[0].split('::')[-1] in ('to_vec', 'clone', 'collect'):
                src = cargs(src)[0]
            if sl(src) == (lst, r):
                return r
    return None


def joiners(ck, join, make, opq):
    prog = ck.prog
    keys = {f.key: f for f in join}
    for f in join:
        lst = param(f, lists(f, LIST)[0])
        ps = ck.run(f, opaque=[o for o in opq if o.key != f.key])
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            fin = p.store.get(('O', lst))
            fin = flow.erase(fin) if fin is not None else lst
            g = prog_fn(prog, fin)
            if g is not None and g.key in keys and fin.a[3] is lst:
                ck.ob('join.pass', True, f.key, '', f.where)
                # a position behind which the joining goes on: the rest is not longer than the whole
                continue
            r = joined(ck, fin, lst, make)
            if fin is lst:
                ck.ob('join.same', True, f.key, '', f.where)
                continue
            if not ck.ob('join.range', r is not None, f.key, '%s does not replace a range of nodes by the branch made of exactly these nodes: %s' % (short(f), show(fin)[:160]), f.where):
                continue
            full_or_last(ck, f, p, ps, lst, r)
    ck.floor('join.range', 1)


def prog_fn(prog, t):
    if t.op != 'mut':
        return None
    from append import prog_by_key
    return prog_by_key(prog).get(str(t.a[0]).replace('rec:', ''))


def full_or_last(ck, f, p, ps, lst, r):
    """the joined range is full of nodes of one level, or reaches the end of the list"""
    s = rng(r)
    if s is None:
        s = (agg_get(r, 'start'), None) if r.op == 'agg' and r.a[0].endswith('RangeFrom') else (None, None)
        if s[0] is not None:
            return ck.ob('join.full', True, f.key, '', f.where)
    start, end = s
    cnt = None
    if end is not None:
        ad = addends(end)
        if start in ad:
            ad = list(ad)
            ad.remove(start)
            cnt = ad[0] if len(ad) == 1 else None
    if not ck.ob('join.count', cnt is not None, f.key, '%s joins a range whose length is not evident: %s' % (short(f), show(r)[:100]), f.where):
        return
    for fa in path_facts(p, ps):
        if infeasible(fa):
            continue
        tails = [t for c, v in p.clog for t in find_terms(c, lambda y: is_len(y) and tail_of(cargs(y)[0] if y.op == 'call' else y.a[0], lst, start))]
        tails += [t for t in subterms(cnt) if is_len(t) and tail_of(cargs(t)[0] if t.op == 'call' else t.a[0], lst, start)]
        last = any(fa.le(t, cnt) or min_le(fa, t, cnt) for t in tails)
        runs = [t for c, v in p.clog for t in find_terms(c, lambda y: run_of(y, lst, start))]
        full = any(fa.le(cnt, t) for t in runs + tails_one_level(fa, tails, p, lst, start)) and any(y.op == 'fld' and 'branches' in str(y.a[1]) and fa.le(y, cnt) for y in subterms(cnt))
        ck.ob('join.full', last or full, f.key, '%s may join nodes of different levels, or too few of them, into a branch that is not the last one (range %s)' % (short(f), show(r)[-90:]), f.where)


def infeasible(fa):
    le = fa._bounds()
    for (a, b), w in le.items():
        if w >= 1 and fa.order(b, a) is not None:
            return True
    for t, v in fa.lit.items():
        # an equality that is denied although it follows, or of a term with itself
        if t.op == 'bin' and t.a[0] == 'Eq' and v is False and (t.a[1] is t.a[2] or fa.le(t.a[1], t.a[2]) and fa.le(t.a[2], t.a[1])):
            return True
    return False


def min_le(fa, t, cnt):
    return cnt.op == 'call' and cnt.a[0].split('::')[-1] == 'min' and all(fa.le(t, c) for c in cargs(cnt))


def tail_of(t, lst, start):
    while t.op == 'iter':
        t = t.a[0]
    s = sl(t)
    if s is not None and s[0] is lst and s[1] is not None and s[1].op == 'agg' and s[1].a[0].endswith('RangeFrom'):
        return agg_get(s[1], 'start') is start
    return t is lst and start is INT(0)


def run_of(t, lst, start):
    """number of nodes at the start of the tail that have the level of the first one"""
    if t.op == 'fld' and t.a[1] == 'Some.0' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] == 'position' or \
            t.op == 'fld' and t.a[1] == 'Some.0' and t.a[0].op == 'position':
        a = cargs(t.a[0]) if t.a[0].op == 'call' else list(t.a[0].a)
        return tail_of(a[0], lst, start) and lower(a[1], lst, start)
    if t.op in ('count',) or t.op == 'call' and t.a[0].split('::')[-1] == 'count':
        a = cargs(t)[0] if t.op == 'call' else t.a[0]
        if a.op == 'take_while' and tail_of(a.a[0], lst, start):
            return lower(a.a[1], lst, start, False)
    return False


def lower(l, lst, start, pol=True):
    """the closure says: the level of the element differs from (is lower than) the level of the first element of the tail"""
    alts = lam_dnf(l, ITEM, pol)
    if not alts:
        return False
    for ls in alts:
        if len(ls) != 1:
            return False
        (a, v), = ls.items() if isinstance(ls, dict) else ls
        if a.op != 'bin':
            return False
        x, y = a.a[1], a.a[2]
        def item(t):
            return attr(t, ITEM, 'level')
        def first(t):
            b = cargs(t)[0] if t.op == 'call' and cname(t.a[0], 'Index::level') else None
            return b is not None and b.op == 'fld' and str(b.a[1])[:1] == '[' and flow.Engine._idx.get(b.a[1]) in (INT(0), None) and tail_of(b.a[0], lst, start)
        if a.a[0] == 'Lt' and v is True and item(x) and first(y) or a.a[0] == 'Eq' and v is False and (item(x) and first(y) or item(y) and first(x)):
            continue
        return False
    return True


def tails_one_level(fa, tails, p, lst, start):
    """the whole tail has one level (no element below the first): its length counts"""
    for c, v in p.clog:
        if c.op == 'disc' and v == 'None' and run_of(mk('fld', c.a[0], 'Some.0'), lst, start):
            return tails
    return []


def seeds(ck, t, p, ps, join, make):
    """t = the only node left of a list of roots -> (list of roots as found)"""
    prog = ck.prog
    mk_keys = {f.key: f for f in make}
    t = strip_node(t)
    if t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call':
        g = callee(prog, t.a[0])
        if g is not None and g.key in mk_keys:
            return unjoin(ck, cargs(t.a[0])[lists(g, SLICE)[0]], p, ps, join, None)
    if t.op == 'fld' and str(t.a[1])[:1] == '[' or is_some_of_list(t):
        l = t.a[0] if str(t.a[1])[:1] == '[' else cargs(t.a[0])[0]
        while l.op == 'iter':
            l = l.a[0]
        if l.op == 'upd':
            # a single root that was replaced by the branch above it
            v = seeds(ck, l.a[2], p, ps, join, make)
            w = unjoin(ck, l.a[0], p, ps, join, None)
            return v if v is not None and v is w and single(l.a[0], p, ps) else None
        return unjoin(ck, l, p, ps, join, True)
    return None


def erase_opt(t):
    while t.op == 'call' and t.a[0].split('::')[-1] in ('as_ref', 'cloned', 'clone'):
        t = cargs(t)[0]
    return t


def is_opt(t):
    return t.op == 'call' and t.a[0].split('::')[-1] in ('last', 'first', 'pop', 'next')


def is_some_of_list(t):
    return t.op == 'fld' and t.a[1] == 'Some.0' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] in ('last', 'first', 'pop', 'next')


def single(l, p, ps):
    for fa in path_facts(p, ps):
        n = lenof(l)
        if not any(is_len(t) and (cargs(t)[0] if t.op == 'call' else t.a[0]) is l and fa.le(t, INT(1)) for a in fa.lit for t in subterms(a)):
            return False
    return True


def unjoin(ck, l, p, ps, join, one):
    """l = a list of roots after any number of joining steps -> the list it started from"""
    prog = ck.prog
    keys = {f.key for f in join}
    while sl(l) is not None and sl(l)[1] is None or l.op == 'iter':
        l = sl(l)[0] if sl(l) else l.a[0]
    if one and not single(l, p, ps):
        return None
    seen = 0
    while seen < 8:
        seen += 1
        if l.op == 'phi':
            for q, v in phi_updates(l, ps):
                while v is not l:
                    g = prog_fn(prog, v)
                    if g is None or g.key not in keys:
                        return None
                    v = v.a[3]
            l = l.a[2]
            continue
        g = prog_fn(prog, l)
        if g is not None and g.key in keys:
            l = l.a[3]
            continue
        return l
    return None


def P10(ck):
    """pack: (1) the functions collecting the reusable roots take a node exactly if it is sealed and within the level
    bound and otherwise lower the bound and visit all children in order; (2) the joining functions replace a range of
    the list by the branch built from exactly that range, which is full or reaches the end of the list; (3) pack reads
    the rest from the initial tree at the element count of the joined root, requires all of it to be present and
    appends exactly that to the joined root."""
    prog = ck.prog
    top = ck.find('Transaction::pack')
    coll, join, make, read = parts(ck, top)
    ck.ob('anchor', len(coll) >= 1 and len(join) >= 1 and len(make) >= 1 and len(read) >= 1, 'pack', 'the parts of pack were not found (%d collectors, %d joiners, %d branch builders, %d readers)' % (len(coll), len(join), len(make), len(read)))
    opq = coll + join + [f for f in node_fns(prog) if f.key not in {c.key for c in coll + join} and 'Vec<' not in ret_ty(f)] + loaders(prog) + decoders(prog) + encoders(prog) + read
    collectors(ck, coll, opq)
    joiners(ck, join, make, opq)
    ckeys, rkeys = {f.key: f for f in coll}, {f.key: f for f in read}
    for f in top:
        b = [i for i, a in enumerate(f.args) if 'StreamBuilder<' in f.locals[a]][0]
        tree = param(f, b)
        old = mk('fld', tree, 'root')
        oroot = mk('fld', old, 'Some.0')
        ps = ck.run(f, opaque=[o for o in opq if o.key != f.key])
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            if any(t.op == 'disc' and t.a[0] is old and v == 'None' for t, v in p.clog):
                continue
            new = final_field(p, tree, 'root')
            # the appended part
            app = new
            if app.op == 'agg' and app.a[0] == 'Option::Some':
                app = agg_get(app, '0')
            app = strip_node(app)
            seed, inp = None, None
            g = callee(prog, app.a[0]) if app.op == 'fld' and app.a[1] == 'Ok.0' and app.a[0].op == 'call' else None
            if g is not None and any('Peekable' in g.locals[a] or g.locals[a].strip() in ('I', '&mut I') for a in g.args):
                a = cargs(app.a[0])
                ni = [i for i, z in enumerate(g.args) if NODE.search(g.locals[z])][0]
                ii = [i for i, z in enumerate(g.args) if 'Peekable' in g.locals[z] or g.locals[z].strip() in ('I', '&mut I')][0]
                seed, inp = a[ni], a[ii]
            else:
                seed = new
            seed = erase_opt(seed)
            if seed.op != 'agg':
                w = [v for t, v in p.clog if t.op == 'disc' and t.a[0] is seed]
                seed = flow.NONE if w[:1] == ['None'] else (mk('fld', seed, 'Some.0') if g is not None and inp is None or is_opt(seed) or w else seed)
            none = seed.op == 'agg' and seed.a[0] == 'Option::None'
            if seed.op == 'agg' and seed.a[0] == 'Option::Some':
                seed = agg_get(seed, '0')
            # ---- seed: the joined roots of the initial tree
            if none:
                ls = [cargs(t.a[0])[0] for t, v in p.clog if t.op == 'disc' and v == 'None' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] in ('last', 'first', 'pop', 'next')]
                ls = [(l.a[0] if l.op == 'iter' else l) for l in ls]
                ls = [unjoin(ck, l.a[0] if l.op == 'upd' else l, p, ps, join, False) for l in ls]
                ls = [l for l in ls if l is not None and prog_fn(prog, l) is not None and prog_fn(prog, l).key in ckeys]
                roots = ls[-1] if ls else None
            else:
                roots = seeds(ck, seed, p, ps, join, make)
            ok = roots is not None and roots.op == 'mut' and prog_fn(prog, roots) is not None and prog_fn(prog, roots).key in ckeys
            if ck.ob('pack.roots', ok, f.key, '%s: the new root (%s) is not the one node left of the joined roots of the tree' % (short(f), show(seed)[:140]), f.where):
                c = prog_fn(prog, roots)
                ev = [e for e in p.events if e.kind == 'call' and callee_ev(prog, e) is not None and callee_ev(prog, e).key == c.key]
                e = ev[0]
                li = lists(c, LIST)[0]
                ok = len(ev) == 1 and strip_node(e.args[nodes(c)[0]]) is oroot and e.args[li].op == 'call' and e.args[li].a[0].split('::')[-1] in ('empty', 'new', 'with_capacity')
                ck.ob('pack.whole', ok, f.key, '%s does not collect the roots of the whole tree into an empty list' % short(f), e.where)
                lv = [e.args[i] for i, z in enumerate(c.args) if 'i32' in c.locals[z]]
                ck.ob('pack.level', lv == [INT(2147483647)], f.key, '%s starts collecting roots with a level bound of %s' % (short(f), ', '.join(show(z) for z in lv)), e.where)
            # ---- the rest, read from the initial tree at the end of the reused part
            evs = [e for e in p.events if e.kind == 'call' and callee_ev(prog, e) is not None and callee_ev(prog, e).key in rkeys]
            if not ck.ob('rest.read', len(evs) == 1, f.key, '%s succeeds without reading the rest of the tree' % short(f), f.where):
                continue
            e = evs[0]
            g = callee_ev(prog, e)
            off = [e.args[i] for i, z in enumerate(g.args) if g.locals[z].strip() == 'u64']
            ok = strip_node(e.args[nodes(g)[0]]) is oroot
            ck.ob('rest.tree', ok, f.key, '%s reads the rest from another tree than the one it was given' % short(f), e.where)
            if none:
                ok = off == [INT(0)]
            else:
                ok = len(off) == 1 and off[0].op == 'call' and cname(off[0].a[0], 'Index::count') and strip_node(cargs(off[0])[0]) is strip_node(seed)
            ck.ob('rest.offset', ok, f.key, '%s reads the rest from %s, which is not the number of elements in the reused part' % (short(f), show(off[0])[-80:] if off else 'nowhere'), e.where)
            # all present, else an error
            col = [t for t, v in p.clog if t.op == 'disc' and v == 'Some' and all_present(t.a[0], rkeys, prog)]
            lp = [] if col else [l for l in collected(p, ps, rkeys, prog)]
            if not ck.ob('rest.present', len(col) >= 1 or len(lp) >= 1, f.key, '%s does not insist that every element behind the reused part is present' % short(f), f.where):
                continue
            lst = mk('fld', col[0].a[0], 'Some.0') if col else lp[0]
            if inp is None:
                ok = any(t.op == 'disc' and v == 'None' and t.a[0].op in ('call', 'peek') and contains(t.a[0], lst) for t, v in p.clog) or \
                    any(contains(t, lst) and (t.op in ('is_empty',) or t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty') and v is True for t, v in p.clog)
                ck.ob('rest.appended', ok, f.key, '%s succeeds without appending the rest of the tree' % short(f), f.where)
            else:
                src = inp
                while src is not lst and src.op in ('iter', 'phi', 'mut', 'peekable') or src.op == 'call' and src.a[0].split('::')[-1] in ('peekable', 'into_iter', 'by_ref'):
                    src = src.a[2] if src.op == 'phi' else (src.a[3] if src.op == 'mut' else (src.a[0] if src.op != 'call' else cargs(src)[0]))
                ck.ob('rest.appended', src is lst, f.key, '%s appends %s instead of all elements behind the reused part' % (short(f), show(inp)[:120]), f.where)
    for r, n in (('taken.node', 1), ('taken.sealed', 1), ('skip.bound', 2), ('child.all', 1), ('pack.roots', 2), ('rest.offset', 2), ('rest.appended', 2), ('rest.present', 2), ('join.full', 2)):
        ck.floor(r, n)


def collected(p, ps, rkeys, prog):
    """list built by a loop that takes every element of the list the reader filled, and fails on an absent one"""
    out = []
    for l in {y for t, v in p.clog for y in find_terms(t, lambda y: y.op == 'phi')} | {y for e in p.events for a in e.args for y in find_terms(a, lambda y: y.op == 'phi')}:
        if not (l.a[2].op == 'call' and l.a[2].a[0].split('::')[-1] in ('empty', 'new', 'with_capacity')):
            continue
        ups = phi_updates(l, ps)
        ok = len(ups) > 0
        for q, v in ups:
            if not (v.op == 'mut' and v.a[0].split('::')[-1] == 'push' and v.a[3] is l):
                ok = False
                break
            it = v.a[4]
            if it.op == 'agg':      # a tuple taken apart and put together again
                src = {y.a[0] for f in it.a[1:] for y in [f.a[1]] if y.op == 'fld'}
                it = src.pop() if len(src) == 1 else it
            e = it.a[0] if it.op == 'fld' and it.a[1] == 'Some.0' else None
            s = item_of(e) if e is not None else None
            s = whole(s) if s is not None else None
            g = prog_fn(prog, s) if s is not None else None
            if s is not None and s.op == 'call' and s.a[0].split('::')[-1] in ('empty', 'new'):
                continue    # a round that never happens
            ok = ok and g is not None and g.key in rkeys and not any(t.op == 'filtered' for t, v in q.clog)
        if ok:
            out.append(l)
    return out


def all_present(t, rkeys, prog):
    """collect::<Option<Vec>> over the list the reader filled"""
    if t.op == 'call' and t.a[0].split('::')[-1] in ('collect_Option',) or t.op == 'collect_Option':
        s = cargs(t)[0] if t.op == 'call' else t.a[0]
        while s.op == 'iter':
            s = s.a[0]
        g = prog_fn(prog, s)
        return g is not None and g.key in rkeys and s.a[3].op == 'call' and s.a[3].a[0].split('::')[-1] in ('empty', 'new', 'with_capacity')
    return False
