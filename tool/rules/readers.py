"""P14 (get, collect), P16 (the public readers), P20 (data of a chunk)."""
import re
from common import *
from facts import *
from write import short, param
from append import ret_ty, strip_node, callee, phi_updates
from purge import attr, item_of, loop_child, whole
from atomic import is_pub
from traverse import (machines, ctors, opaques, lin, diff, elem, uncast, info_src, info_terms, of_info, count_of, children_behind,
                      frames_of, variant_of)
import flow


# ---- shared ------------------------------------------------------------------
def seq_fns(prog):
    """accessors of a leaf block and of key sequences"""
    out = []
    for f in all_fns(prog):
        if f.crate != 'banyan' or '{closure' in f.key:
            continue
        if f.selfty and mir.type_head(f.selfty) == 'ZstdDagCborSeq' and f.method in ('get', 'items', 'select', 'count'):
            out.append(f)
        if f.traitdefault and f.trait == 'CompactSeq' and f.method in ('to_vec', 'select'):
            out.append(f)
        if re.search(r'Result<(\w+::)*Leaf,', ret_ty(f)) and any('LeafLoader<' in f.locals[a] for a in f.args):
            out.append(f)
    return out


def kind_of(p, x):
    """-> (info term, variant or set of excluded variants) of node x on the path"""
    for c, v in p.conds.items():
        if c.op == 'disc' and info_src(c.a[0]) is strip_node(x):
            return c.a[0], v
    return None, None


def is_purged(v):
    return v in ('PurgedBranch', 'PurgedLeaf') or isinstance(v, frozenset) and {'Branch', 'Leaf'} <= v


def errs(p):
    return [c.a[0] for c, v in p.clog if c.op == 'disc' and v == 'Err']


def node_param(f):
    r = [param(f, i) for i, a in enumerate(f.args) if re.match(r"&('\w+ )?(\w+::)*Index<", f.locals[a].strip())]
    return r[0] if len(r) == 1 else None


def off_param(f):
    r = [param(f, i) for i, a in enumerate(f.args) if f.locals[a].strip() == 'u64']
    return r[0] if len(r) == 1 else None


def rec_args(f, t):
    """(node, offset, list) arguments of a recursive call"""
    a = cargs(t) if isinstance(t, T) else t
    n = [a[i] for i, l in enumerate(f.args) if re.match(r"&('\w+ )?(\w+::)*Index<", f.locals[l].strip())]
    o = [a[i] for i, l in enumerate(f.args) if f.locals[l].strip() == 'u64']
    return n[0], o[0]


def is_rec(f, name):
    n = name.replace('rec:', '')
    return n == f.key or n == short(f) or '::'.join(f.key.split('::')[-2:]) == n


def next_child(p, info):
    """child terms drawn on this path from a loop over all children of the node, and whether the loop ended"""
    kids, ended = [], False
    for c, v in p.clog:
        if c.op == 'disc' and is_call(c.a[0], 'Iterator::next', 'next'):
            w = whole(cargs(c.a[0])[0])
            if w is not None and children_behind(w, [info]):
                if v == 'Some':
                    kids.append(mk('fld', c.a[0], 'Some.0'))
                elif v == 'None':
                    ended = True
    for c, v in p.clog:
        k = counted(c) if isinstance(v, bool) else None
        if k and children_behind(k[0], [info]):
            if v:
                kids += [x for x in kid_terms(p, k[0], k[1])]
            else:
                ended = True
        # `while i < n` over a range
        if c.op == 'disc' and is_call(c.a[0], 'Iterator::next', 'next'):
            r = unphi(cargs(c.a[0])[0])
            e = agg_get(r, 'end') if r.op == 'agg' and r.a[0].split('::')[-1].startswith('Range') and agg_get(r, 'start') is INT(0) else None
            if e is not None and is_len(e) and children_behind(cargs(e)[0], [info]):
                if v == 'Some':
                    kids += kid_terms(p, cargs(e)[0], mk('fld', c.a[0], 'Some.0'))
                else:
                    ended = True
    return kids, ended


def kid_terms(p, coll, idx):
    out = []
    ts = [c for c, v in p.clog] + [a for e in p.events if e.kind == 'call' for a in e.args] + ([p.ret] if p.ret is not None else [])
    for t in ts:
        for x in subterms(t):
            e = elem(x)
            if e and same(e[0], coll) and e[1] is idx and x not in out:
                out.append(x)
    return out


def running(o, base, kid, ps, info, exact):
    """offset term o starts at base and is reduced by the count of every child passed before.
    exact: a round may only reduce it when it is at least that count; otherwise it is clamped at 0"""
    if o is base:
        return False
    if o.op != 'phi' or o.a[2] is not base:
        return False
    ups = phi_updates(o, ps)
    if not ups:
        return False
    for p, v in ups:
        kids, e = next_child(p, info)
        if not kids:
            return False
        ok = False
        for k in kids:
            for fa in path_facts(p, ps):
                d = diff(v, o)
                cnt = mk('call', 'index::Index::count', None, k)
                sub = len(d) == 1 and list(d.values()) == [-1] and count_of(list(d)[0], k, p)
                ge = any(fa.le(x, o) for x in counts_in(p, k))
                lt = any(fa.lt(o, x) for x in counts_in(p, k))
                sat = v.op == 'call' and v.a[0].split('::')[-1] == 'saturating_sub'
                if sub and (sat or ge):
                    ok = True
                elif v is INT(0) and lt:
                    ok = True
                elif sub and not exact:
                    ok = sat
                else:
                    ok = False
                    break
            if ok:
                break
        if not ok:
            return False
    return True


def counts_in(p, k):
    """terms on the path that denote the count of node k"""
    out = []
    for c, v in p.clog:
        for x in subterms(c):
            if count_of(x, k, p) and x not in out:
                out.append(x)
    return out


def range_state(p, ps, x, o):
    """is offset o known to be inside / outside of node x on this path"""
    fs = path_facts(p, ps)
    cs = counts_in(p, x)
    inside = bool(cs) and all(any(f.lt(o, c) for c in cs) for f in fs)
    outside = bool(cs) and all(any(f.le(c, o) for c in cs) for f in fs)
    return inside, outside


# ---- P14 ---------------------------------------------------------------------
def key_at(t, info, o):
    """key of the leaf at position o"""
    while t.op == 'fld' and t.a[1] in ('Some.0',):
        t = t.a[0]
    return t.op == 'call' and t.a[0].endswith('CompactSeq::get') and cargs(t)[0] is mk('fld', mk('fld', info, 'Leaf.0'), 'keys') and uncast(cargs(t)[1]) is o


def block_of(t, info):
    """the block loaded through the loader of the leaf"""
    while t.op == 'fld' and t.a[1] in ('items', 'Ok.0', '0'):
        t = t.a[0]
    return t.op == 'call' and t.a[0].split('::')[-1] in ('load', 'load_leaf_from_link') and cargs(t)[0] is mk('fld', info, 'Leaf.1')


def val_at(t, info, o):
    while t.op == 'fld' and t.a[1] in ('Some.0', 'Ok.0'):
        t = t.a[0]
    return t.op == 'call' and t.a[0].endswith('ZstdDagCborSeq::get') and block_of(cargs(t)[0], info) and uncast(cargs(t)[1]) is o


def check_get(ck, f, opq):
    x, o = node_param(f), off_param(f)
    ps = ck.run(f, opaque=[g for g in opq if g.key != f.key])
    seen = set()

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    for p in ps:
        if p.outcome not in ('return', 'loop'):
            continue
        info, kind = kind_of(p, x)
        er = errs(p)
        if p.outcome == 'loop':
            kids, e = next_child(p, info) if info is not None else ([], False)
            if not ob('get.error', not er, 'goes on although %s failed' % (er and show(er[0])[:80])):
                continue
            ob('get.loop', kind == 'Branch' and kids, 'loops over something other than the children of the node')
            continue
        r = p.ret
        if er:
            ob('get.error', is_err(r) and any(contains(r, mk('fld', t, 'Err.0')) for t in er), 'does not report that %s failed' % show(er[0])[:80])
            continue
        if is_err(r):
            # an inconsistent tree: the counts of the children do not add up, or the block has fewer values than keys
            kids, e = next_child(p, info) if info is not None else ([], False)
            none = any(c.op == 'disc' and v == 'None' and 'ZstdDagCborSeq::get' in show(c)[:40] for c, v in p.clog)
            ins, out = range_state(p, ps, x, o)
            ob('get.range', ins and kind == 'Branch' and e or kind == 'Leaf' and none, 'reports an error for a position that is purged or out of range')
            continue
        if r.op == 'call' and r.a[0].startswith('rec:'):
            c, oo = rec_args(f, r)
            kids, e = next_child(p, info) if info is not None else ([], False)
            fs = path_facts(p, ps)
            ok = kind == 'Branch' and any(strip_node(c) is strip_node(k) for k in kids)
            ob('get.child', ok, 'descends into something that is not a child of the node')
            ob('get.child.offset', ok and running(oo, o, c, ps, info, True), 'descends with offset %s, which is not the offset less the elements before the child' % show(oo)[:80])
            ob('get.child.range', bool(counts_in(p, c)) and all(any(fa.lt(oo, n) for n in counts_in(p, c)) for fa in fs), 'descends into a child that does not contain the offset')
            seen.add('Branch')
            continue
        v = agg_get(r, '0') if is_ok(r) else None
        if v is not None and v.op == 'agg' and v.a[0] == 'Option::None':
            ins, out = range_state(p, ps, x, o)
            ob('get.none', out or is_purged(kind), 'returns nothing for a position that is in range and not purged')
            seen.add('none' if out else 'purged')
            continue
        kv = agg_get(v, '0') if v is not None and v.op == 'agg' and v.a[0] == 'Option::Some' else None
        if kv is not None and kv.op == 'agg' and len(kv.a) == 3:
            ok = kind == 'Leaf' and key_at(agg_get(kv, '0'), info, o)
            ob('get.key', ok, 'returns the key %s' % show(agg_get(kv, '0'))[:100])
            ok = kind == 'Leaf' and val_at(agg_get(kv, '1'), info, o)
            ob('get.value', ok, 'returns the value %s' % show(agg_get(kv, '1'))[:100])
            seen.add('Leaf')
            continue
        ob('get.shape', False, 'returns %s' % show(r)[:120])
    for k in ('Branch', 'Leaf', 'none', 'purged'):
        ob('get.cases', k in seen, 'never handles the case `%s`' % k)


def pair_ok(t, info, o, p):
    """t is (key_i, value_i) for i the loop position that starts at o"""
    if t.op == 'agg' and len(t.a) == 3:
        a, b = agg_get(t, '0'), agg_get(t, '1')
        if a.op == b.op == 'fld' and a.a[0] is b.a[0] and item_of(a.a[0]) is not None:
            src = aligned(unphi(item_of(a.a[0])), info, o)
            return src is not None and (a.a[1], b.a[1]) == src
        for i in [y for y in subterms(a) if y.op == 'fld' and item_of(y) is not None]:
            r = unphi(item_of(i))
            if r.op == 'agg' and r.a[0].split('::')[-1].startswith('Range') and agg_get(r, 'start') is o and leaf_len(agg_get(r, 'end'), info):
                if key_at(a, info, i) and val_at(b, info, i):
                    return True
    it = item_of(t)
    if it is not None:
        return aligned(unphi(it), info, o) == ('0', '1')
    return False


def leaf_len(t, info):
    return count_of(t, info_src(info), None)


def aligned(t, info, o):
    """iterator over (key, value) pairs of the leaf from position o on -> (field of the key, field of the value)"""
    t = unphi(t)
    if t.op == 'iter':
        return aligned(t.a[0], info, o)
    if t.op == 'skip' and uncast(t.a[1]) is o:
        return aligned(t.a[0], info, INT(0))
    if t.op == 'zip':
        for sk in ('',):
            A, B = [unwrap_iter(y) for y in t.a[:2]]
            oa = ob_ = INT(0)
            if A.op == 'skip':
                oa, A = uncast(A.a[1]), unwrap_iter(A.a[0])
            if B.op == 'skip':
                ob_, B = uncast(B.a[1]), unwrap_iter(B.a[0])
            if oa is not o or ob_ is not o:
                return None
            if all_keys(A, info) and all_vals(B, info):
                return ('0', '1')
            if all_keys(B, info) and all_vals(A, info):
                return ('1', '0')
    return None


def unwrap_iter(t):
    t = unphi(t)
    while t.op == 'iter':
        t = unphi(t.a[0])
    return t


def all_keys(t, info):
    return t.op == 'call' and t.a[0].endswith('CompactSeq::to_vec') and cargs(t)[0] is mk('fld', mk('fld', info, 'Leaf.0'), 'keys')


def all_vals(t, info):
    while t.op == 'fld' and t.a[1] == 'Ok.0':
        t = t.a[0]
    return t.op == 'call' and t.a[0].endswith('ZstdDagCborSeq::items') and block_of(cargs(t)[0], info)


def check_collect(ck, f, opq):
    x, o = node_param(f), off_param(f)
    li = [i for i, a in enumerate(f.args) if re.search(r"&('\w+ )?mut .*Vec<(std::option::)?Option<", f.locals[a])][0]
    into = param(f, li)
    ps = ck.run(f, opaque=[g for g in opq if g.key != f.key])
    seen = set()

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    for p in ps:
        if p.outcome not in ('return', 'loop'):
            continue
        info, kind = kind_of(p, x)
        er = errs(p)
        fin = p.store.get(('O', into))
        fin = flow.erase(fin) if fin is not None else into
        if p.outcome == 'return':
            if er:
                ob('collect.error', is_err(p.ret) and any(contains(p.ret, mk('fld', t, 'Err.0')) for t in er), 'does not report that %s failed' % show(er[0])[:80])
                continue
            if not is_ok(p.ret):
                ob('collect.shape', False, 'fails although nothing went wrong, or returns %s' % show(p.ret)[:80])
                continue
            ins, out = range_state(p, ps, x, o)
            if out:
                ob('collect.out', fin is into, 'adds elements for an offset behind the end')
                seen.add('out')
                continue
            if kind == 'Branch':
                kids, ended = next_child(p, info)
                ob('collect.all', ended and phi_of(fin, into), 'stops before all children have been visited')
                continue
            if kind == 'Leaf' or is_purged(kind):
                done = [c.a[0] for c, v in p.clog if c.op == 'disc' and v == 'None' and is_call(c.a[0], 'Iterator::next', 'next')]
                ok = phi_of(fin, into) and any(full_source(cargs(d)[0], info, kind, o, x) for d in done)
                ok = ok or is_purged(kind) and phi_of(fin, into) and counted_rest(p, ps, x, o)
                ok = ok or fin.op == 'mut' and fin.a[0] == 'extend' and fin.a[3] is into and extended(fin.a[4], info, kind, o, x, ck)
                ob('collect.source', ok, 'does not go through exactly the elements from the offset to the end of the node')
                seen.add('Leaf' if kind == 'Leaf' else 'purged')
                continue
            ob('collect.kind', False, 'returns for a node of kind %s' % (kind,))
            continue
        # one round of a loop
        new = strip_round(fin, into)
        if not ob('collect.error', not er, 'goes on although %s failed' % (er and show(er[0])[:80])):
            continue
        if kind == 'Branch':
            kids, e = next_child(p, info)
            if not ob('collect.loop', bool(kids), 'loops over something other than the children of the node'):
                continue
            k = kids[0]
            calls = [e for e in p.events if e.kind == 'call' and e.name.startswith('rec:') and is_rec(f, e.name)]
            fs = path_facts(p, ps)
            if not calls:
                cs = counts_in(p, k)
                offs = [y for fa in fs for y in order_terms(p, cs)]
                ok = any(all(any(fa.le(c, y) for c in cs) for fa in fs) and running(y, o, k, ps, info, False) for y in offs)
                ob('collect.skip', ok and new == [], 'passes over a child that has elements behind the offset')
                continue
            ok = len(calls) == 1
            c, oo = rec_args(f, calls[0].args)
            ok = ok and any(strip_node(c) is strip_node(kk) for kk in kids)
            ob('collect.child', ok, 'descends into something that is not the next child')
            ob('collect.child.offset', ok and running(oo, o, c, ps, info, False), 'descends with offset %s, which is not the offset less the elements before the child' % show(oo)[:80])
            ob('collect.child.into', new == ['rec'], 'loses or adds elements between children')
            seen.add('Branch')
            continue
        if kind == 'Leaf':
            ok = len(new) == 1 and isinstance(new[0], T) and new[0].op == 'agg' and new[0].a[0] == 'Option::Some' and pair_ok(agg_get(new[0], '0'), info, o, p)
            ob('collect.pair', ok, 'adds something that is not the next (key, value) pair of the leaf')
            continue
        if is_purged(kind):
            ok = len(new) == 1 and isinstance(new[0], T) and new[0].op == 'agg' and new[0].a[0] == 'Option::None'
            ob('collect.purged', ok, 'does not add exactly one placeholder per purged element')
            continue
        ob('collect.kind', False, 'loops for a node of kind %s' % (kind,))
    for k in ('Branch', 'Leaf', 'purged', 'out'):
        ob('collect.cases', k in seen, 'never handles the case `%s`' % k)


def counted_rest(p, ps, x, o):
    """a counter loop from o to the count of x has ended"""
    for c, v in p.clog:
        if c.op == 'bin' and c.a[0] in ('Lt', 'Ne') and v is False and count_of(c.a[2], x, None):
            i = c.a[1]
            if i.op == 'phi' and i.a[2] is o:
                ups = phi_updates(i, ps)
                if ups and all(diff(u, i) == {None: 1} for _, u in ups):
                    return True
    return False


def order_terms(p, cs):
    out = []
    for c, v in p.clog:
        if c.op == 'bin' and c.a[0] == 'Lt' and any(x in cs for x in c.a[1:]):
            out += [y for y in c.a[1:] if y not in cs]
    return out


def phi_of(t, into):
    return t.op == 'phi' and t.a[2] is into


def strip_round(t, into):
    """what one loop round appended"""
    out = []
    while t.op == 'mut':
        nm = t.a[0].split('::')[-1]
        if nm.startswith('push'):
            out.append(t.a[4])
        elif t.a[0].startswith('rec:'):
            out.append('rec')
        else:
            out.append('?')
        t = t.a[3]
    if not phi_of(t, into):
        out.append('?')
    return out[::-1]


def full_source(t, info, kind, o, x):
    t = unphi(t)
    if t.op == 'agg' and t.a[0].split('::')[-1].startswith('Range'):
        return agg_get(t, 'start') is o and (count_of(agg_get(t, 'end'), x, None))
    return kind == 'Leaf' and aligned(t, info, o) is not None


def extended(t, info, kind, o, x, ck):
    """iterator handed to extend"""
    t = unphi(t)
    if t.op == 'map' and is_purged(kind):
        r = unphi(t.a[0])
        l = t.a[1]
        none = l.op == 'lam' and all(any(isinstance(y, T) and y.op == 'agg' and y.a[0] == 'Option::None' for y in c.a) for c in l.a)
        return none and full_source(r, info, kind, o, x)
    if t.op == 'take' and is_purged(kind):
        d = lin(t.a[1])
        pos = [k for k, v in d.items() if v == 1]
        return d.get(o) == -1 and len(d) == 2 and len(pos) == 1 and count_of(pos[0], x, None) and mentions(t.a[0], lambda y: y.op == 'agg' and y.a[0] == 'Option::None')
    if t.op == 'map' and kind == 'Leaf' and t.a[1].op in ('const', 'agg', 'lam', 'sym'):
        return aligned(t.a[0], info, o) == ('0', '1') and 'Option::Some' in show(t.a[1])
    return False


def P14(ck):
    """the functions behind get and collect, over all node kinds: out of range -> nothing; purged -> nothing / one
    placeholder per element from the offset on; a branch -> the child that contains the offset (get) or every child in order
    (collect), with the offset less the counts of the children before; a leaf -> key and value at the same position, from
    the node's own keys and the block behind its own link; a failed load is returned as error."""
    prog = ck.prog
    opq = opaques(prog) + seq_fns(prog)
    gets = [f for f in all_fns(prog) if f.crate == 'banyan' and '{closure' not in f.key and node_param(f) is not None and off_param(f) is not None and re.match(r'Result<Option<\(', ret_ty(f).replace('std::result::', '').replace('std::option::', ''))]
    colls = [f for f in all_fns(prog) if f.crate == 'banyan' and '{closure' not in f.key and node_param(f) is not None and off_param(f) is not None and any(re.search(r"&('\w+ )?mut .*Vec<(std::option::)?Option<", f.locals[a]) for a in f.args)]
    ck.ob('anchor', bool(gets) and bool(colls), 'readers', 'the functions behind get and collect were not found')
    for f in gets:
        check_get(ck, f, opq)
    for f in colls:
        check_collect(ck, f, opq)
    keys = {f.key for f in gets + colls}
    for name in ('Forest::get', 'Forest::collect', 'Forest::collect_from'):
        for f in ck.find(name):
            top_reader(ck, f, gets if name.endswith('get') else colls)
    ck.floor('get.child', 1)
    ck.floor('collect.source', 2)
    ck.floor('top.read', 3)


def top_reader(ck, f, fns):
    """the public operation starts at the root of the tree with the given offset and the tree's own secrets"""
    tree = [param(f, i) for i, a in enumerate(f.args) if re.search(r'\bTree<', f.locals[a])]
    if not ck.ob('anchor', len(tree) == 1, f.key, '%s has no tree argument' % short(f), f.where):
        return
    tree = tree[0]
    off = off_param(f) or INT(0)
    for p in ck.run(f, opaque=fns):
        if p.outcome != 'return':
            continue
        calls = [e for e in p.events if e.kind == 'call' and callee_key(ck.prog, e) in {g.key for g in fns}]
        if errs(p):
            ck.ob('top.error', is_err(p.ret), f.key, '%s hides an error' % short(f), f.where)
            continue
        none = any(c.op == 'disc' and v == 'None' and from_tree(c.a[0], tree) for c, v in p.clog)
        if none:
            ck.ob('top.empty', not calls and is_ok(p.ret) and no_elems(agg_get(p.ret, '0')), f.key, '%s finds elements in an empty tree' % short(f), f.where)
            continue
        ok = len(calls) == 1
        if ok:
            g = [g for g in fns if g.key == callee_key(ck.prog, calls[0])][0]
            a = calls[0].args
            c, oo = rec_args(g, a)
            sec = [a[i] for i, l in enumerate(g.args) if 'Secrets' in g.locals[l]]
            ok = from_tree(strip_node(c), tree) and oo is off and all(from_tree(s, tree) for s in sec)
        ck.ob('top.read', ok, f.key, '%s does not read from the root of the tree at the given offset' % short(f), f.where)
        if ok and is_ok(p.ret):
            v = agg_get(p.ret, '0')
            res = calls[0].res
            good = contains(v, res) or v.op == 'mut' and v.a[0].split('::')[-1] == g.method and (v.a[3].op == 'empty' or v.a[3].op == 'call' and v.a[3].a[0] in ('empty',))
            ck.ob('top.result', good, f.key, '%s returns something other than what was read: %s' % (short(f), show(v)[:80]), f.where)


def callee_key(prog, e):
    from append import callee_ev
    g = callee_ev(prog, e)
    return g.key if g is not None else None


def from_tree(t, tree):
    while t.op == 'fld' or t.op == 'optref' or t.op == 'call' and t.a[0].split('::')[-1] in ('as_ref',):
        t = t.a[0] if t.op != 'call' else cargs(t)[0]
    return t is tree


def no_elems(t):
    return t.op == 'agg' and t.a[0] == 'Option::None' or t.op == 'empty' or t.op == 'call' and t.a[0] == 'empty'


# ---- P16 ---------------------------------------------------------------------
PASS = {'left_stream', 'right_stream', 'left_iter', 'right_iter', 'boxed', 'boxed_local', 'try_flatten', 'flatten', 'map_ok', 'map', 'flat_map',
        'unfold', 'iter', 'into_iter', 'pin', 'new', 'from', 'into', 'once', 'map_stream', 'stream'}


def chain(t, acc, ms):
    """follow an adaptor chain to its sources; anything that could drop, add or reorder items is a failure"""
    if t.op == 'agg':
        n = mir.type_head(t.a[0]).split('::')[-1]
        if n in ms:
            acc['src'].append(t)
            return True
        if t.a[0].split('::')[0] in ('EitherIter', 'Either') or n in ('Pin', 'Box'):
            return all(chain(f.a[1], acc, ms) for f in t.a[1:])
        if t.a[0].startswith('Result::') or t.a[0].startswith('Option::'):
            if len(t.a) == 1:
                return True
            acc['src'].append(t)
            return True
        acc['src'].append(t)
        return True
    if t.op == 'rev':
        acc['rev'] += 1
        return chain(t.a[0], acc, ms)
    if t.op in ('map', 'flat_map', 'flatten', 'iter'):
        if len(t.a) > 1:
            acc['clo'].append(t.a[1])
        return chain(t.a[0], acc, ms)
    if t.op == 'call':
        n = t.a[0].split('::')[-1]
        if n == 'empty':
            acc['empty'] += 1
            return True
        if n in PASS:
            a = cargs(t)
            acc['clo'] += list(a[1:])
            return chain(a[0], acc, ms)
        if n == 'rev':
            acc['rev'] += 1
            return chain(cargs(t)[0], acc, ms)
        acc['bad'] = t
        return False
    if t.op in ('fld', 'sym', 'param'):
        acc['src'].append(t)
        return True
    acc['bad'] = t
    return False


def acc0():
    return {'src': [], 'clo': [], 'rev': 0, 'empty': 0, 'bad': None}


def check_closure(ck, f, c, ms, elems):
    """a closure in the chain -> number of reversals of the data of a chunk, or None for one that only drives the walker"""
    prog = ck.prog
    if c.op == 'lam':
        ck.ob('reader.closure', False, f.key, '%s adapts its items with a closure that is not understood' % short(f), f.where)
        return None
    if c.op != 'agg':
        ck.ob('reader.closure', True)
        return None
    g = prog.by_closure.get(c.a[0])
    if g is None:
        if 'Result::Ok' in show(c) or len(c.a) == 1 and c.a[0].startswith('Result::'):
            return None
        ck.ob('reader.closure', False, f.key, '%s adapts its items with %s' % (short(f), show(c)[:80]), f.where)
        return None
    revs = set()
    for p in ck.run(g):
        if p.outcome != 'return':
            continue
        r = p.ret
        if r.op == 'agg' and r.a[0].startswith('[generator@'):
            h = [b for k, b in prog.by_closure.items() if gen_key(k) == gen_key(r.a[0])]
            ck.ob('reader.drive', len(h) == 1 and drives(ck, h[0]), f.key, '%s does not hand out every item of the walker' % short(f), f.where)
            continue
        err = [cc.a[0] for cc, v in p.clog if cc.op == 'disc' and v == 'Err']
        acc = acc0()
        ok = chain(r, acc, ms)
        if err:
            e = acc['src']
            ok = ok and len(e) == 1 and contains(e[0], mk('fld', err[0], 'Err.0')) and e[0].op == 'agg' and e[0].a[0] == 'Result::Err'
            ck.ob('reader.error', ok, f.key, '%s drops an error' % short(f), f.where)
            continue
        s = acc['src']
        ok = ok and len(s) == 1 and s[0].op == 'fld' and s[0].a[1] == 'data' and unwrapped(s[0].a[0], g)
        ok = ok and all(show(x).startswith('Result::Ok') for x in acc['clo'])
        ck.ob('reader.elements', ok, f.key, '%s does not hand out exactly the elements of a chunk: %s' % (short(f), show(r)[:100]), f.where)
        if ok:
            revs.add(acc['rev'] % 2)
    if len(revs) == 1:
        return revs.pop()
    return None


def unwrapped(t, g):
    while t.op == 'fld' and t.a[1] == 'Ok.0':
        t = t.a[0]
    return t is param(g, 1)


def gen_key(k):
    m = re.search(r'@([\w./-]+:\d+:\d+: \d+:\d+)', k)
    return m.group(1) if m else k


def drives(ck, h):
    """the body of the async block of unfold: next() -> Some((item, iterator)) or None"""
    got = set()
    for p in ck.run(h):
        if p.outcome != 'return':
            continue
        r = p.ret
        v = agg_get(r, '0') if r.op == 'agg' and r.a[0] == 'Poll::Ready' else None
        nx = [(c.a[0], w) for c, w in p.clog if c.op == 'disc' and is_call(c.a[0], 'Iterator::next', 'next')]
        if v is None or len(nx) != 1:
            return False
        if v.op == 'agg' and v.a[0] == 'Option::None':
            if nx[0][1] != 'None':
                return False
            got.add('None')
            continue
        kv = agg_get(v, '0') if v.op == 'agg' and v.a[0] == 'Option::Some' else None
        if kv is None or kv.op != 'agg' or len(kv.a) != 3 or nx[0][1] != 'Some':
            return False
        a, b = agg_get(kv, '0'), agg_get(kv, '1')
        if a is not mk('fld', nx[0][0], 'Some.0') or not (b.op == 'mut' and b.a[0].endswith('next') and b.a[3] is cargs(nx[0][0])[0]):
            return False
        got.add('Some')
    return got == {'Some', 'None'}


def readers(prog):
    out = []
    for f in all_fns(prog):
        if f.crate != 'banyan' or '{closure' in f.key or f.trait is not None or not is_pub(prog, f):
            continue
        if any(re.match(r"&('\w+ )?(\w+::)*Tree<", f.locals[a].strip()) for a in f.args) and re.match(r'impl .*(Iterator|Stream)<', f.locals[0].strip()):
            out.append(f)
    return out


def P16(ck):
    """every public function that returns an iterator or stream over one tree: it is a chain of adaptors that neither drop,
    add nor reorder items, over a walker that was started at the root of the given tree with the given query and the tree's
    own secrets, in the direction the name says; elements of a chunk are handed out in ascending order when walking forward
    and in descending order when walking backward; errors are passed on."""
    prog = ck.prog
    ms = machines(ck)
    names = {m.name: m for m in ms}
    for m in ms:
        ctors(ck, m)
    rs = readers(prog)
    ck.ob('readers', len(rs) >= 8, 'count', 'only %d public functions that iterate a tree found' % len(rs))
    for f in rs:
        one_reader(ck, f, names)
    ck.floor('reader.walk', 8)
    ck.floor('reader.order', 3)
    ck.floor('reader.elements', 3)


def one_reader(ck, f, names):
    tree = [param(f, i) for i, a in enumerate(f.args) if re.search(r'\bTree<', f.locals[a])][0]
    others = [param(f, i) for i, a in enumerate(f.args)]
    back = 'reverse' in f.method
    chunked = 'FilteredChunk<' in f.locals[0]

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    for p in ck.run(f):
        if p.outcome != 'return':
            continue
        acc = acc0()
        ok = chain(p.ret, acc, names)
        if not ob('reader.chain', ok, 'adapts the items of the walker with %s' % (show(acc['bad'])[:100] if acc['bad'] is not None else '?')):
            continue
        none = any(c.op == 'disc' and v == 'None' and from_tree(c.a[0], tree) for c, v in p.clog)
        if none:
            ob('reader.empty', not acc['src'] and acc['empty'] == 1, 'finds something in an empty tree')
            continue
        w = acc['src']
        if not ob('reader.walk', len(w) == 1 and w[0].op == 'agg' and mir.type_head(w[0].a[0]).split('::')[-1] in names, 'does not walk the tree'):
            continue
        m = names[mir.type_head(w[0].a[0]).split('::')[-1]]
        fr = frames_of(agg_get(w[0], m.stack)) or []
        ob('reader.root', len(fr) == 1 and from_tree(strip_node(agg_get(fr[0], m.index)), tree), 'does not start at the root of the tree')
        ob('reader.direction', variant_of(agg_get(w[0], m.mode)) == (m.bwd if back else m.fwd), 'walks in the wrong direction')
        sec = agg_get(w[0], 'secrets')
        ob('reader.secrets', sec is not None and secrets_of(sec, tree), 'does not use the secrets of the tree')
        q = agg_get(w[0], 'query')
        qs = [param(f, i) for i, a in enumerate(f.args) if f.debug_name(a) == 'query'] if hasattr(f, 'debug_name') else [o for o in others[1:] if o is not tree]
        ob('reader.query', q is not None and (q in qs or not qs and 'AllQuery' in show(q) or len(others) == 2 and 'AllQuery' in show(q)), 'does not ask the given query: %s' % (show(q)[:80] if q is not None else '?'))
        revs = [check_closure(ck, f, c, names, not chunked) for c in acc['clo']]
        revs = [r for r in revs if r is not None]
        if chunked or m.filt and 'Index<' in f.locals[0] and '(u64' not in f.locals[0]:
            ob('reader.items', not revs and acc['rev'] == 0, 'changes the chunks or nodes of the walker')
        else:
            ob('reader.order', len(revs) == 1 and acc['rev'] == 0 and revs[0] == (1 if back else 0), 'hands out the elements within a chunk in the wrong order')


def secrets_of(t, tree):
    if from_tree(t, tree):
        return True
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Secrets':
        return all(f.a[1].op == 'fld' and f.a[1].a[1] == f.a[0] and from_tree(f.a[1], tree) for f in t.a[1:])
    return False
