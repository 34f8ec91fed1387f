"""P19: streaming a growing sequence of trees."""
import re
from common import *
from facts import *
from write import short, param
from append import strip_node
from atomic import is_pub
from traverse import machines, ctors, lin, diff, frames_of, variant_of
from readers import chain, acc0, check_closure, drives, unwrap_iter, gen_key
import flow


def name(t):
    return t.a[0].split('::')[-1] if t.op == 'call' else t.op


def clo(ck, c):
    """closure term -> (function, {captured field term: value})"""
    if c.op != 'agg':
        return None
    g = ck.prog.by_closure.get(c.a[0])
    if g is None:
        return None
    me = param(g, 0)
    return g, {mk('fld', me, f.a[0]): f.a[1] for f in c.a[1:]}


def plain(t):
    """casts of the executor boxes and pins"""
    while t.op == 'call' and name(t) in ('boxed', 'boxed_local', 'fuse', 'pin', 'new') and len(cargs(t)) == 1 or t.op == 'agg' and mir.type_head(t.a[0]).split('::')[-1] in ('Pin', 'Box') and len(t.a) == 2:
        t = cargs(t)[0] if t.op == 'call' else t.a[1].a[1]
    return t


def truth(t, p):
    """value of a boolean term under the branch decisions of the path"""
    if t.op == 'bool':
        return t.a[0]
    if t.op == 'not':
        v = truth(t.a[0], p)
        return None if v is None else not v
    if t.op == 'is':
        for c, v in p.clog:
            if c.op == 'disc' and c.a[0] is t.a[0]:
                return v == t.a[1]
    for c, v in p.clog:
        if c is t and isinstance(v, bool):
            return v
    return None


def ready(t):
    """the value of an immediate future"""
    if t.op == 'call' and name(t) == 'ready':
        return cargs(t)[0]
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Ready':
        return t.a[1].a[1]
    return None


def list_items(t):
    """literal list -> items"""
    t = unwrap_iter(t)
    if t.op == 'call' and name(t) in ('from_vec', 'into', 'from', 'into_iter', 'iter', 'from_slice') and len(cargs(t)) == 1:
        return list_items(cargs(t)[0])
    if t.op == 'mut' and name_mut(t).startswith('push'):
        r = list_items(t.a[3])
        return None if r is None else r + [t.a[4]]
    if t.op == 'agg' and t.a[0] == '[]':
        return [f.a[1] for f in t.a[1:]]
    if t.op == 'call' and name(t) in ('empty', 'new'):
        return []
    if t.op == 'agg' and t.a[0].startswith('Option::'):
        return [f.a[1] for f in t.a[1:]]
    return None


def name_mut(t):
    return t.a[0].split('::')[-1]


def is_some_closure(ck, c):
    if c.op == 'lam' or c.op == 'const':
        return 'is_some' in show(c) or 'Some' in show(c)
    h = clo(ck, c)
    if h is None:
        return False
    ps = [p for p in ck.run(h[0]) if p.outcome == 'return']
    x = param(h[0], 1)
    for p in ps:
        r = ready(p.ret)
        if r is None:
            return False
        if r.op == 'is' and r.a[0] is x and r.a[1] == 'Some':
            continue
        v = truth(r, p)
        d = [w for c2, w in p.clog if c2.op == 'disc' and c2.a[0] is x]
        if v is None or not d or v != (d[0] == 'Some'):
            return False
    return bool(ps)


def is_ready_fn(c):
    return c.op == 'const' and 'future::ready' in c.a[0]


class Until:
    """ends a stream behind the first item that satisfies a condition"""


def peel_until(ck, t):
    """take_until_condition written with flat_map / take_while / filter_map, or with scan -> (source, condition cases)"""
    t = plain(t)
    if name(t) == 'filter_map' and is_ready_fn(cargs(t)[1]):
        t2 = plain(cargs(t)[0])
        if name(t2) == 'take_while' and is_some_closure(ck, cargs(t2)[1]):
            t3 = plain(cargs(t2)[0])
            if name(t3) == 'flat_map':
                return cargs(t3)[0], until_cases(ck, cargs(t3)[1])
    if name(t) == 'scan':
        a = cargs(t)
        return a[0], scan_cases(ck, a[1], a[2])
    return t, None


def cond_cases(ck, c, env):
    """condition closure -> [(chunk term -> literals)] as (kind, boolean term, path, chunk, env)"""
    h = clo(ck, c)
    if h is None:
        return None
    g, e = h
    out = []
    for p in ck.run(g):
        if p.outcome == 'return':
            out.append((p, p.ret, param(g, 1), e))
    return out


def until_cases(ck, c):
    """the closure that appends the end marker -> cases of the condition, or None"""
    h = clo(ck, c)
    if h is None:
        return None
    g, env = h
    item = param(g, 1)
    conds = set()
    for p in ck.run(g):
        if p.outcome != 'return':
            continue
        r = list_items(p.ret)
        if r is None or not r or not (is_somev(r[0]) and agg_get(r[0], '0') is item):
            return None
        last = len(r) == 2 and r[1].op == 'agg' and r[1].a[0] == 'Option::None'
        if len(r) > 2 or len(r) == 2 and not last:
            return None
        ap = [(cc, v) for cc, v in p.clog if cc.op == 'call' and name(cc) == 'apply' and any(x is item for x in cargs(cc))]
        if len(ap) != 1 or ap[0][1] is not last:
            return None
        conds.add(cargs(ap[0][0])[0])
    if len(conds) != 1:
        return None
    k = conds.pop()
    v = env.get(k)
    return cond_cases(ck, v, env) if v is not None else None


def is_somev(t):
    return t.op == 'agg' and t.a[0] == 'Option::Some'


def scan_cases(ck, init, c):
    """scan(false, |done, item| if *done { None } else { *done = cond(&item); Some(item) })"""
    h = clo(ck, c)
    if h is None or init is not FALSE:
        return None
    g, env = h
    st, item = param(g, 1), param(g, 2)
    conds = set()
    for p in ck.run(g):
        if p.outcome != 'return':
            continue
        r = ready(p.ret)
        done = [v for cc, v in p.clog if cc is st]
        if r is None or not done:
            return None
        if done[0] is True:
            if not (r.op == 'agg' and r.a[0] == 'Option::None'):
                return None
            continue
        if not (is_somev(r) and agg_get(r, '0') is item):
            return None
        new = p.store.get(('O', st))
        if new is None:
            new = st
        if new.op == 'call' and name(new) == 'apply' and item in cargs(new):
            conds.add(cargs(new)[0])
            continue
        ap = [(cc, v) for cc, v in p.clog if cc.op == 'call' and name(cc) == 'apply' and item in cargs(cc)]
        if len(ap) != 1 or truth(new, p) is not ap[0][1] and not (new is st and ap[0][1] is False):
            return None
        conds.add(cargs(ap[0][0])[0])
    if len(conds) != 1:
        return None
    v = env.get(conds.pop())
    return cond_cases(ck, v, env) if v is not None else None


def rng_end(t, rng, which):
    return t.op == 'call' and name(t) == which and cargs(t)[0] is rng or t is mk('fld', rng, which)


def resolve(t, env):
    return subst(t, env)


def check_stream(ck, f, names, until, back):
    rng = [param(f, i) for i, a in enumerate(f.args) if 'RangeInclusive<u64>' in f.locals[a]][0]
    prm = [param(f, i) for i, a in enumerate(f.args)]
    opq = pumps(ck.prog)
    PUMPS.update(g.method for g in opq)

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    for p in ck.run(f):
        if p.outcome != 'return':
            continue
        t, cases = peel_until(ck, p.ret)
        if until:
            if ob('stream.until', cases is not None, 'does not end behind the first chunk that reaches the end of the range'):
                for q, r, item, env in cases:
                    ch = mk('fld', item, 'Ok.0')
                    er = any(c.op == 'disc' and v == 'Err' for c, v in q.clog)
                    if er:
                        continue
                    r = resolve(r, env)
                    if back:
                        lim = mk('fld', mk('fld', ch, 'range'), 'start')
                        ok = leq(r, lim, rng, 'start', q)
                        ob('stream.until.cond', ok, 'does not end exactly when a chunk reaches the start of the range: %s' % show(r)[:80])
                    else:
                        lim = mk('fld', mk('fld', ch, 'range'), 'end')
                        ok = gt(r, lim, rng, 'end', q)
                        ob('stream.until.cond', ok, 'does not end exactly when a chunk reaches the end of the range: %s' % show(r)[:80])
        t = plain(t)
        if not ob('stream.trees', name(t) == 'flat_map', 'does not stream one tree after the other'):
            continue
        src, per = cargs(t)[0], cargs(t)[1]
        src = plain(src)
        ok = name(src) in ('filter_map', 'flat_map') and cargs(src)[0] in prm and inner_tree(ck, cargs(src)[1])
        ob('stream.trees', ok, 'does not stream every non-empty tree of the source')
        h = clo(ck, per)
        if not ob('stream.tree', h is not None, 'streams a tree with something that is not understood'):
            continue
        g, env = h
        tup = param(g, 1)
        for q in ck.run(g, opaque=opq):
            if q.outcome != 'return':
                continue
            acc = acc0()
            r = q.ret
            tw = find_take(r)
            if not ob('stream.track', tw is not None, 'does not track what has been delivered'):
                continue
            ob('stream.pass', outer_ok(r, tw), 'drops or reorders what was delivered: %s' % show(r)[:80])
            if tw.op == 'take_while':
                inner, tclo = tw.a[0], tw.a[1]
            else:
                inner, tclo = cargs(tw)[0], cargs(tw)[1]
            ok = chain(inner, acc, names)
            w = acc['src']
            if not ob('stream.walk', ok and len(w) == 1 and w[0].op == 'agg' and mir.type_head(w[0].a[0]).split('::')[-1] in names, 'does not walk the tree: %s' % show(inner)[:80]):
                continue
            for c in acc['clo']:
                check_closure(ck, f, c, names, False)
            m = names[mir.type_head(w[0].a[0]).split('::')[-1]]
            fr = frames_of(agg_get(w[0], m.stack)) or []
            ob('stream.root', len(fr) == 1 and strip_node(agg_get(fr[0], m.index)) is mk('fld', tup, '0'), 'does not start at the root of the tree')
            ob('stream.direction', variant_of(agg_get(w[0], m.mode)) == (m.bwd if back else m.fwd), 'walks in the wrong direction')
            sec = agg_get(w[0], 'secrets')
            ob('stream.secrets', sec is not None and secrets_at(sec, mk('fld', tup, '1')), 'does not use the secrets of the tree')
            qu = resolve(agg_get(w[0], 'query'), env)
            cell = check_query(ck, ob, qu, rng, prm, back)
            if cell is None:
                continue
            init = cargs(cell)[0] if cell.op == 'call' and name(cell) == 'new' and cargs(cell) else None
            ob('stream.init', init is not None and rng_end(init, rng, 'end' if back else 'start'), 'does not start with the given range')
            check_track(ck, ob, tclo, env, cell, back)
            loads = [e for e in q.events if e.kind == 'call' and e.name.split('::')[-1] == 'load']
            ob('stream.load', len(loads) >= 1, 'does not look up, for each tree, what has been delivered')


PUMPS = set()


def pumps(prog):
    """functions that hand the items of an iterator on to a channel, whose receiver they return"""
    return [g for g in all_fns(prog) if '{closure' not in g.key and g.crate == 'banyan' and re.search(r'\bReceiver<', g.locals[0])]


def check_pump(ck, g):
    from stores import outcome
    def ob(rule, ok, msg):
        return ck.ob(rule, ok, g.key, '%s %s' % (short(g), msg), g.where)
    src = param(g, 0)
    tasks = {}
    for p in ck.run(g):
        if p.outcome != 'return':
            continue
        r = p.ret
        chan = r.a[0] if r.op == 'fld' and r.a[1] == '1' and r.a[0].op == 'call' and 'channel' in name(r.a[0]) else None
        if not ob('pump.receiver', chan is not None, 'does not return the receiver of its channel'):
            continue
        found = False
        for e in p.events:
            if e.kind != 'call' or e.name == chan.a[0]:
                continue
            for a in e.args:
                hs = [b for k, b in ck.prog.by_closure.items() if a.op == 'agg' and '@' in a.a[0] and gen_key(k) == gen_key(a.a[0])]
                if len(hs) != 1:
                    continue
                caps = {v.a[1]: v.a[0] for v in a.a[1:]}
                if mk('fld', chan, '0') in caps and src in caps:
                    found = True
                    me = param(hs[0], 0)
                    tasks[hs[0].key] = (hs[0], [mk('fld', me, caps[src]), mk('fld', mk('fld', me, '0'), caps[src])])
        ob('pump.task', found, 'does not start a task that owns the iterator and the sender of its channel')
    for h, its in tasks.values():
        bulk = False
        nexts = 0
        for p in ck.run(h):
            calls = [e for e in p.events if e.kind == 'call']
            for e in calls:
                if e.name.split('::')[-1] in ('send_all', 'forward', 'for_each') and any(x in its for a in e.args for x in subterms(a)):
                    odd = [name(x) for a in e.args for x in subterms(a) if x.op == 'call' and name(x) not in ('iter', 'map', 'into_iter', 'boxed', 'new', 'from', 'fuse', 'Ok')]
                    bulk = bulk or not odd
            for e in calls:
                if e.name != 'Iterator::next' or not outcome(p, e.res, 'Some'):
                    continue
                nexts += 1
                x = e.args[0]
                while x.op in ('phi', 'mut', 'iter') or x.op == 'call' and name(x) in ('into_iter', 'by_ref', 'fuse', 'enumerate', 'inspect', 'boxed') and cargs(x):
                    x = x.a[2] if x.op == 'phi' else x.a[3] if x.op == 'mut' else x.a[0] if x.op == 'iter' else cargs(x)[0]
                while x.op == 'fld':
                    x = x.a[0]
                ob('pump.source', x is param(h, 0), 'does not send all of the items of the iterator it was given: %s' % show(e.args[0])[:80])
                item = mk('fld', e.res, 'Some.0')
                sent = [x for x in calls if x.name.split('::')[-1] in ('send', 'feed') and len(x.args) == 2 and x.args[1] is item]
                ob('pump.send', len(sent) == 1, 'takes an item from the iterator without waiting until the channel has taken it' if not sent else 'sends an item more than once')
            if p.outcome == 'return' and p.ret.op == 'agg' and p.ret.a[0].endswith('Ready') and not bulk:
                done = [1 for c, v in p.clog if c.op == 'disc' and v == 'None' and c.a[0].op == 'call' and c.a[0].a[0] == 'Iterator::next']
                gone = [1 for c, v in p.clog if c.op == 'disc' and v == 'Err' and any(x.op == 'call' and name(x) in ('poll', 'poll_ready') for x in subterms(c.a[0]))]
                ob('pump.end', bool(done or gone), 'ends although there are items left and there is someone to take them')
        ob('pump.source', bulk or nexts > 0, 'does not send the items of the iterator it was given')


def secrets_at(t, s):
    return t is s or t.op == 'agg' and t.a[0].split('::')[-1] == 'Secrets' and all(f.a[1] is mk('fld', s, f.a[0]) for f in t.a[1:])


def inner_tree(ck, c):
    """|tree| ready(tree.into_inner())"""
    h = clo(ck, c)
    if h is None:
        return c.op == 'const' and 'into_inner' in c.a[0]
    for p in ck.run(h[0]):
        if p.outcome == 'return':
            r = ready(p.ret)
            if r is None or not (r.op == 'fld' and r.a[0] is param(h[0], 1) or r is param(h[0], 1)):
                return False
    return True


def find_take(t):
    ts = [x for x in subterms(t) if x.op == 'take_while' or x.op == 'call' and name(x) == 'take_while']
    return ts[0] if len(ts) == 1 else None


def outer_ok(t, tw):
    while t is not tw:
        t2 = plain(t)
        if t2 is not t:
            t = t2
            continue
        if t.op == 'call' and (name(t) in ('into_stream', 'iter', 'boxed', 'left_stream', 'right_stream') or name(t) in PUMPS) and cargs(t):
            t = cargs(t)[0]
            continue
        if t.op == 'iter':
            t = t.a[0]
            continue
        return False
    return True


def check_query(ck, ob, q, rng, prm, back):
    """AndQuery of the part of the range that is still to be delivered and the given query -> the cell it is kept in"""
    while q.op == 'call' and name(q) in ('boxed', 'new', 'from', 'into') and len(cargs(q)) == 1:
        q = cargs(q)[0]
    ok = q.op == 'agg' and q.a[0].split('::')[-1] == 'AndQuery' and len(q.a) == 3
    if not ob('stream.query', ok, 'does not combine the range with the query: %s' % show(q)[:80]):
        return None
    a, b = agg_get(q, '0'), agg_get(q, '1')
    if a in prm:
        a, b = b, a
    ob('stream.query', b in prm, 'does not ask the given query')
    ok = a.op == 'agg' and a.a[0].split('::')[-1] == 'OffsetRangeQuery'
    r = agg_get(a, '0') if ok else None
    if r is not None and r.op == 'call' and name(r) == 'new' and 'RangeInclusive' in r.a[0]:
        lo, hi = cargs(r)[:2]
    else:
        ob('stream.range', False, 'does not ask for a range of offsets: %s' % show(a)[:80])
        return None
    mov, fix = (hi, lo) if back else (lo, hi)
    ob('stream.range', rng_end(fix, rng, 'start' if back else 'end'), 'asks for another range than the one given')
    ok = mov.op == 'call' and name(mov) == 'load' and 'Atomic' in mov.a[0]
    if not ob('stream.range', ok, 'does not leave out what has been delivered: %s' % show(mov)[:80]):
        return None
    return cargs(mov)[0]


def check_track(ck, ob, c, env, cell, back):
    h = clo(ck, c)
    if not ob('stream.track', h is not None, 'tracks what has been delivered with something that is not understood'):
        return
    g, e2 = h
    env2 = {k: subst(v, env) for k, v in e2.items()}
    item = param(g, 1)
    seen = set()
    for p in ck.run(g):
        if p.outcome != 'return':
            continue
        r = ready(p.ret)
        r = p.ret if r is None else r
        kinds = [v for c2, v in p.clog if c2.op == 'disc' and c2.a[0] is item]
        v = truth(r, p)
        kind = kinds[0] if kinds else None
        ev = [e for e in p.events if e.kind == 'call' and 'Atomic' in e.name and e.name.split('::')[-1] not in ('load', 'new')]
        if kind == 'Err':
            ob('stream.err', v is False and not ev, 'goes on behind an error, or counts it as delivered')
            seen.add('Err')
            continue
        if not ob('stream.track', kind == 'Ok', 'does not tell chunks and errors apart'):
            continue
        seen.add('Ok')
        ob('stream.go', v is True, 'stops at a chunk that is not an error')
        range_ = mk('fld', mk('fld', item, 'Ok.0'), 'range')
        if back and not ev:
            zero = any(fa.le(mk('fld', range_, 'start'), INT(0)) for fa in path_facts(p, [p]))
            ob('stream.track.back', zero, 'forgets a chunk that was delivered')
            continue
        if not ob('stream.track', len(ev) == 1, 'forgets a chunk that was delivered'):
            continue
        a = ev[0].args
        same_cell = subst(a[0], env2) is cell
        nm = ev[0].name.split('::')[-1]
        new = a[1]
        if nm == 'store':
            # store(max(load, x))
            want = 'min' if back else 'max'
            if new.op == 'call' and name(new) == want:
                rest = [x for x in cargs(new) if not (x.op == 'call' and name(x) == 'load')]
                if len(rest) == 1:
                    nm, new = 'fetch_' + want, rest[0]
        if back:
            ok = nm == 'fetch_min' and diff(new, mk('fld', range_, 'start')) == {None: -1}
        else:
            ok = nm == 'fetch_max' and new is mk('fld', range_, 'end')
        ob('stream.track.value', ok and same_cell, 'continues the next tree at the wrong offset: %s(%s)' % (ev[0].name, show(new)[:60]))
    ob('stream.track.cases', seen == {'Ok', 'Err'}, 'does not handle both chunks and errors')


def leq(r, x, rng, which, p):
    """r is the condition x <= range.which, or is decided accordingly on the path"""
    v = truth(r, p)
    e = [mk('call', 'RangeInclusive::' + which, None, rng), mk('fld', rng, which)]
    return cmp_ok(r, p, v, x, rng, which, le=True)


def gt(r, x, rng, which, p):
    return cmp_ok(r, p, truth(r, p), x, rng, which, le=False)


def cmp_ok(r, p, v, x, rng, which, le):
    n = True
    while r.op == 'not':
        r, n = r.a[0], not n
    if r.op == 'bin' and r.a[0] in ('Lt', 'Le', 'Gt', 'Ge'):
        op, a, b = r.a
        if op in ('Gt', 'Ge'):
            op, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[op], b, a
        if not n:
            op, a, b = {'Lt': 'Le', 'Le': 'Lt'}[op], b, a
        # want: le -> x <= E ; otherwise E < x
        if le:
            return op == 'Le' and a is x and rng_end(b, rng, which)
        return op == 'Lt' and b is x and rng_end(a, rng, which)
    return False


def P19(ck):
    """the public functions that stream a sequence of trees: each tree is walked from its root with its own secrets, in
    the direction of the function, for the intersection of the query and the rest of the range; the rest is kept in a
    cell that is initialised from the range, read once per tree, and moved monotonically, for exactly the chunks that are
    handed on, to the end of the chunk (forward) or the offset before its start (reverse); an error ends its tree without
    moving the cell; the whole stream ends behind the first chunk that reaches the end of the range. Where a tree is walked
    in a thread of its own, the thread hands every item of the iterator to the channel once and waits until it is taken, and
    ends only behind the last one or when nobody is left to take them."""
    prog = ck.prog
    ms = machines(ck)
    names = {m.name: m for m in ms}
    for m in ms:
        ctors(ck, m)
    n = 0
    for f in all_fns(prog):
        if f.crate != 'banyan' or '{closure' in f.key or f.trait is not None or not is_pub(prog, f) or not re.match(r'impl .*Stream<', f.locals[0].strip()):
            continue
        if any('RangeInclusive<u64>' in f.locals[a] for a in f.args):
            n += 1
            check_stream(ck, f, names, 'threaded' not in f.method, 'reverse' in f.method)
    ck.ob('anchor', n >= 3, 'streams', 'the functions that stream a sequence of trees were not found')
    for f in ck.find('Forest::stream_trees'):
        flatten(ck, f, names)
    for g in pumps(prog):
        check_pump(ck, g)
    ck.floor('stream.track.value', 3)
    ck.floor('stream.until.cond', 2)
    ck.floor('stream.query', 3)
    ck.floor('flat.elements', 1)


def flatten(ck, f, names):
    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    inner = ck.find('Forest::stream_trees_chunked')
    for p in ck.run(f, opaque=inner):
        if p.outcome != 'return':
            continue
        acc = acc0()
        t = p.ret
        clos = []
        ok = True
        while not (t.op == 'call' and t.a[0].split('::')[-1] == 'stream_trees_chunked'):
            t2 = plain(t)
            if t2 is not t:
                t = t2
                continue
            if t.op == 'call' and name(t) in ('try_flatten', 'map_ok'):
                clos += cargs(t)[1:]
                t = cargs(t)[0]
                continue
            ok = False
            break
        if not ob('flat.chain', ok, 'adapts the chunks with %s' % show(t)[:80]):
            continue
        rg = [a for a in cargs(t) if a.op == 'call' and name(a) == 'new' and 'RangeInclusive' in a.a[0]]
        ob('flat.range', len(rg) == 1 and cargs(rg[0])[0] is INT(0) and cargs(rg[0])[1] is INT(2 ** 64 - 1), 'does not stream all offsets')
        ob('flat.args', all(param(f, i) in cargs(t) for i in range(len(f.args))), 'does not pass on its arguments')
        ob('flat.elements', len(clos) == 1, 'does not flatten the chunks')
        for c in clos:
            r = check_closure(ck, f, c, names, True)
            ob('flat.order', r == 0, 'hands out the elements of a chunk in the wrong order')
