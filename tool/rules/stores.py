"""P21, P23, P24: caches and block stores: a link leads to the bytes that were stored under it."""
import re
from common import *
from facts import *
from crypto import callgraph
from write import short, param
from append import ret_ty
from streams import clo, plain
from seqs import leaves
from atomic import is_pub
import flow
import mir


# --------------------------------------------------------------------------
# shapes
# --------------------------------------------------------------------------
def er(t):
    return flow.erase(t) if t is not None else None


def eta(prog, t):
    """Struct { a: x.a, b: x.b, .. } is x, also inside a result"""
    t = er(t)
    if t.op != 'agg' or len(t.a) < 2:
        return t
    parts = [(x.a[0], eta(prog, x.a[1])) for x in t.a[1:]]
    fs = struct_fields(prog, t.a[0])
    if fs and {n for n, _ in parts} == {n for n, _ in fs}:
        xs = {v.a[0] if v.op == 'fld' and v.a[1] == n else None for n, v in parts}
        if len(xs) == 1 and None not in xs:
            return xs.pop()
    new = mk('agg', t.a[0], *[mk(x.op, x.a[0], v, *x.a[2:]) for x, (n, v) in zip(t.a[1:], parts)])
    return new


def outcome(p, t, variant):
    """the path has established that the result / option `t` is `variant`"""
    return any(c.op == 'disc' and er(c.a[0]) is t and v == variant for c, v in p.clog) or \
        any(c.op == 'is' and er(c.a[0]) is t and (c.a[1] == variant) == v for c, v in p.clog)


def bytes_of(t):
    """content of a block: peel wrappers that hold the bytes unchanged"""
    t = er(t)
    while True:
        if t.op == 'agg' and len(t.a) == 2 and not t.a[0].startswith(('Option', 'Result', '[')):
            t = t.a[1].a[1]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('into', 'from', 'clone', 'to_vec', 'as_ref', 'as_slice', 'deref', 'into_boxed_slice', 'to_owned', 'new') and len(cargs(t)) == 1:
            t = er(cargs(t)[0])
        else:
            return t


def inner_of(t, full):
    """t is `full` or the content of the wrapper struct it is"""
    return t is full or (t.op == 'fld' and t.a[0] is full and t.a[1] == '0')


def handed_on(p, ret, c, payload=None):
    """the function returns the result of the call `c` unchanged: Ok for Ok, Err for Err"""
    ret = er(ret)
    if ret is c:
        return True
    if is_ok(ret):
        v = mk('fld', c, 'Ok.0')
        return outcome(p, c, 'Ok') and (ret.a[1].a[1] is v or bytes_of(ret.a[1].a[1]) is v)
    if is_err(ret):
        return outcome(p, c, 'Err')
    return False


def outer(prog, fs):
    """the functions closures belong to"""
    out = {}
    by = {g.key: g for g in all_fns(prog)}
    for f in fs:
        k = f.key
        while '::{' in k:
            k = k[:k.rindex('::{')]
        if k in by:
            out[k] = by[k]
    return list(out.values())


# --------------------------------------------------------------------------
# P21 caches
# --------------------------------------------------------------------------
def branch_readers(prog, cached):
    """functions that load a branch straight from the store"""
    return [f for f in all_fns(prog) if f.crate == 'banyan' and re.search(r"Result<(Option<)?(index::)?Branch<", ret_ty(f).replace("std::option::", "")) and f.key not in cached and '{closure' not in f.key]


def loaded_from(prog, p, v, k):
    """the value is the branch loaded from link k"""
    v = er(v)
    if v.op == 'fld' and v.a[1] == 'Ok.0' and v.a[0].op == 'call':
        return outcome(p, v.a[0], 'Ok') and any(er(a) is k for a in cargs(v.a[0]))
    gets = ev_calls(p, 'ReadOnlyStore::get')
    return v.op == 'agg' and v.a[0] == 'Branch' and bool(gets) and all(er(e.args[1]) is k and outcome(p, er(e.res), 'Ok') for e in gets)


def P21(ck):
    """Caches. Every WeightCache::put reachable in the workspace: the value is (unchanged) what was handed in and the key is the
    link handed in, or the value is the data given to exactly that BlockWriter::put whose Ok result is the key, or the branch
    loaded (Ok) from the key. Every function that answers from a cache returns the entry found under its own link argument
    unchanged, or what the store / the loader returns for that link. MemWriter::put gives the unchanged data to the inner writer
    exactly once and returns its result; blocks above max_size are not cached; MemCache::write shares the cache."""
    prog = ck.prog
    direct = [f for f, c, t in callers(prog, lambda c: c.canon == 'WeightCache::put')]
    cg = callgraph(prog)
    cached = {}
    for f in outer(prog, direct):
        cached[f.key] = f
    # the functions that read a cache
    dget = [f for f, c, t in callers(prog, lambda c: c.canon == 'WeightCache::get')]
    readers_ = {f.key: f for f in outer(prog, dget)}
    work = list(readers_.values())
    while work:
        f = work.pop()
        for g in outer(prog, cg.get(f.key, ())):
            if g.key not in readers_ and re.search(r'Branch<|Box<\[u8\]>', ret_ty(g)) and 'Info' not in ret_ty(g):
                readers_[g.key] = g
                work.append(g)
    load = branch_readers(prog, set(readers_) | set(cached))
    # what is put
    seen = set()
    sizes = cache_limits(prog)
    work = list(cached.values())
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        ps = ck.run(f, opaque=load)
        up = False
        for p in ps:
            for e in ev_calls(p, 'WeightCache::put'):
                k, v = er(e.args[1]), e.args[2]
                c = bytes_of(v)
                passed = k.op == 'sym' and c.op == 'sym' and c is not k
                if passed:
                    up = True
                    ok = True
                elif k.op == 'fld' and k.a[1] == 'Ok.0' and is_call(k.a[0], 'BlockWriter::put'):
                    ok = bytes_of(cargs(k.a[0])[1]) is c and c.op == 'sym' and outcome(p, k.a[0], 'Ok')
                else:
                    ok = loaded_from(prog, p, eta(prog, v), k)
                ck.ob('cache.put', ok, f.key, '%s caches %s under %s, which is not the link of that content' % (short(f), flow.show(c)[:80], flow.show(k)[:80]), where(e))
                if er(v).op == 'agg' and er(v).a[0] != 'Branch' and not (passed and not (is_pub(prog, f) or f.trait)):
                    lim = [x for cc, _ in p.clog for x in find_terms(er(cc), lambda x: is_limit(x, sizes))]
                    ok = all(any(fa.le(lenof(c), l) for l in lim) for fa in path_facts(p, ps))
                    ck.ob('cache.size', ok, f.key, '%s caches blocks that are larger than the configured maximum' % short(f), where(e))
        if up:
            work += [g for g in outer(prog, cg.get(f.key, ())) if g.key not in seen]
    # what is read
    for f in readers_.values():
        ps = ck.run(f, opaque=load)
        links = [er(param(f, i)) for i in range(len(f.args))]
        for p in ps:
            if p.outcome != 'return':
                continue
            gets = [e for e in ev_calls(p, 'WeightCache::get')]
            ret = eta(prog, p.ret)
            ok = all(er(e.args[1]) in links or own_link(er(e.args[1])) for e in gets)
            ck.ob('cache.key', ok, f.key, '%s looks up something else than the link asked for' % short(f), f.where)
            hit = [e for e in gets if outcome(p, er(e.res), 'Some')]
            if is_err(ret):
                # only the store or the loader reports errors
                ok = any(c.op == 'disc' and v == 'Err' for c, v in p.clog)
            elif hit:
                full = mk('fld', er(hit[-1].res), 'Some.0')
                pay = ret
                while pay.op == 'agg' and pay.a[0] in ('Result::Ok', 'Option::Some') and len(pay.a) == 2:
                    pay = pay.a[1].a[1]
                ok = len(hit) == 1 and inner_of(pay, full)
            elif gets and ret is er(gets[-1].res):
                ok = len(gets) == 1
            else:
                ok = miss(p, ret, links, gets)
            ck.ob('cache.get', ok, f.key, '%s returns %s, which is neither the cached content of that link nor what the store has' % (short(f), flow.show(ret)[:80]), f.where)
    # writers on top of a cache
    for f in all_fns(prog):
        if f.trait == 'BlockWriter' and f.method == 'put' and f.key in cached:
            data = er(param(f, 1))
            for p in ck.run(f):
                if p.outcome != 'return':
                    continue
                w = ev_calls(p, 'BlockWriter::put')
                ok = len(w) == 1 and bytes_of(w[0].args[1]) is data and handed_on(p, p.ret, er(w[0].res))
                ck.ob('writer.put', ok, f.key, '%s does not write the given data exactly once and return the result of that' % short(f), f.where)
    for f in ck.find('MemCache::write'):
        for p in ck.run(f):
            if succeeded(p):
                r = er(p.ret)
                me = param(f, 0)
                fl = dict((x.a[0], x.a[1]) for x in r.a[1].a[1].a[1:]) if is_ok(r) and r.a[1].a[1].op == 'agg' else {}
                ok = any(v.op == 'fld' and v.a[1] == 'Ok.0' and is_call(v.a[0], 'apply') and any(a.op == 'fld' and a.a[0] is me for a in cargs(v.a[0])) for v in fl.values()) \
                    and any(v.op == 'fld' and v.a[0] is me for v in fl.values())
                ck.ob('cache.shared', ok, f.key, '%s does not write to the store of the cache and into the same cache' % short(f), f.where)
    for r, k in (('cache.put', 4), ('cache.key', 4), ('cache.get', 6), ('writer.put', 3), ('cache.size', 2), ('cache.shared', 1)):
        ck.floor(r, k)


def own_link(t):
    """a link taken from a node or loader that was handed in"""
    while t.op == 'fld':
        t = t.a[0]
    return t.op == 'sym'


def cache_limits(prog):
    """fields of the block cache that were given as its limit"""
    return {n for n, t in struct_fields(prog, 'Cache') if 'NonZeroUsize' in t or t.endswith('usize')}


def is_limit(x, sizes):
    while x.op == 'call' and len(cargs(x)) == 1 and x.a[0].split('::')[-1] in ('get', 'into', 'from'):
        x = cargs(x)[0]
    return x.op == 'fld' and x.a[1] in sizes


def miss(p, ret, links, gets):
    """nothing was found in the cache: the result is that of the store or loader for the same link"""
    key = {er(e.args[1]) for e in gets} or set(links) | {mk('fld', x, n) for x in links for n in ('link', 'link.Some.0')}
    cs = [er(e.res) for e in p.events if e.kind == 'call' and e.res is not None and (cname(e.name, 'ReadOnlyStore::get') or 'load' in e.name) and any(er(a) in key for a in e.args)]
    if any(handed_on(p, ret, c) for c in cs):
        return True
    if is_ok(ret) and ret.a[1].a[1].op == 'agg' and ret.a[1].a[1].a[0] == 'Branch':
        g = ev_calls(p, 'ReadOnlyStore::get')
        return bool(g) and all(er(e.args[1]) in key for e in g)
    if ret.op == 'agg' and ret.a[0] == 'Option::None':
        return not any(outcome(p, er(e.res), 'Some') for e in gets)
    return False


# --------------------------------------------------------------------------
# P23 the memory store
# --------------------------------------------------------------------------
def fpath(t):
    """(root, names of the fields) of a place behind locks and wrappers"""
    names = []
    while True:
        if t.op == 'fld':
            names.append(t.a[1])
            t = t.a[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('lock', 'as_ref', 'deref', 'deref_mut', 'get_mut', 'write', 'read', 'borrow', 'unwrap', 'into_inner') and cargs(t):
            t = cargs(t)[0]
        elif t.op in ('upd', 'at'):
            t = t.a[0]
        elif t.op == 'mut':
            t = t.a[3]
        elif t.op == 'phi':
            t = t.a[2]
        else:
            return t, tuple(x for x in reversed(names))


def roles(ck, ty):
    """fields of a memory store: limit, counter, digest and map, by what `new` puts there"""
    out = {}
    for f in ck.find(ty + '::new'):
        for p in ck.run(f):
            if p.outcome != 'return':
                continue
            for path, t in leaves(p.ret):
                # a shared box around the contents is transparent
                if t.op == 'int' and t.a[0] == 0:
                    out.setdefault('counter', set()).add(path[-1])
                elif t.op == 'sym':
                    out.setdefault('limit', set()).add(path[-1])
                elif find_terms(t, lambda x: x.op == 'sym'):
                    out.setdefault('digest', set()).add(path[-1])
                elif t.op == 'call' and t.a[0].split('::')[-1] in ('default', 'new', 'empty', 'with_hasher') and not [a for a in cargs(t) if isinstance(a, T) and a.op != 'call']:
                    out.setdefault('map', set()).add(path[-1])
                elif t.op == 'call' and t.a[0] == 'empty':
                    out.setdefault('map', set()).add(path[-1])
                else:
                    out.setdefault('other', set()).add(path[-1])
    return out


def role(t, R, k):
    r, names = fpath(t)
    return bool(names) and r.op == 'sym' and names[-1] in R.get(k, ())


def guarded(p, lock):
    """fields assigned behind a lock, by the time it is released: {name: value} (None: the release was not seen)"""
    out = None
    for e in p.events:
        if e.kind == 'drop':
            for t in e.args or ():
                if isinstance(t, T) and origin(er(t)) is lock:
                    out = {}
                    t = er(t)
                    while t is not lock:
                        if t.op == 'upd':
                            out.setdefault(t.a[1], t.a[2])
                            t = t.a[0]
                        elif t.op == 'mut':
                            out.setdefault('?', t)
                            t = t.a[3]
                        elif t.op == 'phi':
                            t = t.a[2]
                        else:
                            t = t.a[0]
    return out


def mem_put(ck, f, R):
    me, data = er(param(f, 0)), er(param(f, 1))
    ps = ck.run(f)
    for p in ps:
        if p.outcome != 'return':
            continue
        ret = er(p.ret)
        ins = [e for e in p.events if e.kind == 'call' and e.name.split('::')[-1] in ('insert', 'remove', 'clear', 'entry', 'retain', 'drain', 'extend', 'get_or_insert', 'or_insert', 'try_insert') and e.args and role(er(e.args[0]), R, 'map')]
        locks = ev_calls(p, 'lock')
        done = guarded(p, er(locks[0].res)) if len(locks) == 1 else None
        if done is None:
            ck.ob('mem.size', False, f.key, '%s: what happens to the store under its lock could not be determined' % short(f), f.where)
            continue
        ck.ob('mem.locked', len(locks) == 1, f.key, '%s does not do its work under one lock' % short(f), f.where)
        if is_err(ret):
            ck.ob('mem.unchanged', not ins and not done, f.key, '%s returns an error after it has changed the store' % short(f), f.where)
            full = any(v is True and c.op == 'bin' and any(role(er(x), R, 'limit') for x in c.a[1:]) or v is False and c.op == 'bin' and any(role(er(x), R, 'limit') for x in c.a[1:]) for c, v in p.clog)
            ck.ob('mem.refuse', full and over(p, ps, R, data), f.key, '%s refuses a block although it fits' % short(f), f.where)
            continue
        v = ret.a[1].a[1] if is_ok(ret) else ret
        dig = is_call(v, 'apply') and role(er(cargs(v)[0]), R, 'digest') and er(cargs(v)[1]) is data
        ck.ob('mem.link', dig, f.key, '%s returns %s, which is not the digest of the data' % (short(f), flow.show(v)[:80]), f.where)
        ok = len(ins) == 1 and cname(ins[0].name, 'insert') and er(ins[0].args[1]) is v and bytes_of(ins[0].args[2]) is data
        ck.ob('mem.insert', ok, f.key, '%s does not store exactly the data under the link it returns' % short(f), f.where)
        ck.ob('mem.limit', fits(p, ps, R, data), f.key, '%s stores a block without checking that the total size stays within the limit' % short(f), f.where)
        # the size counts every block once
        if len(ins) != 1:
            continue
        r = er(ins[0].res)
        new, old = outcome(p, r, 'None'), outcome(p, r, 'Some')
        had = [(c, v) for c, v in p.clog if c.op == 'call' and c.a[0].split('::')[-1] in ('contains_key',) and role(er(cargs(c)[0]), R, 'map') and er(cargs(c)[1]) is ins[0].args[1]]
        if not new and not old and had:
            new, old = had[0][1] is False, had[0][1] is True
        cnt = [v for k, v in done.items() if k in R['counter']]
        mp = [v for k, v in done.items() if k in R['map']]
        rest = set(done) - R['counter'] - R['map']
        if new:
            ok = len(cnt) == 1 and sorted(map(kindof(R, data), addends(er(cnt[0])))) == ['counter', 'len']
        else:
            ok = old and not cnt
        ok = ok and not rest and len(mp) == 1 and is_mut(er(mp[0]), 'insert') and fpath(er(mp[0].a[3]))[1][-1:] == tuple(R['map'])
        ck.ob('mem.size', ok, f.key, '%s does not count the size of a new block (and only of a new one)' % short(f), f.where)


def kindof(R, data):
    def k(t):
        t = er(t)
        if role(t, R, 'counter'):
            return 'counter'
        if is_len(t) and bytes_of(cargs(t)[0]) is data:
            return 'len'
        return flow.show(t)
    return k


def cmp_sides(c, v, R, data):
    """(limit on the left, strict) of a comparison of the limit with counter + len, as it turned out"""
    if c.op != 'bin' or c.a[0] not in ('Lt', 'Le', 'Gt', 'Ge') or not isinstance(v, bool):
        return None
    o, a, b = c.a
    a, b = er(a), er(b)
    if o in ('Gt', 'Ge'):
        o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
    if not v:
        o, a, b = {'Lt': 'Le', 'Le': 'Lt'}[o], b, a
    def kinds(t, want):
        return sorted(map(kindof(R, data), addends(t))) == want
    tot = ['counter', 'len']
    if role(a, R, 'limit') and kinds(b, tot):
        return 'over' if o == 'Lt' else None
    if kinds(a, tot) and role(b, R, 'limit'):
        return 'fits' if o == 'Le' else None
    # spelled as a subtraction: len <= limit - counter
    def rest(t):
        return t.op == 'bin' and t.a[0].startswith('Sub') and role(er(t.a[1]), R, 'limit') and role(er(t.a[2]), R, 'counter')
    if rest(a) and kindof(R, data)(b) == 'len':
        return 'over' if o == 'Lt' else None
    if rest(b) and kindof(R, data)(a) == 'len':
        return 'fits' if o == 'Le' else None
    return None


def fits(p, ps, R, data):
    return any(cmp_sides(c, v, R, data) == 'fits' for c, v in p.clog)


def over(p, ps, R, data):
    return any(cmp_sides(c, v, R, data) == 'over' for c, v in p.clog) or any(c.op == 'disc' and is_call(c.a[0], 'checked_add') and v == 'None' for c, v in p.clog)


def mem_get(ck, f, R):
    link = er(param(f, 1))
    for p in ck.run(f):
        if p.outcome != 'return':
            continue
        ret = er(p.ret)
        gets = [e for e in p.events if e.kind == 'call' and cname(e.name, 'HashMap::get') and role(er(e.args[0]), R, 'map')]
        ok = len(gets) == 1 and er(gets[0].args[1]) is link
        if ok:
            g = er(gets[0].res)
            if is_err(ret):
                ok = outcome(p, g, 'None')
            else:
                ok = is_ok(ret) and outcome(p, g, 'Some') and bytes_of(ret.a[1].a[1]) is mk('fld', g, 'Some.0')
        ck.ob('mem.get', ok, f.key, '%s returns %s, which is not what is stored under the link' % (short(f), flow.show(ret)[:80]), f.where)


def P23(ck):
    """MemStore. Fields are identified by what `new` puts into them (limit, size counter 0, digest function, empty map). put: one
    lock; link = digest(data), the data is inserted unchanged under that link exactly once, only on paths where
    counter + len <= limit; the counter grows by len exactly when the insert reported a new entry; error paths change nothing and
    have the block too large. get returns the entry of its link, Err exactly if there is none."""
    prog = ck.prog
    for f in all_fns(prog):
        if f.trait not in ('BlockWriter', 'ReadOnlyStore') or f.method not in ('put', 'get') or f.crate != 'banyan' or '::tests' in f.key:
            continue
        ps = ck.run(f)
        if not any(e.kind == 'call' and cname(e.name, 'HashMap::insert' if f.method == 'put' else 'HashMap::get') for p in ps for e in p.events):
            continue
        R = roles(ck, f.selfty)
        ck.ob('mem.new', all(len(R.get(k, ())) == 1 for k in ('limit', 'counter', 'digest', 'map')) and 'other' not in R, f.selfty, '%s::new does not start with an empty store of size 0 with the given limit and digest' % f.selfty, f.where)
        (mem_put if f.method == 'put' else mem_get)(ck, f, R)
    for r, k in (('mem.new', 2), ('mem.link', 2), ('mem.insert', 2), ('mem.limit', 2), ('mem.size', 2), ('mem.unchanged', 1), ('mem.get', 2)):
        ck.floor(r, k)


# --------------------------------------------------------------------------
# P24 links of persistent stores
# --------------------------------------------------------------------------
def is_hash(t, data):
    """Sha256Digest(sha2-256 of the data)"""
    t = er(t)
    if t.op != 'agg' or len(t.a) != 2:
        return False
    t = t.a[1].a[1]
    c = calls_of(t)
    return c is not None and [x[0] for x in c[0]] == ['digest', 'digest'] and c[1] == [SHA] and c[2] is data


SHA = 'Sha2_256'


def calls_of(t):
    """peel try_into(..).Ok.0 and unary calls: ([(name, args)], [enum variants], innermost argument)"""
    names, kinds = [], []
    while True:
        t = er(t)
        if t.op == 'fld' and t.a[1] == 'Ok.0' and is_call(t.a[0], 'try_into', 'try_from'):
            t = cargs(t.a[0])[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('into', 'from', 'as_ref', 'as_slice', 'deref') and len(cargs(t)) == 1:
            t = cargs(t)[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('digest', 'hash', 'codec', 'code') and 1 <= len(cargs(t)) <= 2:
            names.append((t.a[0].split('::')[-1], t))
            cs = cargs(t)
            if len(cs) == 2:
                k = er(cs[0])
                kinds.append(k.a[0].split('::')[-1] if k.op == 'agg' and len(k.a) == 1 else flow.show(k))
            t = cs[-1]
        else:
            return names, kinds, t


def from_cid(p, ret, src):
    """Ok(digest of the cid) exactly when codec and hash algorithm are the expected ones"""
    def req(c, v):
        """(which condition, holds)"""
        if c.op == 'bin' and c.a[0] in ('Eq', 'Ne'):
            n = [x for x in c.a[1:] if x.op == 'int']
            o = [x for x in c.a[1:] if x.op != 'int']
            if len(n) == 1 and len(o) == 1:
                ns, ks, x = calls_of(o[0])
                w = tuple(y[0] for y in ns)
                if x is src and not ks and (w, n[0].a[0]) in ((('codec',), 113), (('code', 'hash'), 18)):
                    return w, v == (c.a[0] == 'Eq')
        return None
    have = [req(er(c), v) for c, v in p.clog]
    have = [h for h in have if h]
    if is_err(ret):
        for c, v in p.clog:
            if c.op == 'disc' and v == 'Err' and is_call(c.a[0], 'try_into', 'try_from'):
                ns, ks, x = calls_of(cargs(c.a[0])[0])
                if [y[0] for y in ns] == ['digest', 'hash'] and x is src:
                    return True
        return any(not h[1] for h in have)
    v = ret.a[1].a[1] if is_ok(ret) else None
    if v is None or v.op != 'agg' or len(v.a) != 2:
        return False
    ns, ks, x = calls_of(v.a[1].a[1])
    whole = [y[0] for y in ns] == ['digest', 'hash'] and not ks and x is src
    return whole and {h[0] for h in have if h[1]} >= {('codec',), ('code', 'hash')} and all(h[1] for h in have)


def is_link(prog, ty):
    return any('TryFrom' == f.trait and f.selfty == ty for f in all_fns(prog)) and any(f.selfty == ty and f.trait is None and 'u8]' in f.locals.get(f.args[0], '') for f in all_fns(prog) if f.args)


def P24(ck):
    """Links and persistent stores. Every constructor of Sha256Digest from bytes: sha2-256 of the whole argument. The Cid of a link
    is v1, codec dag-cbor (0x71), multihash 0x12 around the whole digest; every conversion back (TryFrom, FromStr, Decode) succeeds
    exactly for that codec and hash and takes the whole digest. SqliteStore: put stores the unchanged data as the block of
    sha2-256(data) exactly once and returns that link if this succeeded; get returns the block of its link. IpfsStore and the
    Storage of the command line tool hand link and data on unchanged."""
    prog = ck.prog
    fns = [f for f in all_fns(prog) if f.crate in ('banyan_utils', 'banyan_cli') and '{closure' not in f.key and '::tests' not in f.key]
    tys = sorted({f.selfty for f in fns if f.trait == 'TryFrom' and f.method == 'try_from' and 'Cid' in f.locals.get(f.args[0], '')})
    for ty in tys:
        for f in fns:
            if f.selfty == ty and f.trait is None and len(f.args) == 1 and re.search(r'&?\[u8\]|Vec<u8>', f.locals.get(f.args[0], '')) and '32' not in f.locals.get(f.args[0], ''):
                for p in ck.run(f):
                    if p.outcome == 'return':
                        ck.ob('link.digest', is_hash(p.ret, er(param(f, 0))), f.key, '%s is not the sha2-256 digest of the whole data' % short(f), f.where)
            elif f.selfty == ty and f.trait in ('TryFrom', 'FromStr', 'Decode') and f.method in ('try_from', 'from_str', 'decode'):
                ps = ck.run(f)
                for p in ps:
                    if p.outcome != 'return':
                        continue
                    ret = er(p.ret)
                    src = er(param(f, 0))
                    if f.trait != 'TryFrom':
                        c = [er(e.res) for e in p.events if e.kind == 'call' and cname(e.name, f.trait + '::' + f.method) and e.res is not None]
                        a = [er(param(f, i)) for i in range(len(f.args))]
                        if len(c) != 1 or [er(x) for x in cargs(c[0])] != a:
                            ck.ob('link.parse', False, f.key, '%s does not read a Cid from its input' % short(f), f.where)
                            continue
                        src = mk('fld', c[0], 'Ok.0')
                        if outcome(p, c[0], 'Err'):
                            ck.ob('link.parse', is_err(ret), f.key, '%s hides that the Cid could not be read' % short(f), f.where)
                            continue
                    ck.ob('link.parse', from_cid(p, ret, src), f.key, '%s does not accept exactly the Cids of links and their whole digest' % short(f), f.where)
            elif f.selfty == ty and f.trait == 'Encode' and f.method == 'encode':
                for p in ck.run(f):
                    c = [e for e in p.events if e.kind == 'call' and cname(e.name, 'Encode::encode')]
                    if p.outcome == 'return':
                        ok = len(c) == 1 and [er(x) for x in c[0].args] == [er(param(f, i)) for i in range(3)] and handed_on(p, p.ret, er(c[0].res))
                        ck.ob('link.encode', ok, f.key, '%s does not encode the Cid of the link' % short(f), f.where)
    for f in fns:
        if f.trait == 'From' and f.method == 'from' and any(f.locals.get(f.args[0], '').endswith(ty) for ty in tys) and 'Cid' in ret_ty(f):
            for p in ck.run(f):
                if p.outcome != 'return':
                    continue
                r = er(p.ret)
                ok = is_call(r, 'new_v1') and len(cargs(r)) == 2 and cargs(r)[0] is INT(113)
                if ok:
                    w = er(cargs(r)[1])
                    w = w.a[0] if w.op == 'fld' and w.a[1] == 'Ok.0' else w
                    d = er(cargs(w)[1]) if is_call(w, 'wrap') and len(cargs(w)) == 2 else None
                    ok = d is not None and cargs(w)[0] is INT(18) and d.op == 'fld' and d.a[0] is er(param(f, 0)) and d.a[1] == '0'
                ck.ob('link.cid', ok, f.key, '%s does not make the Cid (v1, dag-cbor, sha2-256) of the whole digest' % short(f), f.where)
    stores_ = [f for f in fns if f.trait in ('BlockWriter', 'ReadOnlyStore') and f.method in ('put', 'get')]
    for f in stores_:
        me, x = er(param(f, 0)), er(param(f, 1))
        others = [g for g in stores_ if g is not f]
        # names of the memory store as well
        mem = [g for g in all_fns(prog) if g.trait == f.trait and g.method == f.method and g.crate == 'banyan' and '::tests' not in g.key]
        ps = ck.run(f, opaque=others + mem)
        n = 0
        for p in ps:
            if p.outcome != 'return':
                continue
            ret = er(p.ret)
            dele = [e for e in p.events if e.kind == 'call' and any(e.name == g.key or e.name.endswith(f.trait + '::' + f.method) or e.name.endswith(f.trait + '>::' + f.method) for g in others + mem)]
            if dele:
                e = dele[0]
                on = er(e.args[0])
                v = [vv for c, vv in p.clog if c.op == 'disc' and er(c.a[0]) is me]
                ok = len(dele) == 1 and er(e.args[1]) is x and fpath(on)[0] is me and handed_on(p, ret, er(e.res))
                ck.ob('store.delegate', ok, f.key, '%s does not hand %s on to the store it holds and return its result' % (short(f), flow.show(x)), f.where)
                continue
            if any(cname(e.name, 'thread::spawn') for e in p.events if e.kind == 'call'):
                remote(ck, f, p, ps, x)
                continue
            if f.method == 'put':
                w = [e for e in p.events if e.kind == 'call' and cname(e.name, 'BlockStore::put_block')]
                ok = len(w) == 1
                if ok:
                    b = er(w[0].args[1])
                    if b.op == 'fld' and b.a[1] == 'Ok.0':
                        b = b.a[0]
                    k = cargs(b)[0] if b.op == 'call' and len(cargs(b)) == 2 else None
                    ok = k is not None and is_call(b, 'Block::new_unchecked', 'Block::new') and is_hash(k, x) and bytes_of(cargs(b)[1]) is x and fpath(er(w[0].args[0]))[0] is me
                    if is_err(ret):
                        ok = ok and outcome(p, er(w[0].res), 'Err')
                    else:
                        ok = ok and is_ok(ret) and ret.a[1].a[1] is er(k) and outcome(p, er(w[0].res), 'Ok')
                elif is_err(ret):
                    ok = any(c.op == 'disc' and v == 'Err' for c, v in p.clog)
                ck.ob('store.put', ok, f.key, '%s does not store the data once under its digest and return that' % short(f), f.where)
            else:
                g = [e for e in p.events if e.kind == 'call' and cname(e.name, 'BlockStore::get_block')]
                ok = len(g) == 1 and er(g[0].args[1]) is x and fpath(er(g[0].args[0]))[0] is me
                if ok:
                    c = er(g[0].res)
                    o = mk('fld', c, 'Ok.0')
                    if is_err(ret):
                        ok = outcome(p, c, 'Err') or outcome(p, o, 'None')
                    else:
                        ok = is_ok(ret) and bytes_of(ret.a[1].a[1]) is mk('fld', o, 'Some.0') and outcome(p, o, 'Some')
                ck.ob('store.get', ok, f.key, '%s does not return the block of its link' % short(f), f.where)
    for r, k in (('link.digest', 1), ('link.cid', 1), ('link.parse', 6), ('link.encode', 1), ('store.put', 2), ('store.get', 3), ('store.delegate', 2), ('store.remote', 2)):
        ck.floor(r, k)


def remote(ck, f, p, ps, x):
    """a store behind a network call made on its own thread"""
    sp = [e for e in p.events if e.kind == 'call' and cname(e.name, 'thread::spawn')]
    jo = [e for e in p.events if e.kind == 'call' and cname(e.name, 'join')]
    ok = len(sp) == 1 and len(jo) == 1 and er(jo[0].args[0]) is er(sp[0].res)
    g = clo(ck, er(sp[0].args[0])) if ok else None
    ret = er(p.ret)
    if ok and g is not None:
        c = er(sp[0].args[0])
        caps = [er(y.a[1]) for y in c.a[1:]]
        ok = caps == [x]
        res = mk('fld', er(jo[0].res), 'Ok.0')
        if f.method == 'get':
            ok = ok and (ret is res or is_err(ret) and (outcome(p, er(jo[0].res), 'Err') or outcome(p, res, 'Err')) or is_ok(ret) and ret.a[1].a[1] is mk('fld', res, 'Ok.0'))
        else:
            src = mk('fld', res, 'Ok.0')
            if is_err(ret):
                ok = ok and (outcome(p, er(jo[0].res), 'Err') or outcome(p, res, 'Err') or from_cid(p, ret, src))
            else:
                ok = ok and from_cid(p, ret, src)
        inner = [h for h in all_fns(ck.prog) if h.crate == f.crate and h.trait is None and h.method in ('block_get', 'block_put') or h.key.endswith(('ipfs::block_get', 'ipfs::block_put'))]
        for q in ck.run(g[0], opaque=inner):
            if q.outcome != 'return':
                continue
            cs = [e for e in q.events if e.kind == 'call' and any(e.name == h.key or e.name.endswith(h.key.split('::')[-1]) for h in inner)]
            ok = ok and len(cs) == 1 and er(q.ret) is er(cs[0].res)
            if ok:
                a = [er(y) for y in cs[0].args]
                cap = a[0]
                ok = cap.op == 'fld' and cap.a[0].op == 'sym'
                if f.method == 'put':
                    ok = ok and len(a) >= 2 and a[1] is INT(113)
    else:
        ok = False
    ck.ob('store.remote', ok, f.key, '%s does not hand the block on to the remote store under its own link' % short(f), f.where)
