"""P22, P25: a node is read from its own block, whole; a compressed sequence holds exactly its items."""
import re
from common import *
from facts import *
from crypto import callgraph
from write import short, param
from leaf import encoded_from
import mir
from append import ret_ty, phi_updates
from stores import er, eta, outcome, fpath, outer
import flow

MIB16 = 16 * 1024 * 1024


# --------------------------------------------------------------------------
# decompression
# --------------------------------------------------------------------------
def unref(t):
    while t.op == 'call' and t.a[0].split('::')[-1] in ('as_ref', 'deref', 'as_slice', 'borrow', 'as_mut', 'deref_mut', 'as_mut_slice') and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t


def is_decomp(t):
    return t.op == 'mut' and t.a[0].split('::')[-1] == 'decompress_to_buffer'


def own_len(b, n):
    """n is what the call that filled b returned"""
    n = er(n)
    return n.op == 'fld' and n.a[1] == 'Ok.0' and n.a[0].op == 'call' and n.a[0].a[0] == b.a[0] and n.a[0].a[1] == b.a[1]


def plain_of(t):
    """the whole decompressed content -> the compressed bytes it comes from"""
    t = unref(er(t))
    if t.op == 'call' and t.a[0] == 'slice':
        b, r = er(cargs(t)[0]), cargs(t)[1]
        b = unref(b)
        f = {x.a[0]: x.a[1] for x in r.a[1:]} if r.op == 'agg' else {}
        st = f.get('start')
        if is_decomp(b) and own_len(b, f.get('end', r)) and (st is None and 'RangeTo' in r.a[0] or st is INT(0)):
            return er(b.a[5])
    return None


def buffer_uses(t, out, ctx=None):
    """decompressed buffers that are used other than cut to their length"""
    seen = set()
    st = [(t, None)]
    while st:
        x, par = st.pop()
        if (x.id, par is not None and par.id) in seen:
            continue
        seen.add((x.id, par is not None and par.id))
        if is_decomp(x):
            if par is None or plain_of(par) is None:
                out.append(x)
        p2 = par if x.op == 'at' or x.op == 'call' and x is not unref(x) else x
        for c in x.a:
            if isinstance(c, T):
                st.append((c, p2))
    return out


def check_buffers(ck, f, size, opq=()):
    """every decompression: large enough buffer, used up to its length and only that"""
    ps = ck.run(f, opaque=opq)
    n = 0
    for p in ps:
        ev = [e for e in p.events if e.kind == 'call' and cname(e.name, 'decompress_to_buffer')]
        if not ev:
            continue
        n += 1
        lent = [e for e in p.events if e.kind == 'call' and not cname(e.name, 'decompress_to_buffer') and e.name.split('::')[-1] not in LEND]
        ts = [er(c) for c, v in p.clog] + ([er(p.ret)] if p.ret is not None else []) + [er(v) for v in (p.updates or {}).values()]
        ts += [er(a) for e in lent for a in e.args]
        bad = []
        for t in ts:
            if find_terms(t, is_decomp):
                buffer_uses(t, bad)
        ck.ob('plain.exact', not bad, f.key, '%s uses decompressed data that is not cut to the length of this decompression' % short(f), f.where)
        for e in ev:
            buf, src = er(e.args[2]), er(e.args[1])
            ck.ob('plain.capacity', big_enough(p, ps, buf, src, size), f.key, '%s may decompress into a buffer that is too small for content of up to 16 MiB' % short(f), where(e))
            ok = outcome(p, er(e.res), 'Ok') or outcome(p, er(e.res), 'Err') and (p.ret is not None and is_err(er(p.ret)))
            ck.ob('plain.error', ok, f.key, '%s does not report that decompression failed' % short(f), where(e))
    return n


LEND = ('slice', 'index', 'index_mut', 'deref', 'deref_mut', 'as_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_mut_slice')


def bound_of(t, src):
    """t >= min(16 MiB, size of the content of src)"""
    t = er(t)
    if t.op == 'int':
        return t.a[0] >= MIB16
    if t.op == 'fld' and t.a[1] == 'Some.0' and is_call(t.a[0], 'upper_bound'):
        return er(cargs(t.a[0])[0]) is src
    if t.op == 'call' and t.a[0].split('::')[-1] == 'min':
        return all(bound_of(x, src) for x in cargs(t))
    if t.op == 'call' and t.a[0].split('::')[-1] == 'max':
        return any(bound_of(x, src) for x in cargs(t))
    if t.op == 'call' and t.a[0].split('::')[-1] == 'unwrap_or':
        c = cargs(t)
        return bound_of(mk('fld', er(c[0]), 'Some.0'), src) and bound_of(c[1], src)
    if t.op == 'bin' and t.a[0].startswith('Add'):
        return any(bound_of(x, src) for x in t.a[1:])
    return False


def big_enough(p, ps, buf, src, size):
    while True:
        b = unref(buf)
        if b.op == 'call' and b.a[0] == 'slice':
            r = cargs(b)[1]
            if 'RangeFull' in flow.show(r):
                b = er(cargs(b)[0])
            elif r.op == 'agg' and 'RangeTo' in r.a[0]:
                return fits_cap(p, ps, er(r.a[1].a[1]), src)
            else:
                return False
        if b is buf:
            break
        buf = b
    if buf.op == 'mut' and buf.a[0].split('::')[-1] == 'resize':
        return fits_cap(p, ps, er(buf.a[4]), src)
    if buf.op == 'call' and buf.a[0].split('::')[-1] == 'from_elem':
        return fits_cap(p, ps, er(cargs(buf)[-1]), src)
    if buf.op in ('phi', 'fld'):
        # the reused buffer: only if the content fits its constant size
        return size is not None and fits_cap(p, ps, INT(size), src)
    return False


def fits_cap(p, ps, n, src):
    """every path fact says: n >= min(16 MiB, size of the content)"""
    if bound_of(n, src):
        return True
    terms = {er(y) for c, v in p.clog for x in find_terms(er(c), lambda x: x.op == 'bin') for y in x.a if isinstance(y, T)}
    return all(any(bound_of(x, src) and (fa.le(x, n) or fa.lt(x, n)) for x in terms) for fa in path_facts(p, ps))


def reused_size(ck):
    """constant length of the buffer a decompression state is created with; nothing may shrink it"""
    out = []
    for f in constructors(ck.prog, 'DecompressionState'):
        for p in ck.run(f):
            if p.outcome != 'return':
                continue
            for a in find_terms(er(p.ret), lambda x: x.op == 'agg' and x.a[0] == 'DecompressionState'):
                for x in a.a[1:]:
                    t = er(x.a[1])
                    if t.op == 'call' and t.a[0].split('::')[-1] == 'from_elem' and cargs(t)[-1].op == 'int':
                        out.append(cargs(t)[-1].a[0])
                    elif t.op == 'mut' and t.a[0].split('::')[-1] == 'resize' and t.a[4].op == 'int':
                        out.append(t.a[4].a[0])
    return min(out) if out else None


# --------------------------------------------------------------------------
# building a compressed sequence
# --------------------------------------------------------------------------
def written(enc, p, ps):
    """[(path, term)] of everything written to an encoder, or None if something else happens to it; ends at a fresh encoder"""
    out = []
    seen = set()

    def fresh(t):
        return t.op == 'fld' and t.a[1] == 'Ok.0' and is_call(t.a[0], 'Encoder::new') and er(cargs(t.a[0])[0]).op == 'call' and er(cargs(t.a[0])[0]).a[0].split('::')[-1] in ('empty', 'new', 'with_capacity')

    def go(t, q, stop):
        t = er(t)
        if t is stop:
            return True
        if t.op == 'mut' and t.a[0].split('::')[-1] == 'write_all' and t.a[2] == 0:
            if not go(t.a[3], q, stop):
                return False
            out.append((q, er(t.a[4])))
            return True
        if t.op == 'mut' and t.a[0].split('::')[-1] == 'flush':
            return go(t.a[3], q, stop)
        if t.op == 'phi':
            if t in seen:
                return False
            seen.add(t)
            if not go(t.a[2], q, stop):
                return False
            return all(go(v, q2, t) for q2, v in phi_updates(t, ps))
        return fresh(t)
    return out if go(enc, p, None) else None


def check_build(ck, f, opq):
    """data = everything written to a fresh encoder, finished; each round writes exactly the encoding of its item"""
    prog = ck.prog
    ps = ck.run(f, opaque=opq)
    src = er(param(f, 0))
    n = 0
    rounds = {}
    for p in ps:
        if p.outcome == 'loop':
            for c, v in p.clog:
                if c.op == 'disc' and v == 'Some' and is_call(er(c.a[0]), 'Iterator::next'):
                    rounds.setdefault(p, []).append(er(c.a[0]))
    for p in ps:
        if p.outcome != 'return':
            continue
        ret = er(p.ret)

        def ob(rule, ok, msg):
            return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
        failed = [c for c, v in p.clog if c.op == 'disc' and v == 'Err']
        if is_err(ret):
            continue
        ob('build.error', not failed, 'goes on although %s failed' % (failed and flow.show(failed[0])[:60]))
        v = ret
        while v.op == 'agg' and v.a[0] == 'Result::Ok':
            v = er(v.a[1].a[1])
        d = agg_get(v, 'data') if v.op == 'agg' else None
        d = er(d) if d is not None else None
        fin = d.a[0] if d is not None and d.op == 'fld' and d.a[1] == 'Ok.0' and is_call(d.a[0], 'Encoder::finish') else None
        if fin is None:
            ob('build.data', False, 'returns a sequence whose data is not what its encoder produced')
            continue
        enc = er(cargs(fin)[0])
        ws = written(enc, p, ps)
        ob('build.data', ws is not None, 'returns a sequence whose encoder was not fresh or had something other than writes done to it')
        if ws is None:
            continue
        n += 1
        if enc.op == 'phi':
            nx = {er(c.a[0]) for c, vv in p.clog if c.op == 'disc' and vv == 'None' and is_call(er(c.a[0]), 'Iterator::next')}
            nx = {x for x in nx if whole_iter(er(cargs(x)[0]), src)}
            ob('build.all', len(nx) == 1, 'does not run until its items are used up')
            if len(nx) != 1:
                continue
            nx = nx.pop()
            qs = [q for q, r in rounds.items() if nx in r and q.loopkey[1:] == enc.a[0][1:]]
            ob('build.all', bool(qs), 'has no loop over its items')
            for q in qs:
                mine = [x for r, x in ws if r is q]
                ok = len(mine) == 1 and encoded_from(q, mine[0]) is not None and [er(x) for x in encoded_from(q, mine[0])] == [mk('fld', nx, 'Some.0')]
                ob('build.item', ok, 'does not write exactly the encoding of each item, once')
            ob('build.only', all(r in qs for r, x in ws), 'writes something that is not one of its items')
        else:
            ok = len(ws) == 1 and [er(x) for x in encoded_from(p, ws[0][1]) or []] == [src]
            ob('build.item', ok, 'does not write exactly the encoding of its value')
    return n


def whole_iter(t, src):
    """all of the items handed in, unfiltered"""
    t = unref(t)
    while t.op == 'phi':
        t = er(t.a[2])
    if t is src or t.op in ('sym', 'param') and t is src:
        return True
    return is_call(t, 'once') and er(cargs(t)[0]) is src or t.op == 'call' and t.a[0].split('::')[-1] in ('into_iter', 'iter', 'by_ref', 'fuse') and whole_iter(er(cargs(t)[0]), src)


def P25(ck):
    """Compressed sequences. Every function that fills a zstd encoder (other than leaf filling, P06) starts from a fresh one, writes
    exactly once per item exactly the encoding of that item, until its items are used up, and returns the finished data. Every
    decompression: into a buffer of at least min(16 MiB, content), used only cut to the length of that same decompression, failures
    returned."""
    prog = ck.prog
    fill = {f.key for f in all_fns(prog) if f.method in ('fill', 'fill_ipld') and f.selfty and mir.type_head(f.selfty) == 'ZstdDagCborSeq'}
    opq = prog.find('scrape_links')
    cg = callgraph(prog)
    enc = outer(prog, [f for f, c, t in callers(prog, lambda c: c.canon.endswith('Encoder::new')) if f.crate == 'banyan' and '::tests' not in f.key])
    todo, seen = list(enc), {f.key for f in enc}
    while todo:
        f = todo.pop()
        for g in outer(prog, cg.get(f.key, ())):
            if g.key not in seen and g.crate == 'banyan' and '::tests' not in g.key and g.selfty and mir.type_head(g.selfty) == 'ZstdDagCborSeq' and 'ZstdDagCborSeq' in ret_ty(g):
                seen.add(g.key)
                todo.append(g)
                enc.append(g)
    for f in enc:
        if f.key not in fill:
            ck.ob('build.checked', check_build(ck, f, opq) > 0, f.key, '%s never returns a sequence' % short(f), f.where)
    size = reused_size(ck)
    ck.ob('plain.reused', size is not None, 'DecompressionState', 'the size of the reused buffer is not a constant', None)
    dec = outer(prog, [f for f, c, t in callers(prog, lambda c: c.canon.endswith('decompress_to_buffer')) if f.crate == 'banyan' and '::tests' not in f.key])
    n = 0
    todo, seen = list(dec), {f.key for f in dec}
    while todo:
        f = todo.pop()
        for g in outer(prog, cg.get(f.key, ())):
            if g.key not in seen and g.crate == 'banyan' and '::tests' not in g.key and (g.selfty and mir.type_head(g.selfty) in ('ZstdDagCborSeq', 'DecompressionState') or not g.selfty and '/store/' in (g.file or '')):
                seen.add(g.key)
                todo.append(g)
                dec.append(g)
    for f in dec:
        n += check_buffers(ck, f, size, opq)
    for r, k in (('build.data', 4), ('build.item', 4), ('build.all', 4), ('plain.exact', 20), ('plain.capacity', 20), ('plain.error', 20)):
        ck.floor(r, k)


# --------------------------------------------------------------------------
# reading a block
# --------------------------------------------------------------------------
def node_of_block(t):
    """payload of a decoded block: Codec::decode(.., bytes).Ok.0"""
    t = er(t)
    if t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] == 'decode':
        return t
    return None


def block_bytes(D):
    """the store read a decoded block comes from"""
    b = unref(er(cargs(D.a[0])[-1]))
    if b.op == 'fld' and b.a[1] == 'Ok.0' and is_call(b.a[0], 'ReadOnlyStore::get'):
        return b.a[0]
    return None


def field(t, names):
    """t = base.names -> base"""
    for n in reversed(names):
        if t.op != 'fld' or t.a[1] != n:
            return None
        t = t.a[0]
    return t


def cipher_of(t):
    t = unref(er(t))
    return er(t.a[4]) if is_mut(t, 'StreamCipher::apply_keystream') and t.a[2] == 1 else None


def key_of(t, prog, f):
    """name of the key of the caller's secrets that a payload is decrypted with"""
    c = cipher_of(t)
    c = er(c.a[3]) if c is not None and is_mut(c, 'StreamCipherSeek::seek') else c
    k = eta(prog, cargs(c)[0]) if c is not None and is_call(c, 'NewCipher::new', 'KeyIvInit::new') else None
    own = [er(param(f, i)) for i, a in enumerate(f.args)]
    own += [mk('fld', x, 'secrets') for x in own]
    return k.a[1] if k is not None and k.op == 'fld' and k.a[0] in own else k


def deciphered(t):
    """whole payload of a block, decrypted at the position stored in the block -> decoded block"""
    c = cipher_of(t)
    if c is None:
        return None
    t = unref(er(t))
    D = field(er(t.a[3]), ['2', 'Bytes.0'])
    if D is None or node_of_block(D) is None:
        return None
    if not is_mut(c, 'StreamCipherSeek::seek') or er(c.a[4]) is not mk('fld', D, '0'):
        return None
    if not is_call(er(c.a[3]), 'NewCipher::new', 'KeyIvInit::new'):
        return None
    return D


def is_range(t, D):
    """stored position .. stored position + length of the payload"""
    t = er(t)
    f = {x.a[0]: er(x.a[1]) for x in t.a[1:]} if t.op == 'agg' and t.a[0] == 'Range' else {}
    pos = mk('fld', D, '0')
    ln = lenof(mk('fld', mk('fld', D, '2'), 'Bytes.0'))
    e = f.get('end')
    if f.get('start') is not pos or e is None:
        return False
    ad = [er(x) for x in addends(e)]
    return len(ad) == 2 and set(ad) == {pos, ln}


def decoded(t, p, ps):
    """list of all items decoded from a byte string, in order -> the byte string"""
    t = er(t)
    if t.op != 'phi' or not (t.a[2].op == 'call' and t.a[2].a[0].split('::')[-1] in ('empty', 'new', 'with_capacity')):
        return None
    ups = phi_updates(t, ps)
    if not ups:
        return None
    src = set()
    for q, v in ups:
        v = er(v)
        if not is_mut(v, 'push') or er(v.a[3]) is not t:
            return None
        x = er(v.a[4])
        d = x.a[0] if x.op == 'fld' and x.a[1] == 'Ok.0' else None
        if d is None or d.op != 'call' or d.a[0].split('::')[-1] not in ('decode',) or not outcome(q, d, 'Ok'):
            return None
        cur = er(cargs(d)[-1])
        if cur.op != 'phi' or not is_call(er(cur.a[2]), 'Cursor::new'):
            return None
        # the cursor is moved by nothing else
        for q2, w in phi_updates(cur, ps):
            w = er(w)
            if not is_mut(w, 'decode') or er(w.a[3]) is not cur:
                return None
        src.add((cur, er(cargs(er(cur.a[2]))[0])))
    # it ends only at the end of the bytes
    for cur, s in src:
        if any(end_of(er(c), v, cur, s) for c, v in p.clog):
            return unref(s)
    return None


def end_of(c, v, cur, s):
    if c.op != 'bin' or not isinstance(v, bool):
        return False
    o, a, b = c.a
    a, b = unconv(a), unconv(b)
    if o in ('Gt', 'Ge'):
        o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
    pos = lambda t: is_call(t, 'Cursor::position') and er(cargs(t)[0]) is cur
    ln = lambda t: is_len(t) and unref(er(cargs(t)[0])) is unref(s)
    if o == 'Lt' and pos(a) and ln(b):
        return v is False
    if o == 'Le' and ln(a) and pos(b):
        return v is True
    if o in ('Eq', 'Ne') and {True} == {pos(a) or pos(b)} and (ln(a) or ln(b)):
        return v == (o == 'Eq')
    return False


def unconv(t):
    t = er(t)
    while True:
        if t.op == 'fld' and t.a[1] == 'Ok.0' and is_call(t.a[0], 'try_from', 'try_into'):
            t = er(cargs(t.a[0])[0])
        elif t.op == 'cast':
            t = er([y for y in t.a if isinstance(y, T)][0])
        else:
            return t


def own_link(l, f):
    """the link of a node or the link itself, as handed to the function"""
    r, names = fpath(l)
    ps = [er(param(f, i)) for i in range(len(f.args))]
    return r in ps and all(n in ('link', 'Some.0', '0', 'Branch.0', 'Leaf.0') or n.startswith('Some') for n in names) and ('link' in names or r.op == 'sym' and not names)


def loading(ck):
    """functions that read a block and return the node in it"""
    prog = ck.prog
    cg = callgraph(prog)
    base = outer(prog, [f for f, c, t in callers(prog, lambda c: c.trait == 'ReadOnlyStore' and c.method == 'get') if f.crate == 'banyan' and '/store/' not in (f.file or '') and '::tests' not in f.key])
    out = {}
    lvl = list(base)
    for depth in range(4):
        nxt = []
        for f in lvl:
            rt = ret_ty(f)
            bytes_only = 'u8]' in rt
            if not bytes_only and re.search(r'\b(Branch|Leaf)\b|Index<', rt) and f.key not in out:
                out[f.key] = f
            if bytes_only or depth and f.key in out and re.search(r'\b(Branch|Leaf)\b', rt):
                nxt += outer(prog, [g for g in cg.get(f.key, ()) if g.crate == 'banyan' and '::tests' not in g.key])
            elif f.key in out and re.search(r'Result<(std::option::)?(Option<)?(index::)?(Branch|Leaf)\b', rt.replace('std::result::', '')):
                nxt += outer(prog, [g for g in cg.get(f.key, ()) if g.crate == 'banyan' and '::tests' not in g.key])
        lvl = [g for g in nxt if g.key not in out and ('u8]' in ret_ty(g) or re.search(r'Result<(std::option::)?(Option<)?(index::)?(Branch|Leaf)\b', ret_ty(g).replace('std::result::', '')) or g in nxt and depth == 0)]
    return list(out.values())


def payload(t):
    """Ok / Some wrappers -> content; None for Ok(None)"""
    t = er(t)
    while t.op == 'agg' and t.a[0] in ('Result::Ok', 'Option::Some') and len(t.a) == 2:
        t = er(t.a[1].a[1])
    return t


def check_load(ck, f):
    ps = ck.run(f)
    rt = ret_ty(f)
    for p in ps:
        if p.outcome != 'return':
            continue
        ret = eta(ck.prog, p.ret)
        gets = ev_calls(p, 'ReadOnlyStore::get')

        def ob(rule, ok, msg):
            return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
        ob('load.own', all(own_link(er(e.args[1]), f) for e in gets), 'fetches a block that is not the one its node points to')
        failed = [c for c, v in p.clog if c.op == 'disc' and v == 'Err' and not is_call(er(c.a[0]), 'WeightCache::put')]
        if is_err(ret):
            continue
        ob('load.error', not failed, 'goes on although %s failed' % (failed and flow.show(failed[0])[:60]))
        v = payload(ret)
        if v.op == 'agg' and v.a[0] == 'Option::None':
            none = any(c.op == 'disc' and vv == 'None' and er(c.a[0]).op == 'fld' and er(c.a[0]).a[1] == 'link' for c, vv in p.clog)
            ob('load.none', none and not gets, 'returns nothing although the node has a link')
            continue
        if not gets:
            # from the cache: P21
            hit = [e for e in ev_calls(p, 'WeightCache::get') if outcome(p, er(e.res), 'Some')]
            ob('load.cached', bool(hit) and all(own_link(er(e.args[1]), f) for e in hit) and v is mk('fld', er(hit[-1].res), 'Some.0'), 'returns a node without reading it')
            continue
        if len(gets) != 1:
            ob('load.own', False, 'reads %d blocks for one node' % len(gets))
            continue
        g = er(gets[0].res)
        flds = {x.a[0]: er(x.a[1]) for x in v.a[1:]} if v.op == 'agg' else {}
        if v.op == 'agg' and v.a[0] in ('Branch', 'Leaf'):
            rng = flds.get('byte_range')
            D = None
            if v.a[0] == 'Branch':
                s = decoded(flds.get('children', v), p, ps)
                c = plain_of(s) if s is not None else None
                D = deciphered(c) if c is not None else None
                k = key_of(c, ck.prog, f) if c is not None else None
                ob('load.key', k == 'index_key', 'does not decrypt the branch with the index key of its own stream: %s' % k)
                ob('load.branch', D is not None and block_bytes(D) is g, 'does not return exactly the children decoded from the decrypted block of its link')
            else:
                it = flds.get('items', v)
                sf = {x.a[0]: er(x.a[1]) for x in it.a[1:]} if it.op == 'agg' else {}
                D = deciphered(sf['data']) if 'data' in sf else None
                k = key_of(sf['data'], ck.prog, f) if 'data' in sf else None
                ob('load.key', k == 'value_key', 'does not decrypt the leaf with the value key of its own stream: %s' % k)
                ob('load.leaf', D is not None and block_bytes(D) is g and sf.get('links') is mk('fld', D, '1'), 'does not return exactly the decrypted values and the links of the block of its link')
            ob('load.range', D is not None and rng is not None and is_range(rng, D), 'does not report the byte range of the block it read')
        elif v.op == 'agg' and v.a[0] == '()' and len(v.a) == 3:
            # an index made from a block, and its range
            idx, rng = er(v.a[1].a[1]), er(v.a[2].a[1])
            lists = [x for x in find_terms(idx, lambda x: x.op == 'phi') if decoded(x, p, ps) is not None]
            D = None
            for x in lists:
                c = plain_of(decoded(x, p, ps))
                D = deciphered(c) if c is not None else None
            lk = [x.a[1] for x in find_terms(idx, lambda x: x.op == 'f' and x.a[0] == 'link')]
            ks = [key_of(plain_of(decoded(x, p, ps)), ck.prog, f) for x in lists if plain_of(decoded(x, p, ps)) is not None]
            ob('load.key', ks and all(k == 'index_key' for k in ks), 'does not decrypt the branch with the index key of its own stream')
            ob('load.index', D is not None and block_bytes(D) is g, 'does not make the index from exactly the children in the block')
            ob('load.link', len(lk) == 1 and er(lk[0]).op == 'agg' and er(lk[0]).a[0] == 'Option::Some' and er(er(lk[0]).a[1].a[1]) is er(gets[0].args[1]), 'does not record the link it read from')
            ob('load.range', D is not None and is_range(rng, D), 'does not report the byte range of the block it read')
        else:
            ob('load.shape', False, 'returns %s, which is not a node made from the block' % flow.show(v)[:80])


def check_info(ck, f):
    """classification of a node: with a link it is loadable with exactly that link, otherwise purged"""
    ps = ck.run(f)
    for p in ps:
        if p.outcome != 'return':
            continue
        r = er(p.ret)
        kind = r.a[0].split('::')[-1] if r.op in ('agg', 'call') else None
        args = [x.a[1] for x in r.a[1:]] if r.op == 'agg' else cargs(r)
        args = [eta(ck.prog, a) for a in args]
        idx = [er(param(f, i)) for i, a in enumerate(f.args) if 'Index<' in f.locals[a]]
        sec = [er(param(f, i)) for i, a in enumerate(f.args) if 'Secrets' in f.locals[a]]
        var = [v for c, v in p.clog if c.op == 'disc' and er(c.a[0]) in idx]
        if len(idx) != 1 or len(var) != 1 or kind is None:
            ck.ob('info.kind', False, f.key, '%s does not classify the node it is given' % short(f), f.where)
            continue
        node = mk('fld', idx[0], var[0] + '.0')
        links = [mk('fld', node, 'link')] + [er(c.a[0]) for c, v in p.clog if c.op == 'disc' and is_call(er(c.a[0]), 'Index::link') and er(cargs(er(c.a[0]))[0]) is idx[0]]
        have = [v for c, v in p.clog if c.op == 'disc' and er(c.a[0]) in links]
        want = {('Branch', 'Some'): 'Branch', ('Leaf', 'Some'): 'Leaf', ('Branch', 'None'): 'PurgedBranch', ('Leaf', 'None'): 'PurgedLeaf'}
        k = want.get((var[0], have[0] if have else None))
        ok = kind == k and len(args) >= 1 and er(args[0]) is node
        ck.ob('info.kind', ok, f.key, '%s calls a %s with %s a link %s' % (short(f), var[0], 'out' if have == ['None'] else '', kind), f.where)
        if k in ('Branch', 'Leaf') and ok:
            l = er(args[1])
            fs = {x.a[0]: er(x.a[1]) for x in l.a[1:]} if l.op == 'agg' else {}
            ok = any(mk('fld', k, 'Some.0') in fs.values() for k in links) and any(s in fs.values() for s in sec) and er(param(f, 0)) in fs.values()
            ck.ob('info.loader', ok, f.key, '%s hands out a loader for another link or other secrets than those of the node' % short(f), f.where)


def P22(ck):
    """Loading. Every function that fetches a block and returns a Leaf, Branch or branch index: exactly one store read, of the link
    of its own node; the payload is the whole payload field of the decoded block, decrypted with the cipher positioned at the
    position field of the same block; children are all items decoded from the decompressed payload (cut to the length of that
    decompression), in order, until its end; byte range = position .. position + payload length; no Ok result after any failed
    step; nothing exactly if the node has no link. node_info: loadable exactly with a link, loader for exactly that link."""
    prog = ck.prog
    fs = loading(ck)
    for f in fs:
        check_load(ck, f)
    infos = [f for f in all_fns(prog) if f.crate == 'banyan' and '{closure' not in f.key and f.trait is None and 'NodeInfo<' in ret_ty(f) and 'Option' not in ret_ty(f) and 'Result' not in ret_ty(f)]
    for f in infos:
        check_info(ck, f)
    for r, k in (('load.own', 8), ('load.key', 5), ('load.branch', 3), ('load.leaf', 2), ('load.index', 1), ('load.link', 1), ('load.range', 5), ('load.none', 2), ('load.error', 6), ('info.kind', 4), ('info.loader', 2)):
        ck.floor(r, k)
