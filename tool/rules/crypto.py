"""P01-P04: keystream positions, key separation, encrypted-only blocks, visible links."""
from common import *


def param_only(t, fn):
    """the data is exactly (part of) a parameter of the function: the producer is in the caller"""
    o = t
    while o.op in ('fld', 'at', 'upd', 'phi', 'mut'):
        o = o.a[2] if o.op == 'phi' else o.a[3] if o.op == 'mut' else o.a[0]
    return o.op == 'sym'


PUT = ('BlockWriter::put',)


def put_roots(ck):
    """functions on whose paths a block's content is built and handed to the block writer.
    Starts at the direct callers of BlockWriter::put and moves to the callers as long as the data
    is just a parameter."""
    if 'put_roots' in ck.__dict__:
        return ck.put_roots
    prog = ck.prog
    direct = [f for f, c, t in callers(prog, lambda c: c.trait == 'BlockWriter' and c.method == 'put') if f.crate == 'banyan' and '/store/' not in (f.file or '')]
    direct = [f for f in direct if f.trait != 'BlockWriter']
    work = list(dict.fromkeys(direct))
    seen = set()
    roots = []
    cg = callgraph(prog)
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        ps = ck.run(f)
        puts = [(p, e) for p in ps for e in ev_calls(p, *PUT)]
        up = [e for p, e in puts if param_only(e.args[1], f)]
        if up:
            cs = [g for g in cg.get(f.key, ()) if g.key != f.key]
            if not cs:
                roots.append((f, ps))
            work.extend(cs)
        else:
            roots.append((f, ps))
    ck.put_roots = roots
    return roots


def callgraph(prog):
    """callee key -> [caller fns] (closures are attributed to the function that contains them)"""
    if hasattr(prog, '_cg'):
        return prog._cg
    cg = {}
    e = flow.Engine(prog, INDEX_ACC)
    byname = {}
    for f in all_fns(prog):
        byname[f.key] = f
    class FR:
        pass
    for f in all_fns(prog):
        fr = FR()
        fr.fn = f
        owner = f
        if getattr(f, 'is_closure', False):
            k = f.key
            while '::{' in k:
                k = k[:k.rindex('::{')]
                if k in byname:
                    owner = byname[k]
                    break
        for b, (stm, term) in f.blocks.items():
            if term[0] == 'call':
                try:
                    c = flow.parse_callee(term[2])
                    g = e.resolve(c, fr)
                except Exception:
                    g = None
                if g is not None:
                    cg.setdefault(g.key, [])
                    if owner not in cg[g.key]:
                        cg[g.key].append(owner)
    prog._cg = cg
    return cg


def node_of(D):
    """the structure handed to the block codec: put(Codec::encode(_, node).Ok.0)"""
    t = unphi(D)
    if t.op == 'fld' and t.a[1] == 'Ok.0' and is_call(t.a[0], 'Codec::encode'):
        return cargs(t.a[0])[-1]
    return None


def ciphers(t):
    """apply_keystream terms: (mut term, buffer, cipher key, seek position or None)"""
    out = []
    for x in find_terms(t, lambda x: is_mut(x, 'StreamCipher::apply_keystream') and x.a[2] == 1):
        out.append((x,) + cipher_parts(x))
    return out


def cipher_parts(x):
    buf, c = x.a[3], x.a[4]
    key = pos = None
    c = unphi(c)
    while c.op == 'mut':
        if is_mut(c, 'StreamCipherSeek::seek') and pos is None:
            pos = c.a[4]
        c = unphi(c.a[3])
    if is_call(c, 'NewCipher::new', 'KeyIvInit::new'):
        key = cargs(c)[0]
    return buf, key, pos


def enc_sites(ck):
    """(fn, path, put event, node, [(mut, buf, key, pos)]) for each analysed block write"""
    out = []
    for f, ps in put_roots(ck):
        for p in ps:
            for e in ev_calls(p, *PUT):
                node = node_of(e.args[1])
                cs = ciphers(node) if node is not None else ciphers(e.args[1])
                out.append((f, p, e, node, cs))
    return out


def offset_field(prog):
    # the counter inside CipherOffset
    return [n for n, t in struct_fields(prog, 'CipherOffset')] or ['value']


def P01(ck):
    """every application of a cipher to data (found by the trait method, not by name): the cipher is fresh, positioned by a
    seek exactly once before, at the position that is written into (encrypting) or read from (decrypting) the same block;
    when encrypting that position comes from one reservation of exactly the encrypted length in the stream's offset; the
    offset is written only by that reservation (previous value plus length, checked) and by construction, where a stream
    opened from a link starts at the end of the byte range of the root block; nothing restores or resets it."""
    prog = ck.prog
    cf = offset_field(prog)
    # R1 every block written consumes exactly its ciphertext's length at the position it was encrypted
    for f, p, e, node, cs in enc_sites(ck):
        fk = f.key
        ck.ob('block-is-encrypted-once', len(cs) == 1, fk, 'a block handed to the writer contains %d encrypted buffers' % len(cs), where(e))
        for (m, buf, key, pos) in cs:
            ck.ob('position-set', pos is not None, fk, 'the cipher is not positioned before the keystream is applied', where(e))
            if pos is None:
                continue
            isoff = unphi(pos).op in ('fld',) and unphi(pos).a[1] in cf
            ck.ob('position-from-counter', isoff, fk, 'keystream position %s is not the current value of the stream offset counter' % show(pos), where(e))
            # stored position
            stored = node is not None and any(x is pos for x in direct_fields(node))
            ck.ob('stored-position', stored, fk, 'the position stored in the block is not the position %s used for the keystream' % show(pos), where(e))
            # counter advanced past the buffer, before the block leaves
            adv = False
            for w in p.events:
                if w is e:
                    break
                if w.kind == 'write' and w.name.split('.')[-1] in cf:
                    ads = addends(w.args[0])
                    if len(ads) == 2 and any(a is pos for a in ads) and any(a.op == 'call' and a.a[0] == 'len' and same_len(cargs(a)[0], buf) for a in ads):
                        adv = w.raw is None or True
                        adv = not w.name.startswith('_') and written_object(w.name) == show_obj(pos)
            ck.ob('counter-advanced', adv, fk, 'the stream offset is not advanced by the length of the encrypted buffer (position %s) before the block is written' % show(pos), where(e))
        ck.sample('%s: put(%s)' % (fk, ', '.join('pos=%s len(%s)' % (show(c[3]) if c[3] is not None else None, show(c[1])[:60]) for c in cs)))
    ck.floor('counter-advanced', 2)
    # R2/R3 the counter of a live stream only grows, and nobody replaces it
    owners = {'CipherOffset', 'StreamBuilderState', 'StreamBuilder'}
    ofld = field_of_type(prog, 'StreamBuilderState', 'CipherOffset') or 'offset'
    sfld = field_of_type(prog, 'StreamBuilder', 'StreamBuilderState') or 'state'
    for f in all_fns(prog):
        if f.crate != 'banyan' or not touches_type(f, ('CipherOffset', 'StreamBuilderState', 'StreamBuilder', 'StreamTransaction')):
            continue
        for p in ck.run(f, inline=False):
            for w in p.events:
                if w.kind == 'write':
                    parts = w.name.split('.')
                    last = parts[-1]
                    ty = mir.type_head(w.raw).lstrip('&') if w.raw else ''
                    if last in cf and counter_place(prog, f, w, cf):
                        ads = addends(w.args[0])
                        ok = len(ads) >= 2 and any(a is w.old for a in ads)
                        ck.ob('counter-grows', ok, f.key, 'the stream offset counter is set to %s, not to its old value plus the reserved length' % show(w.args[0]), where(w))
                    elif ty in owners or (not w.raw and last in (ofld, sfld)):
                        ck.ob('counter-replaced', False, f.key, 'the offset counter of a live stream builder is overwritten (%s)' % w.name, where(w))
                elif w.kind == 'call' and w.name in ('mem::swap', 'ptr::swap', 'ptr::write'):
                    for a in w.raw:
                        if a.op == 'ref' and (a.a[1] and a.a[1][-1] in (ofld, sfld)):
                            ck.ob('counter-replaced', False, f.key, 'the offset counter of a live stream builder is swapped out', where(w))
    ck.floor('counter-grows', 1)
    # R4 reload continues after the root block: builder and tree offsets come from the end of the root's byte range
    for nm in ('load_stream_builder', 'load_tree'):
        fs = ck.find('Forest::' + nm)
        for f in fs:
            n = 0
            for p in ck.run(f):
                if not succeeded(p):
                    continue
                n += 1
                offs = result_offset(p.ret, cf)
                ok = offs is not None and is_end_of_decrypted(offs)
                ck.ob('resume-after-root', ok, f.key, 'the resumed stream offset is %s, not the end of the root block\'s byte range' % (show(offs) if offs is not None else None), None)
    ck.floor('resume-after-root', 2)
    # R5 snapshot carries the current counter
    for f in ck.find('StreamBuilder::snapshot'):
        for p in ck.run(f):
            if p.outcome == 'return' and mentions(p.ret, lambda x: x.op == 'agg' and x.a[0] == 'Tree') and mentions(p.ret, lambda x: x.op == 'fld' and x.a[1] in ('secrets', 'index_key')):
                ok = mentions(p.ret, lambda x: x.op == 'fld' and x.a[1] in cf)
                ck.ob('snapshot-offset', ok, f.key, 'a snapshot does not carry the current stream offset', None)
    ck.floor('snapshot-offset', 1)
    # R6 a fresh counter is only made for an empty stream or from a stored position
    sites = 0
    for f, c, term in callers(prog, lambda c: c.method == 'new' and (c.selfhead or '') in ('StreamBuilderState',)):
        sites += 1
        ps = ck.run(f)
    ck.ob('builder-constructors', sites >= 2, 'StreamBuilderState::new', 'found %d constructions of a builder state' % sites, None)
    for nm in ('StreamBuilder::new',):
        for f in ck.find(nm):
            for p in ck.run(f):
                if p.outcome == 'return':
                    o = builder_offset(p.ret, cf)
                    ck.ob('fresh-builder', o is not None and o.op == 'int' and o.a[0] == 0 or (o is not None and show(o) in ('0', '0_u64')), f.key, 'a new stream builder starts at offset %s' % (show(o) if o is not None else None), None)


def same_len(a, b):
    # the same buffer, possibly before/after in-place modification of equal length
    return a is b or origin(a) is origin(b) and a.op in ('fld', 'call', 'mut')


def direct_fields(node):
    if node.op == 'agg':
        return [f.a[1] for f in node.a[1:]]
    if node.op == 'upd':
        return [node.a[2]] + direct_fields(node.a[0])
    return []


def written_object(name):
    return name


def show_obj(pos):
    return show(unphi(pos))


def touches_type(f, tys):
    return any(any(t in ty for t in tys) for ty in list(f.locals.values()))


def counter_place(prog, f, w, cf):
    """is the written place the counter field of a CipherOffset?"""
    root, path = w.extra
    if len(path) == 1:
        o = root[1]
        # the object itself must be a CipherOffset
        for i in f.args:
            if mir.type_head(mir.deref_ty(f.locals[i])).endswith('CipherOffset'):
                return True
        return o.op == 'fld' and o.a[1] == (field_of_type(prog, 'StreamBuilderState', 'CipherOffset') or 'offset')
    return path[-2] == (field_of_type(prog, 'StreamBuilderState', 'CipherOffset') or 'offset')


def result_offset(ret, cf):
    r = agg_get(ret, '0') if is_ok(ret) else ret
    return builder_offset(r, cf)


def builder_offset(r, cf):
    if r is None:
        return None
    for x in subterms(r):
        if x.op == 'agg' and x.a[0] == 'CipherOffset':
            return x.a[1].a[1]
    # Tree(Some((index, secrets, offset)))
    if r.op == 'agg' and r.a[0] == 'Tree':
        for x in subterms(r):
            if x.op == 'agg' and x.a[0] == '()' and len(x.a) == 4 and mentions(x, lambda y: y.op == 'agg' and y.a[0].startswith(('Index::', 'BranchIndex'))):
                return x.a[3].a[1]
    return None


def is_end_of_decrypted(t):
    """t == stored position + length of the stored ciphertext"""
    ads = addends(t)
    if len(ads) != 2:
        return False
    ln = [a for a in ads if a.op == 'call' and a.a[0] == 'len']
    ps = [a for a in ads if not (a.op == 'call' and a.a[0] == 'len')]
    if len(ln) != 1 or len(ps) != 1:
        return False
    dec = lambda x: mentions(x, lambda y: is_call(y, 'Codec::decode'))
    return dec(ln[0]) and dec(ps[0])


# --------------------------------------------------------------------------
def nonce_of(m):
    c = unphi(m.a[4])
    while c.op == 'mut':
        c = unphi(c.a[3])
    if is_call(c, 'NewCipher::new', 'KeyIvInit::new'):
        return cargs(c)[1]
    return None


def classify(f):
    """does this function deal with a leaf's values or with a branch's children?  From its types."""
    ret = f.locals.get(0, '')
    args = ' '.join(f.locals[i] for i in f.args)
    leaf = re.search(r"\bLeaf(Index)?\b", ret)
    if leaf and 'Index<' not in ret.replace('LeafIndex<', ''):
        return 'value'
    if re.search(r"\b(Branch|BranchIndex|Index)<", ret) or re.search(r"\[(\w+::)*Index<|Vec<(\w+::)*Index<", args):
        return 'index'
    return None


def key_field(prog, key):
    k = unphi(key)
    return k.a[1] if k.op == 'fld' else None


def crypt_roots(ck):
    """functions on whose paths the key of a keystream application is a field of the stream's secrets (not a parameter)"""
    prog = ck.prog
    cg = callgraph(prog)
    direct = [f for f, c, t in callers(prog, lambda c: c.method in ('apply_keystream', 'try_apply_keystream')) if f.crate == 'banyan']
    work = list(dict.fromkeys(direct))
    seen = set()
    out = []
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        ps = ck.run(f)
        terms = {}
        up = False
        for p in ps:
            for e in ev_calls(p, 'StreamCipher::apply_keystream'):
                m = mk('mut', e.name, None, 1, e.args[1], e.args[0])
                buf, key, pos = cipher_parts(m)
                if key is not None and key.op == 'sym':
                    up = True
                terms.setdefault((show(key) if key is not None else None), (m, key, e))
        if up:
            pub = [g for g in cg.get(f.key, ()) if g.key != f.key and g.crate == 'banyan']
            work.extend(pub)
        if terms and not up:
            out.append((f, ps, terms))
    return out


def P02(ck):
    """Leaf data is encrypted and decrypted with the value key only, branch data with the index key only."""
    prog = ck.prog
    n = {'value': 0, 'index': 0}
    nonces = set()
    for f, ps, terms in crypt_roots(ck):
        want = classify(f)
        for (m, key, e) in terms.values():
            kf = key_field(prog, key) if key is not None else None
            ck.ob('key-known', kf in ('value_key', 'index_key'), f.key, 'keystream key %s is neither of the stream\'s two keys' % (show(key) if key is not None else None), where(e))
            if want:
                n[want] += 1
                ck.ob('key-matches-kind', kf == want + '_key', f.key, '%s data is encrypted/decrypted with %s' % ('leaf' if want == 'value' else 'branch', kf), where(e))
            nn = nonce_of(m)
            if nn is not None:
                nonces.add(show(nn))
            ck.sample('%s: %s key=%s' % (f.key, want, show(key) if key is not None else None))
    ck.floor('key-matches-kind', 6)
    ck.ob('both-kinds', n['value'] >= 2 and n['index'] >= 3, 'kinds', 'leaf sites %d, branch sites %d' % (n['value'], n['index']), None)
    ck.ob('same-nonce', len(nonces) == 1, 'nonce', 'encryption and decryption use different nonces: %s' % sorted(nonces), None)
    # constructor and accessors keep the keys apart
    for f in ck.find('Secrets::new'):
        for p in ck.run(f):
            if p.outcome == 'return':
                a = [ck_param(f, i) for i in range(2)]
                ok = p.ret.op == 'agg' and unphi(agg_get(p.ret, 'index_key') or p.ret).op == 'sym' and show(agg_get(p.ret, 'index_key')) == a[0] and show(agg_get(p.ret, 'value_key')) == a[1]
                ck.ob('secrets-new', ok, f.key, 'Secrets::new(index, value) stores %s' % show(p.ret), None)
    for acc in ('index_key', 'value_key'):
        for f in ck.find('Secrets::' + acc):
            for p in ck.run(f):
                if p.outcome == 'return':
                    ok = mentions(p.ret, lambda x: (x.op == 'fld' and x.a[1] == acc)) or acc in show(p.ret)
                    ck.ob('secrets-accessor', ok, f.key, '%s returns %s' % (acc, show(p.ret)), None)


def ck_param(f, i):
    n = f.args[i]
    for d, vs in f.debug.items():
        if '_%d' % n in vs:
            return d
    return 'arg%d' % n


PLAIN = ('Encoder::finish', 'Write::write_all', 'WriteCbor::write_cbor', 'CompactSeq::to_vec', 'Encoder::new')


def P03(ck):
    """A block handed to the writer carries the payload only in encrypted form."""
    prog = ck.prog
    for f, p, e, node, cs in enc_sites(ck):
        D = e.args[1]
        ck.ob('put-encoded-node', node is not None, f.key, 'the block is not the encoded form of a node: %s' % show(D)[:200], where(e))
        ck.ob('put-has-ciphertext', len(cs) == 1, f.key, 'the block contains no encrypted payload: %s' % show(D)[:300], where(e))
        # outside the encrypted buffer only the position and the links may appear
        bad = []
        st = [node if node is not None else D]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if is_mut(x, 'StreamCipher::apply_keystream') and x.a[2] == 1:
                b = x.a[3]
                # the whole buffer, not a part of it
                if b.op in ('idx', 'slice') or is_call(b, 'Index::index', 'IndexMut::index_mut', 'split_at_mut', 'get_mut'):
                    bad.append(b)
                continue
            if x.op == 'call' and (any(cname(x.a[0], s) for s in PLAIN)):
                bad.append(x)
                continue
            if x.op == 'upd' and str(x.a[1]).startswith('['):
                bad.append(x)
            for c in x.a:
                if isinstance(c, T):
                    st.append(c)
        ck.ob('no-plaintext', not bad, f.key, 'unencrypted payload data reaches the block writer: %s' % (show(bad[0])[:200] if bad else ''), where(e))
        for (m, buf, key, pos) in cs:
            src = find_terms(buf, lambda x: is_call(x, 'Encoder::finish'))
            ck.ob('whole-buffer', bool(src) and unphi(buf).op == 'fld', f.key, 'only part of the payload is encrypted: %s' % show(buf)[:200], where(e))
    ck.floor('no-plaintext', 2)
    # nobody else hands blocks to a writer
    allowed = {f.key for f, ps in put_roots(ck)}
    cov = set()
    for f, ps in put_roots(ck):
        for p in ps:
            for e in ev_calls(p, *PUT):
                cov.add(e.fn.key if e.fn else None)
    for f, c, t in callers(prog, lambda c: c.trait == 'BlockWriter' and c.method == 'put'):
        if f.trait == 'BlockWriter':
            continue
        if f.crate == 'banyan':
            ck.ob('put-covered', f.key in cov or f.key in allowed, f.key, 'blocks are written here without going through the analysed encryption', '%s:%s' % t[5] if t[5] else None)


def scraper(ck):
    fs = [f for f in ck.prog.find('scrape_links')]
    if fs:
        return fs
    # structural: the function that runs a cbor visitor over a byte sequence
    return list(dict.fromkeys(f for f, c, t in callers(ck.prog, lambda c: c.canon == 'Cbor::visit') if f.crate == 'banyan'))


def P04(ck):
    """Every link in a block's payload is scraped and stored in the clear part of the block."""
    prog = ck.prog
    sc = scraper(ck)
    if not sc:
        ck.violate('anchor', 'scrape_links', 'no link scraper found', None)
        return
    names = {flow.short(f) for f in sc}
    # 1. every write into the compressor is preceded by scraping the same bytes into the set that is returned
    enc = {}
    for f, c, t in callers(prog, lambda c: c.trait == 'Write' and c.method in ('write_all', 'write') or c.method in ('copy', 'extend_from_slice') and c.canon.startswith('io::')):
        if f.crate == 'banyan' and '/store/' in (f.file or '') and 'zstd' in f.file:
            o = f
            enc[owner(prog, o).key] = owner(prog, o)
    nw = 0
    for f in enc.values():
        if not f.locals.get(0, '').count('ZstdDagCborSeq') and 'Self' not in f.locals.get(0, ''):
            continue
        for p in ck.run(f, opaque=sc):
            roots = set()
            for i, e in enumerate(p.events):
                if e.kind == 'call' and e.name in names:
                    r = e.raw[1]
                    if r.op == 'ref':
                        roots.add(r.a[0])
                if e.kind == 'call' and cname(e.name, 'Write::write_all') and mentions(e.args[0], lambda x: is_call(x, 'Encoder::new')):
                    nw += 1
                    data = e.args[1]
                    # before or after the write, unless the operation fails in between
                    ok = any(g.kind == 'call' and g.name in names and g.args[0] is data for g in p.events) or p.outcome != 'loop' and not succeeded(p)
                    ck.ob('scraped-before-stored', ok, f.key, 'data goes into the block without its links being collected: %s' % show(data)[:150], where(e))
            if succeeded(p) and p.outcome == 'return':
                seqs = find_terms(p.ret, lambda x: x.op == 'agg' and x.a[0] == 'ZstdDagCborSeq')
                for s in seqs:
                    l = agg_get(s, 'links')
                    allroots = {str(r[2]) for r in roots}
                    okl = l is not None and (mentions(l, lambda x: is_mut(x, *names)) or mentions(l, lambda x: x.op == 'phi' and x.a[2].op in ('call', 'mut', 'agg', 'const') and 'empty' in show(x.a[2])) or 'empty' in show(l))
                    # the returned set must be the one the scraper filled
                    if l is not None:
                        src = origin_set(l)
                        okl = okl and src is not None
                    ck.ob('links-returned', okl, f.key, 'the links of the sequence are %s' % (show(l)[:120] if l is not None else None), None)
    ck.floor('scraped-before-stored', 6)
    ck.floor('links-returned', 4)
    # the set handed to the scraper is the set that is returned: one set per constructor, same place
    for f in enc.values():
        if not f.locals.get(0, '').count('ZstdDagCborSeq'):
            continue
        ps = ck.run(f, opaque=sc)
        scr = set()
        col = set()
        for p in ps:
            for e in p.events:
                if e.kind == 'call' and e.name in names and e.raw[1].op == 'ref':
                    scr.add(lroot(e.raw[1]))
                if e.kind == 'call' and cname(e.name, 'Iterator::collect') and e.fn is not None:
                    pass
            if p.outcome == 'loop' and p.updates:
                pass
        ck.ob('one-link-set', len(scr) <= 1, f.key, 'links are collected into %d different sets' % len(scr), None)
    # 2. the scraper itself: visits every item, keeps every link, rejects malformed ones
    for f in sc:
        ps = ck.run(f)
        okvisit = False
        for p in ps:
            if p.outcome == 'loop':
                v = ev_calls(p, 'Cbor::visit')
                pr = ev_calls(p, 'Cbor::checked_prefix')
                ok = bool(v) and bool(pr) and any(contains(x.args[0], pr[0].res) for x in v)
                okvisit = okvisit or ok
                ck.ob('scraper-visits-all', ok, f.key, 'an item of the sequence is skipped by the link scraper', None)
                nx = [u for u in (p.updates or {}).values() if u.op == 'fld' and contains(u, pr[0].res)] if pr else []
                ck.ob('scraper-advances', bool(nx), f.key, 'the link scraper does not advance to the next item', None)
            elif succeeded(p) and p.outcome == 'return':
                done = [c for c, v in p.clog if v is True and ('is_empty' in show(c) or 'len(' in show(c))]
                ck.ob('scraper-until-end', bool(done) , f.key, 'the link scraper stops before the end of the data', None)
        ck.ob('scraper-loop', okvisit, f.key, 'the link scraper does not loop over all items', None)
    for f in [g for g in all_fns(prog) if g.trait == 'Visitor' and g.method == 'visit_simple' and g.crate == 'banyan']:
        kept = 0
        for p in ck.run(f):
            if p.outcome != 'return':
                continue
            ext = [e for e in p.events if e.kind == 'call' and e.name.split('::')[-1] in ('extend', 'insert', 'push', 'extend_one')]
            isb = any(mentions(a, lambda x: x.op == 'fld' and x.a[1] == 'Bytes.0') for e in p.events if e.kind == 'call' for a in e.args)
            is42 = tag42(p)
            if is42 and isb:
                if succeeded(p):
                    kept += 1
                    got = bool(ext) and any(mentions(e.args[-1], lambda x: is_call(x, 'Cid::read_bytes', 'Cid::try_from', 'TryFrom::try_from', 'CidGeneric::read_bytes')) for e in ext)
                    ck.ob('link-kept', got, f.key, 'a tagged link is accepted without being recorded', None)
        ck.ob('link-visitor', kept >= 1, f.key, 'the link visitor records no links', None)
    ck.floor('link-visitor', 1)
    # 3. the links survive encryption/decryption
    for f, p, e, node, cs in enc_sites(ck):
        if node is None:
            continue
        flds = direct_fields(node)
        ok = any(origin_set(x) is not None for x in flds)
        ck.ob('links-in-block', ok, f.key, 'the block written does not contain the scraped links: %s' % show(node)[:200], where(e))
    ck.floor('links-in-block', 2)


def tag42(p):
    for c, v in p.clog:
        s = show(c)
        if 'tags' in s or 'single' in s:
            if '42' in s and v is True:
                return True
            if v == 42 or str(v) == '42':
                return True
    return False


def owner(prog, f):
    k = f.key
    while '::{' in k:
        k = k[:k.rindex('::{')]
    for g in all_fns(prog):
        if g.key == k:
            return g
    return f


def lroot(r):
    return (r.a[0][0], str(r.a[0][1]), str(r.a[0][2])) if r.a[0][0] == 'L' else ('O', show(r.a[0][1]), '')


def origin_set(l):
    """links field: collect(iter(set)) of the set the scraper filled"""
    for x in subterms(l):
        if is_call(x, 'Iterator::collect', 'collect', 'into_iter', 'iter') or x.op in ('iter', 'collect'):
            return x
    return None
