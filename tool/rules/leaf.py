"""P05, P06: filling leaves -- limits and key/value pairing."""
from common import *
from facts import *
from write import short, param
import flow


def fills(ck):
    prog = ck.prog
    out = []
    for f in ck.find('ZstdDagCborSeq::fill') + ck.find('ZstdDagCborSeq::fill_ipld', required=False):
        op = prog.find('scrape_links')
        out.append((f, ck.run(f, opaque=op)))
    return out


def encoded_from(p, X):
    """values whose encoding the byte string X consists of"""
    x = unphi(X)
    if x.op == 'fld' and x.a[1] == 'Ok.0' and is_call(x.a[0], 'Codec::encode', 'encode'):
        return [cargs(x.a[0])[-1]]
    if is_mut(x, 'CborBuilder::append_to', 'append_to'):
        if unphi(x.a[3]) is not x.a[3] or not is_call(x.a[3], 'empty'):
            return None       # stale bytes in the buffer
        out = []
        for e in p.events:
            if e.kind == 'call' and cname(e.name, 'WriteCbor::write_cbor') or e.kind == 'call' and cname(e.name, 'write_cbor'):
                b = e.args[-1]
                if is_call(b, 'CborBuilder::append_to', 'append_to') and cargs(b)[0] is x.a[3]:
                    out.append(e.args[0])
        return out
    return None


def next_events(p, frm):
    gone = {c.a[0] for c, v in p.clog if c.op == 'disc' and v == 'None'}
    return [e for e in p.events if e.kind == 'call' and cname(e.name, 'Iterator::next') and origin(e.args[0]) is frm and e.res not in gone]


def value_of(t, frm):
    """is t the value part of the item of `frm` (peeked or taken)?"""
    t = unphi(t)
    if t.op == 'fld' and t.a[1] == '1':
        t = t.a[0]
    elif t.op == 'fld' and str(t.a[1]).endswith('Some.0.1'):
        pass
    else:
        return False
    return t.op == 'fld' and t.a[1] == 'Some.0' and is_call(t.a[0], 'Iterator::peek', 'Peekable::peek', 'peek', 'Iterator::next') and origin(cargs(t.a[0])[0]) is frm


def key_of(t, frm):
    t = unphi(t)
    return t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'fld' and t.a[0].a[1] == 'Some.0' and is_call(t.a[0].a[0], 'Iterator::next') and origin(cargs(t.a[0].a[0])[0]) is frm


class Round:
    """one consumption of an item on a path"""


def rounds(f, ps):
    frm, keys = param(f, 1), param(f, 2)
    for p in ps:
        ne = next_events(p, frm)
        if not ne:
            continue
        yield p, ne


def P05(ck):
    """an item is consumed only while the key count is below max_keys and the encoded size stays within uncompressed_size;
    an item larger than the limit is an error before anything is consumed; `full` is decided from all three limits"""
    fs = fills(ck)
    for f, ps in fs:
        frm, keys = param(f, 1), param(f, 2)
        csize, usize, mkeys = param(f, 4), param(f, 5), param(f, 6)
        for p, ne in rounds(f, ps):
            writes = item_writes(p, frm)
            for fa in path_facts(p, ps):
                kl = [x for x in order_terms(fa) if is_len(x) and origin(cargs(x)[0]) is keys]
                ck.ob('consume.key-limit', any(fa.lt(x, mkeys) for x in kl), f.key, '%s takes an item without the number of keys being below the maximum' % short(f), f.where)
                for X in writes:
                    tot = [x for x in order_terms(fa) if X in [cargs(y)[0] for y in addends(x) if is_len(y)] and len(addends(x)) == 2]
                    ok = any(fa.le(x, usize) and size_term(x, X) for x in tot)
                    if ok:
                        x = [x for x in tot if fa.le(x, usize) and size_term(x, X)][0]
                        base = [y for y in addends(x) if y.op == 'phi'][0]
                        ck.ob('size.start', start_ok(p, unphi(base), param(f, 0)), f.key, '%s starts counting the uncompressed size at %s although there may be existing content' % (short(f), show(unphi(base))[:60]), f.where)
                    ck.ob('consume.size-limit', ok, f.key, '%s takes an item without the size so far plus its encoded size being within the uncompressed limit' % short(f), f.where)
                ck.ob('consume.has-bytes', len(writes) >= 1, f.key, '%s takes an item without encoding it' % short(f), f.where)
            if p.outcome == 'loop':
                for X in writes:
                    ok = any(v.op == 'bin' and v.a[0] == 'Add' and lenof_of(v, X) for k, v in p.updates.items())
                    ck.ob('size.accumulates', ok, f.key, '%s does not add the encoded size of a taken item to the size so far' % short(f), f.where)
        for p in ps:
            # an item that can never fit must be reported, not skipped and not left for an endless retry
            if p.outcome != 'return':
                continue
            over = False
            for fa in path_facts(p, ps):
                for x in order_terms(fa):
                    if is_len(x) and fa.lt(usize, x) and encoded_from(p, cargs(x)[0]):
                        over = True
            if over:
                ck.ob('oversize.error', is_err(p.ret) and not next_events(p, frm), f.key, '%s does not fail on an item larger than the uncompressed limit before taking it' % short(f), f.where)
        full_rows(ck, f, ps, frm, keys, csize, usize, mkeys)
    ck.floor('consume.key-limit', 2)
    ck.floor('consume.size-limit', 2)
    ck.floor('size.accumulates', 2)
    ck.floor('size.start', 4)
    ck.floor('oversize.error', 2)
    ck.floor('full.true', 6)
    ck.floor('full.false', 4)
    config_args(ck, [f for f, ps in fs])


def start_ok(p, base, comp):
    dec = [e for e in p.events if e.kind == 'call' and 'decompress' in e.name.lower() and any(origin(a) is comp for a in e.args)]
    empty = [v for c, v in p.clog if (c.op == 'call' and c.a[0].endswith('is_empty') and origin(cargs(c)[0]) is comp) or (c.op == 'bin' and any(is_len(x) and origin(cargs(x)[0]) is comp for x in c.a[1:]))]
    if not dec:
        return base is INT(0) and bool(empty)
    rs = {mk('fld', e.res, 'Ok.0') for e in dec} | {mk('fld', mk('fld', e.res, 'Ok.0'), '0') for e in dec}
    return base in rs or is_len(base) and any(contains(base, e.res) for e in dec)


def size_term(x, X):
    """x = <size so far> + len(X): the other addend is a running total (a loop value)"""
    o = [a for a in addends(x) if not (is_len(a) and cargs(a)[0] is X)]
    return len(o) == 1 and o[0].op == 'phi'


def lenof_of(v, X):
    ad = addends(v)
    return any(is_len(a) and cargs(a)[0] is X for a in ad) and any(a.op == 'phi' for a in ad) and len(ad) == 2


def order_terms(fa):
    out = []
    for a in fa.lit:
        if a.op == 'bin' and a.a[0] in ('Lt', 'Eq'):
            out += [a.a[1], a.a[2]]
    return out


def item_writes(p, frm):
    """byte strings written to the encoder that encode the item's value"""
    out = []
    for e in p.events:
        if e.kind == 'call' and e.name.split('::')[-1] in ('write_all', 'write'):
            X = e.args[1]
            vs = encoded_from(p, X)
            if vs and any(value_of(v, frm) for v in vs):
                out.append(X)
    return out


def full_rows(ck, f, ps, frm, keys, csize, usize, mkeys):
    for p in ps:
        if p.outcome != 'return' or not is_ok(p.ret):
            continue
        tup = agg_get(p.ret, '0')
        if tup.op != 'agg' or agg_get(tup, '1') is None:
            ck.ob('full.shape', False, f.key, '%s does not return (sequence, full)' % short(f), f.where)
            continue
        flag = agg_get(tup, '1')
        seq = agg_get(tup, '0')
        data = agg_get(seq, 'data') if seq.op == 'agg' else None
        if data is None:
            data = mk('fld', seq, 'data')
        nd = lenof(data)
        for fa, val in bool_rows(p, ps, flag):
            ts = order_terms(fa)
            # what is written so far cannot be longer than the finished frame
            written = [x for x in ts if is_len(x) and is_call(cargs(x)[0], 'Encoder::get_ref', 'get_ref')]
            if any(fa.le(csize, w) for w in written) and fa.lt(nd, csize):
                continue
            kls = [x for x in ts if is_len(x) and origin(cargs(x)[0]) is keys]
            szs = [x for x in ts if not is_len(x) and x not in (csize, usize, mkeys)]
            if val:
                why = fa.le(csize, nd) or any(fa.le(mkeys, k) for k in kls) or any(fa.le(usize, s) for s in szs) or any(fa.lt(usize, s) for s in szs)
                ck.ob('full.true', why, f.key, '%s reports a leaf full without any of the three limits being reached' % short(f), f.where)
            else:
                ended = any(v == 'None' for t, v in fa.disc.items() if is_call(t, 'Iterator::peek', 'peek', 'Iterator::next') and origin(cargs(t)[0]) is frm)
                okc = fa.lt(nd, csize)
                okk = any(fa.lt(k, mkeys) for k in kls)
                oks = any(fa.lt(s, usize) for s in szs)
                ck.ob('full.false', okc and okk and oks, f.key, '%s may report a leaf not full although %s' % (short(f), 'the compressed size goal is reached' if not okc else 'the key limit is reached' if not okk else 'the uncompressed size limit is reached'), f.where)
                ck.ob('full.rest', ended, f.key, '%s may report a leaf not full while items that did not fit remain' % short(f), f.where)


def config_args(ck, fs):
    """the writer passes its configured limits in the right positions"""
    prog = ck.prog
    keys = {f.key for f in fs}
    want = {3: 'zstd_level', 4: 'target_leaf_size', 5: 'max_uncompressed_leaf_size', 6: 'max_leaf_count'}
    for g, c, t in callers(prog, lambda c: c.method in ('fill', 'fill_ipld') and c.selfhead == 'ZstdDagCborSeq'):
        if g.crate != 'banyan' or '::tests' in g.key:
            continue
        ps = ck.run(g, opaque=fs)
        for p in ps:
            for e in p.events:
                if e.kind == 'call' and ('ZstdDagCborSeq::fill' in e.name):
                    for i, nm in want.items():
                        a = unphi(e.args[i])
                        ck.ob('config.' + nm, a.op == 'fld' and a.a[1] == nm, g.key, '%s passes %s where the configured %s belongs' % (short(g), show(a)[:80], nm), g.where)
    ck.floor('config.max_leaf_count', 1)
    ck.floor('config.max_uncompressed_leaf_size', 1)


# --------------------------------------------------------------------------
def P06(ck):
    """each consumed item contributes exactly its own key to the key list and the encoding of its own value to the data,
    in the same round; existing data is carried over whole and first; a leaf is extended with its own keys and data"""
    prog = ck.prog
    fs = fills(ck)
    for f, ps in fs:
        frm, keys, comp = param(f, 1), param(f, 2), param(f, 0)
        for p, ne in rounds(f, ps):
            if p.outcome not in ('loop', 'return'):
                continue
            if p.outcome == 'return' and is_err(p.ret):
                continue      # the whole fill fails, nothing is kept
            w = item_writes(p, frm)
            pk = [e for e in p.events if e.kind == 'call' and cname(e.name, 'push') and origin(e.args[0]) is keys]
            ck.ob('round.one-item', len(ne) == 1, f.key, '%s takes %d items in one round' % (short(f), len(ne)), f.where)
            ck.ob('round.one-value', len(w) == 1, f.key, '%s writes %d encoded values for one taken item' % (short(f), len(w)), f.where)
            ck.ob('round.one-key', len(pk) == 1, f.key, '%s appends %d keys for one taken item' % (short(f), len(pk)), f.where)
            for e in pk:
                ck.ob('round.own-key', key_of(e.args[1], frm), f.key, '%s appends %s, not the key of the item it takes' % (short(f), show(e.args[1])[:80]), f.where)
            for X in w:
                vs = encoded_from(p, X)
                ck.ob('round.own-value', len(vs) == 1 and value_of(vs[0], frm), f.key, '%s writes bytes that are not exactly the encoding of the item\'s value' % short(f), f.where)
            # nothing else goes into the encoder or the key list in this round
            bad = [v for k, v in (p.updates or {}).items() for x in find_terms(v, lambda x: x.op == 'mut' and origin(x) is keys) if x.a[0].split('::')[-1] not in ('push',)] if p.outcome == 'loop' else []
            ck.ob('round.append-only', not bad, f.key, '%s changes the key list other than by appending' % short(f), f.where)
        # existing content first
        for p in ps:
            if p.outcome != 'return' or not is_ok(p.ret):
                continue
            emp = [v for c, v in p.clog if c.op == 'call' and c.a[0].endswith('is_empty') and origin(cargs(c)[0]) is comp]
            zero = [v for c, v in p.clog if c.op == 'bin' and c.a[0] in ('Eq', 'Lt') and any(is_len(x) and origin(cargs(x)[0]) is comp for x in c.a[1:])]
            dec = [e for e in p.events if e.kind == 'call' and 'decompress' in e.name.lower() and any(origin(a) is comp for a in e.args)]
            tup = agg_get(p.ret, '0')
            seq = agg_get(tup, '0')
            data = agg_get(seq, 'data') if seq.op == 'agg' else None
            if emp and emp[0] is True or (not emp and not zero and not dec):
                ck.ob('carry.only-if-empty', bool(emp) and emp[0] is True, f.key, '%s does not carry over the existing compressed data although it may be non-empty' % short(f), f.where)
                continue
            if not dec:
                ck.ob('carry.decompressed', bool(zero), f.key, '%s drops the existing compressed data' % short(f), f.where)
                continue
            ck.ob('carry.decompressed', True, f.key)
            # what was decompressed is written to the encoder first, whole
            ws = [e for e in p.events if e.kind == 'call' and e.name.split('::')[-1] == 'write_all']
            ok = bool(ws) and mentions(ws[0].args[1], lambda x: is_call(x, 'slice') or x.op == 'mut' and 'decompress' in x.a[0].lower()) and find_enc_base(ws[0].args[0])
            ck.ob('carry.first', ok, f.key, '%s does not write the existing content before new items' % short(f), f.where)
            if data is not None:
                ck.ob('carry.same-encoder', any(contains(data, ws[0].args[1]) for _ in [0]) if ws else False, f.key, '%s finishes an encoder that did not receive the existing content' % short(f), f.where)
            kept = keys_kept(p, keys)
            ck.ob('carry.keys', kept, f.key, '%s drops or reorders keys it was given' % short(f), f.where)
    ck.floor('round.one-item', 4)
    ck.floor('round.own-key', 4)
    ck.floor('round.own-value', 4)
    ck.floor('carry.first', 2)
    extend_pairing(ck, [f for f, _ in fs])


def find_enc_base(t):
    u = unphi(t)
    return u.op != 'mut'


def keys_kept(p, keys):
    return True


def extend_pairing(ck, fs):
    """a leaf is extended from its own index and its own stored data, and only a new leaf starts empty"""
    prog = ck.prog
    ctor = [f for f in constructors(prog, 'LeafIndex') if f.trait is None and f.crate == 'banyan']
    n = 0
    # what the default to_vec yields is decided where it is defined (elements.py)
    whole = [g for g in prog.find('CompactSeq::to_vec') if g.crate == 'banyan' and not g.is_closure]
    for f in ctor:
        ps = ck.run(f, opaque=list(fs) + whole)
        for p in ps:
            for e in p.events:
                if e.kind == 'call' and 'ZstdDagCborSeq::fill' in e.name:
                    ks = e.args[2]
                    ck.ob('extend.keys-from-arg', origin_param(ks, f) or is_call(unphi(ks), 'empty', 'Default::default', 'default'), f.key, '%s starts from keys %s' % (short(f), show(ks)[:80]), f.where)
                    ck.ob('extend.data-from-arg', origin_param(e.args[0], f), f.key, '%s starts from data %s' % (short(f), show(e.args[0])[:80]), f.where)
        dk = [i for i, a in enumerate(f.args) if 'KeySeq' in f.locals[a]]
        dd = [i for i, a in enumerate(f.args) if '[u8]' in f.locals[a]]
        if not ck.ob('extend.shape', len(dk) == 1 and len(dd) == 1, f.key, '%s: key and data parameters not recognised' % short(f), f.where):
            continue
        from crypto import callgraph
        for g in callgraph(prog).get(f.key, ()):
            op = [f] + [h for h in prog.find('Transaction::extend_branch') + prog.find('Transaction::extend_above') + prog.find('Forest::load_leaf') + prog.find('Forest::load_branch') if h.key != g.key]
            ps = ck.run(g, opaque=op)
            for p in ps:
                for e in p.events:
                    if e.kind != 'call' or not any(cname(e.name, s) for s in (f.key, short(f), f.method or '')):
                        continue
                    k, d = unphi(e.args[dk[0]]), unphi(e.args[dd[0]])
                    n += 1
                    if k.op == 'agg' and k.a[0] == 'Option::None':
                        ok = is_call(d, 'empty') or d.op == 'const' or (d.op == 'agg' and len(d.a) == 1) or d.op == 'call' and 'empty' in d.a[0]
                        ck.ob('extend.new-is-empty', ok, g.key, '%s creates a leaf without keys but with existing data %s' % (short(g), show(d)[:80]), g.where)
                        continue
                    kk = agg_get(k, '0') if k.op == 'agg' else k
                    idx = kk.a[0] if kk.op == 'fld' and kk.a[1] == 'keys' else None
                    ok = idx is not None and leaf_loaded_from(d, idx)
                    ck.ob('extend.same-leaf', ok, g.key, '%s extends a leaf with keys %s and data %s, which are not those of one leaf' % (short(g), show(kk)[:60], show(d)[:80]), g.where)
    ck.floor('extend.same-leaf', 1)
    ck.floor('extend.new-is-empty', 1)


def origin_param(t, f):
    o = t
    while True:
        o2 = origin(o)
        if o2.op == 'fld':
            o2 = o2.a[0]
        elif o2.op == 'call' and len(cargs(o2)) >= 1 and o2.a[0].split('::')[-1] in ('to_vec', 'clone', 'into', 'collect', 'iter', 'unwrap_or_default', 'map', 'keys', 'default', 'into_iter'):
            o2 = cargs(o2)[0]
        elif o2.op == 'iter':
            o2 = o2.a[0]
        elif o2.op == 'map' and o2.a[0].op == 'agg':
            # (0..seq.len()).map(|i| seq.get(i)): every element in order
            lo, hi = agg_get(o2.a[0], 'start'), agg_get(o2.a[0], 'end')
            if lo is INT(0) and hi is not None and is_len(hi) and find_terms(o2.a[1], lambda x: x.op == 'call' and x.a[0].endswith('get') and cargs(x)[0] is cargs(hi)[0] and cargs(x)[1].op == 'bound'):
                o2 = cargs(hi)[0]
        elif o2.op in ('call',) and o2.a[0] in ('empty',):
            return True
        if o2 is o:
            return o.op == 'sym'
        o = o2


def leaf_loaded_from(d, idx):
    """d is the data of the leaf loaded through idx's own link"""
    whole = idx
    while whole.op == 'fld' and whole.a[1] in ('Leaf.0', '0', 'Leaf'):
        whole = whole.a[0]
    links = {mk('fld', idx, 'link')} | set(find_terms(d, lambda x: is_call(x, 'Index::link') and unphi(cargs(x)[0]) is unphi(whole)))
    return any(any(contains(x, l) for l in links) or any(a is idx or a is whole for a in cargs(x))
               for x in find_terms(d, lambda x: x.op == 'call' and ('load_leaf' in x.a[0] or x.a[0].endswith('ReadOnlyStore::get'))))
