"""P27: the stored format."""
import re
from common import *
from write import short, param
from append import ret_ty
from elements import POS, at, rows, is_named, stripped
import flow
import mir
from flow import mk, show, INT

CONV = ('to_string', 'new', 'from', 'into', 'clone', 'to_owned', 'cloned', 'collect', 'to_vec', 'iter', 'into_iter', 'as_ref', 'copied', 'deref')

# what is stored, and how: the names (maps) or the fields in order (arrays) of every persistent record
MAPS = {
    'LeafIndex': {'keys', 'link', 'sealed', 'value_bytes'},
    'BranchIndex': {'count', 'key_bytes', 'level', 'link', 'sealed', 'summaries', 'value_bytes'},
    'KeySeq': {'max_time', 'min_lamport', 'min_time', 'tags'},
}
ARRAYS = {'IpldNode': ('u64', 'Vec<Cid>', 'Ipld')}


def op_of(t):
    """(operation, previous state of the writer, arguments) of one modification of a writer"""
    if t.op == 'mut':
        return t.a[0].split('::')[-1], t.a[3], t.a[4:]
    return None


def num(t):
    while t.op == 'cast':
        t = [x for x in t.a if isinstance(x, T)][-1]
    return t.a[0] if t.op == 'int' else None


def bytes_of(t):
    t = stripped(t)
    while t.op == 'call' and t.a[0].split('::')[-1] in ('slice', 'as_ref', 'as_slice') and (len(cargs(t)) == 1 or cargs(t)[1].op == 'agg' and len(cargs(t)[1].a) == 1):
        t = stripped(cargs(t)[0])
    if t.op == 'agg' and t.a[0] == '[]':
        v = [num(f.a[1]) for f in t.a[1:]]
        return None if None in v else v
    return None


def head(b):
    """major type and number of items of a short cbor head"""
    return {4: 'array', 5: 'map'}.get(b >> 5), b & 31


def written(t, w):
    """everything written to w, in order: ('array' | 'map', n), ('item', value)"""
    out = []
    while t is not w:
        o = op_of(t)
        if o is None:
            return None
        n, t, a = o
        if n in ('write_all', 'write'):
            b = bytes_of(a[0])
            if b is None or len(b) != 1:
                return None
            out.append(head(b[0]))
        elif n in ('write_u8',):
            b = num(a[0])
            if b is None:
                return None
            out.append(head(b))
        elif n == 'write_u64':
            k = num(a[1])
            m = a[0].a[0].split('::')[-1].lower() if a[0].op == 'agg' else None
            if k is None or m not in ('array', 'map'):
                return None
            out.append((m, k))
        elif n == 'encode':
            out.append(('item', a[0]))
        else:
            return None
    return out[::-1]


def text(t):
    t = stripped(t)
    return t.a[0].strip('"') if t.op in ('str', 'const') and isinstance(t.a[0], str) else show(t).strip('"') if show(t).startswith('"') else None


def conv(el, want):
    """el is the value `want`, converted to another representation only"""
    while True:
        if el is want:
            return True
        if el.op == 'call' and el.a[0].split('::')[-1] in CONV and len(cargs(el)) == 1:
            el2 = cargs(el)[0]
        elif el.op in ('iter', 'collect'):
            el2 = el.a[0]
        elif el.op == 'cast':
            el2 = [x for x in el.a if isinstance(x, T)][-1]
        elif el.op == 'map':
            r = rows(el)
            b = el.a[0]
            while b.op in ('iter', 'collect', 'map') or b.op == 'call' and b.a[0].split('::')[-1] in CONV and len(cargs(b)) == 1:
                b = b.a[0] if b.op != 'call' else cargs(b)[0]
            return r is not None and r.kind == 'all' and b is want and conv(r.el, at(b))
        else:
            return False
        el = el2


def listing(t, base, p, ps):
    """t has exactly one entry for every entry of base, in order, up to representation"""
    t = stripped(t)
    if conv(t, base):
        return True
    r = rows(t, p, ps)
    if r is None or r.kind != 'all':
        return False
    if not all(is_named(e, 'len', 'count') and conv(cargs(e)[0], base) or e.op == 'len' and conv(e.a[0], base) for e in r.ends):
        return False
    return conv(r.el, at(base))


def record(ck, f):
    """derived encoders: one entry per field, under the name of the field"""
    h = mir.type_head(f.selfty)
    fs = struct_fields(ck.prog, h)
    s, w = param(f, 0), param(f, 2)
    dec = [g for g in all_fns(ck.prog) if g.method == 'decode' and g.trait == f.trait and g.selfty and mir.type_head(g.selfty) == h and g.crate == f.crate]
    ck.ob('format.derived', len(dec) == 1 and dec[0].where == f.where, f.key, 'the decoder of %s does not come from the same derive as its encoder' % h, f.where)
    n = 0
    for p in ck.run(f, opaque=[g for g in all_fns(ck.prog) if g.method == 'encode' and g.key != f.key]):
        if p.outcome != 'return' or not succeeded(p):
            continue
        ws = written(p.obj(w), w)
        n += 1
        if ws is None:
            ck.ob('format.shape', False, f.key, '%s does not write a plain record: %s' % (short(f), show(p.obj(w))[:140]), f.where)
            continue
        if h in MAPS or ws and ws[0][0] == 'map':
            names = [text(v) for k, v in ws[1::2]]
            vals = [v for k, v in ws[2::2]]
            ok = ws[0] == ('map', len(fs)) and len(names) == len(vals) == len(fs) and all(k == 'item' for k, v in ws[1:])
            fields = [x for x, _ in fs]
            src = [[x for x in fields if same_value(v, mk('fld', s, x))] for v in vals]
            # a field may be stored under another name, as long as it is not the name of another field
            ok = ok and all(len(x) == 1 for x in src) and len({x[0] for x in src}) == len(fs) and len(set(names)) == len(names)
            ok = ok and all(x[0] == n_ or n_ not in fields for n_, x in zip(names, src))
            ck.ob('format.entries', ok, f.key, '%s writes the entries %s' % (short(f), ', '.join('%s: %s' % (a, show(b)[:40]) for a, b in zip(names, vals))), f.where)
            if h in MAPS:
                ck.ob('format.names', set(names) == MAPS[h], f.key, '%s is stored with the names %s, existing data has %s' % (h, sorted(x or '?' for x in names), sorted(MAPS[h])), f.where)
        elif h in ARRAYS or ws and ws[0][0] == 'array':
            ok = ws[0] == ('array', len(fs)) and [v for k, v in ws[1:]] == [mk('fld', s, n_) for n_, _ in fs] and all(k == 'item' for k, v in ws[1:])
            ck.ob('format.entries', ok, f.key, '%s does not write its fields in order' % short(f), f.where)
            if h in ARRAYS:
                tys = tuple(re.sub(r'(\w+::)+', '', ty).replace(' ', '') for _, ty in fs)
                ck.ob('format.names', tys == ARRAYS[h], f.key, '%s is stored as %s, existing data as %s' % (h, tys, ARRAYS[h]), f.where)
        else:
            ok = len(ws) == 1 and len(fs) == 1 and ws[0][1] is mk('fld', s, fs[0][0]) or len(ws) == 2 and ws[0] == ('array', 1)
            ck.ob('format.entries', ok, f.key, '%s writes %s' % (short(f), ws), f.where)
    ck.ob('format.record', n > 0, f.key, '%s never succeeds' % short(f), f.where)


def same_value(v, x):
    v = stripped(v)
    if v is x:
        return True
    if v.op == 'agg' and len(v.a) > 1:
        return all(f.a[1] is mk('fld', x, f.a[0]) for f in v.a[1:])
    return False


def kinds(ck):
    """leaf and branch of an index are told apart by their names"""
    a, b = MAPS['LeafIndex'], MAPS['BranchIndex']
    for f in all_fns(ck.prog):
        if f.method == 'encode' and f.selfty and mir.type_head(f.selfty) == 'Index' and f.crate == 'banyan':
            s, w = param(f, 0), param(f, 2)
            for p in ck.run(f, opaque=[g for g in all_fns(ck.prog) if g.method == 'encode' and g.key != f.key]):
                if p.outcome != 'return' or not succeeded(p):
                    continue
                ws = written(p.obj(w), w)
                v = ws[0][1] if ws and len(ws) == 1 and ws[0][0] == 'item' else None
                ck.ob('format.kinded', v is not None and v in (mk('fld', s, 'Leaf.0'), mk('fld', s, 'Branch.0')), f.key, '%s does not write just the index of the node' % short(f), f.where)
    ck.floor('format.kinded', 2)


def tag_index(ck):
    prog = ck.prog
    fs = struct_fields(prog, 'TagIndex')
    table = [n for n, ty in fs if not ty.startswith('Vec<')]
    elems = [n for n, ty in fs if ty.startswith('Vec<')]
    if not ck.ob('format.tags', len(table) == 1 and len(elems) == 1, 'TagIndex', 'fields of TagIndex not recognised'):
        return
    T_, E_ = table[0], elems[0]
    for f in all_fns(prog):
        if f.is_closure or not f.selfty or mir.type_head(f.selfty) != 'TagIndex' or f.crate != 'banyan_utils':
            continue
        if f.method == 'encode':
            s, w = param(f, 0), param(f, 2)
            ps = ck.run(f)
            for p in ps:
                if p.outcome != 'return' or not succeeded(p):
                    continue
                ws = written(p.obj(w), w)
                ok = ws is not None and len(ws) == 3 and ws[0] == ('array', 2) and listing(ws[1][1], mk('fld', s, T_), p, ps) and listing(ws[2][1], mk('fld', s, E_), p, ps)
                ck.ob('format.tags.encode', ok, f.key, '%s does not write the table and the index lists, each whole and in order, as a pair: %s' % (short(f), show(p.obj(w))[:160]), f.where)
        elif f.method == 'decode':
            r = param(f, 1)
            ps = ck.run(f)
            for p in ps:
                if p.outcome != 'return' or not succeeded(p):
                    continue
                v = stripped(p.ret)
                v = v.a[1].a[1] if v.op == 'agg' and v.a[0].endswith('Ok') else v
                got = {g.a[0]: g.a[1] for g in v.a[1:]} if v.op == 'agg' else {}
                first, a = reads(got.get(T_), r)
                second, b = reads(got.get(E_), r)
                ok = a is not None and b is not None
                # the pair head, then the table, then the lists
                ok = ok and head_read(p, first, r) and second.op == 'mut' and second.a[0].split('::')[-1] == 'decode' and second.a[3] is first
                ok = ok and listing(got[T_], a, p, ps) and listing(got[E_], b, p, ps)
                ck.ob('format.tags.decode', ok, f.key, '%s does not read back the table and the index lists in the order they are written: %s' % (short(f), show(v)[:200]), f.where)
        elif f.method == 'serialize':
            for p in ck.run(f):
                if p.outcome != 'return':
                    continue
                xs = [x for x in flow.all_subterms(p.ret) if x.op == 'agg' and x.a[0] == '()' and len(x.a) == 3] if p.ret is not None else []
                xs += [a for e in p.events if e.kind == 'call' for a in e.args if a.op == 'agg' and a.a[0] == '()' and len(a.a) == 3]
                s = param(f, 0)
                ok = any([y.a[1] for y in x.a[1:]] == [mk('fld', s, T_), mk('fld', s, E_)] for x in xs)
                ck.ob('format.tags.serialize', ok, f.key, '%s does not write the pair of table and index lists' % short(f), f.where)
        elif f.method == 'deserialize':
            for p in ck.run(f):
                if p.outcome != 'return' or not succeeded(p):
                    continue
                v = stripped(p.ret)
                v = v.a[1].a[1] if v.op == 'agg' and v.a[0].endswith('Ok') else v
                got = {g.a[0]: stripped(g.a[1]) for g in v.a[1:]} if v.op == 'agg' else {}
                ok = set(got) == {T_, E_} and all(g.op == 'fld' for g in got.values()) and got[T_].a[1] == '0' and got[E_].a[1] == '1' and got[T_].a[0] is got[E_].a[0]
                ck.ob('format.tags.deserialize', ok, f.key, '%s does not read the pair back in the order it is written' % short(f), f.where)
    for r in ('encode', 'decode', 'serialize', 'deserialize'):
        ck.floor('format.tags.' + r, 1)


def reads(t, r):
    """(state of the reader before, value) of the one decode a value comes from"""
    if t is None:
        return None, None
    ds = {x for x in flow.all_subterms(t) if x.op == 'call' and x.a[0].endswith('Decode::decode') and len(cargs(x)) == 2}
    if len(ds) != 1:
        # the outermost is the one that is not read in passing
        ds = {d for d in ds if not any(d is not e and flow.contains(e, d) for e in ds)}
    if len(ds) != 1:
        return None, None
    d = ds.pop()
    return cargs(d)[1], mk('fld', d, 'Ok.0')


def head_read(p, st, r):
    """before the state st exactly one byte was read, which has to be the head of a pair"""
    if st.op != 'mut' or st.a[3] is not r:
        return False
    n = st.a[0].split('::')[-1]
    for c, v in p.conds.items():
        if n == 'read_u8' and c.op == 'bin' and c.a[0] in ('Eq', 'Ne') and (v is True) == (c.a[0] == 'Eq'):
            if any(num(x) == 0x82 for x in c.a[1:]) and any(y.op == 'call' and y.a[0].endswith('read_u8') for y in flow.all_subterms(c)):
                return True
        if n == 'read_u8' and num_cond(c, v):
            return True
    return False


def num_cond(c, v):
    return v == 0x82 and c.op == 'fld' and c.a[0].op == 'call' and c.a[0].a[0].endswith('read_u8')


def unit_seq(ck):
    for f in all_fns(ck.prog):
        if f.is_closure or not f.selfty or mir.type_head(f.selfty) != 'UnitSeq' or f.method not in ('encode', 'decode'):
            continue
        s = param(f, 0)
        for p in ck.run(f):
            if p.outcome != 'return':
                continue
            if f.method == 'encode':
                w = param(f, 2)
                ws = written(p.obj(w), w)
                es = [e for e in p.events if e.kind == 'call' and e.name.endswith('encode')]
                v = ws[0][1] if ws and len(ws) == 1 else es[0].args[0] if len(es) == 1 else None
                ck.ob('format.unit', v is not None and conv(v, mk('fld', s, '0')), f.key, '%s does not write its count' % short(f), f.where)
            elif succeeded(p):
                ds = [x for x in flow.all_subterms(p.ret) if x.op == 'call' and x.a[0].endswith('decode')]
                ck.ob('format.unit', len(set(ds)) == 1 and not [x for x in flow.all_subterms(p.ret) if x.op == 'bin'], f.key, '%s does not give back the count it reads' % short(f), f.where)
    ck.floor('format.unit', 2)


def P27(ck):
    """The stored format. The writer state after each successful encoder is unfolded into the sequence of cbor heads and values written:
    leaf index, branch index and key sequence are maps with exactly the names existing data has, each field under its own name;
    a block is the array of position, links and data; an index is just its leaf or branch; a tag index the pair of the whole table and
    all index lists in order, and is read in that order after checking the head. Encoders and decoders of derived types come from the
    same derive."""
    n = 0
    for f in all_fns(ck.prog):
        if f.is_closure or f.crate not in ('banyan', 'banyan_utils') or f.method != 'encode' or f.trait != 'DagCbor' or not f.selfty:
            continue
        if mir.type_head(f.selfty) == 'Index':
            continue
        n += 1
        record(ck, f)
    for h in list(MAPS) + list(ARRAYS):
        ck.ob('format.known', any(f.method == 'encode' and f.selfty and mir.type_head(f.selfty) == h for f in all_fns(ck.prog)), h, 'no encoder of %s found' % h)
    kinds(ck)
    tag_index(ck)
    unit_seq(ck)
    ck.floor('format.names', 4)
    ck.floor('format.entries', 4)
