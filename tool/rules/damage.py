"""P30: damaged data is an error, never a panic."""
import re
from common import *
from facts import *
from write import short, param
from append import ret_ty, phi_updates
from stores import er
from elements import looped, lam1
from dnf import base, item
from blocks import loading
from purge import reach
from traverse import uncast
from crypto import callgraph
import flow

PANICS = {'split_at', 'split_at_mut', 'copy_from_slice', 'clone_from_slice', 'swap_remove', 'split_off', 'step_by', 'from_slice', 'chunks', 'chunks_exact',
          'unwrap_err', 'expect_err', 'unwrap_unchecked', 'exit', 'abort', 'panic', 'get_unchecked', 'rotate_left', 'rotate_right'}


def given(t):
    """no part of the term comes from a parameter or from a call with one"""
    return not [x for x in subterms_of(t) if x.op in ('sym', 'mut', 'phi', 'bound') and 'NONCE' not in str(x.a[0])]


def subterms_of(t):
    return find_terms(t, lambda x: True)


def nonempty(t, conds):
    """collection known to have an element"""
    t = base(t)
    while t.op in ('map', 'rev', 'enumerate', 'cloned', 'copied', 'peekable'):
        t = base(t.a[0])
    for c, v in conds:
        c = er(c)
        if c.op == 'call' and c.a[0].split('::')[-1] == 'is_empty' and v is False and base(cargs(c)[0]) is t:
            return True
        if c.op == 'disc' and v == 'Some' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] in ('first', 'last', 'next', 'next_back', 'peek', 'max', 'min') and same_coll(cargs(c.a[0])[0], t):
            return True
        if c.op == 'bin' and isinstance(v, bool):
            o, a, b = c.a
            if is_len(a) and base(cargs(a)[0]) is t and b is INT(0) and o in ('Eq', 'Ne', 'Gt') and v == (o != 'Eq') or is_len(b) and base(cargs(b)[0]) is t and a is INT(0) and o in ('Eq', 'Ne', 'Lt') and v == (o != 'Eq'):
                return True
    return False


def same_coll(a, t):
    a = base(a)
    while a.op in ('map', 'rev', 'enumerate', 'cloned', 'copied', 'peekable'):
        a = base(a.a[0])
    return a is t


def plus(t):
    """the comparison can only fail if an addition wrapped around: 0 < 1 + x"""
    return t.op == 'bin' and t.a[0] in ('Lt', 'Le', 'Ne') and t.a[1].op == 'int' and t.a[2].op == 'bin' and t.a[2].a[0] == 'Add' and any(y.op == 'int' and y.a[0] > 0 for y in t.a[2].a[1:])


def contradiction(p):
    """the last condition denies what the path found out before"""
    if not p.clog:
        return False
    c, v = er(p.clog[-1][0]), p.clog[-1][1]
    x = None
    if c.op == 'call' and c.a[0].split('::')[-1] == 'is_empty' and v is True:
        x = cargs(c)[0]
    elif c.op == 'bin' and isinstance(v, bool) and INT(0) in c.a[1:]:
        l = [y for y in c.a[1:] if is_len(y)]
        if l and (c.a[0] == 'Eq') == v:
            x = cargs(l[0])[0]
    return x is not None and nonempty(x, p.clog[:-1])


def harmless(e, p, ps):
    """the operation cannot panic on this path"""
    a = [er(x) for x in e.args]
    if e.kind == 'unwrap':
        x = a[0]
        if given(x):
            return True
        if x.op == 'call' and x.a[0].split('::')[-1] in ('max', 'min', 'first', 'last', 'next', 'next_back', 'reduce', 'pop'):
            return nonempty(cargs(x)[0], p.clog)
        if x.op == 'call' and x.a[0].split('::')[-1] in ('lock', 'read', 'write'):
            return True          # poisoned locks are a consequence of another panic
        return False
    if e.kind == 'assert':
        if 'overflow' in e.name:
            return '+' in e.name or '*' in e.name or a and a[0] is TRUE or sub_ok(e, p, ps)
        if 'index out of bounds' in e.name and a:
            c = a[0]
            return in_range(c, p, ps)
        return 'misaligned' in e.name or 'null pointer' in e.name or bool(a) and a[0] is TRUE
    if e.kind == 'index':
        s, i = a
        if i.op == 'agg' and i.a[0].startswith('Range'):
            fs = {x.a[0]: er(x.a[1]) for x in i.a[1:]}
            lo, hi = fs.get('start'), fs.get('end')
            if i.a[0] == 'RangeFull':
                return True
            if i.a[0] == 'RangeTo' or i.a[0] == 'Range' and lo is INT(0):
                return filled(hi, s)
            if i.a[0] == 'RangeInclusive' or i.a[0] == 'RangeToInclusive':
                return hi is not None and counter_of(hi, s)
            if i.a[0] == 'RangeFrom':
                return lo is INT(0)
            return False
        if i.op == 'call' and i.a[0].split('::')[-1] == 'new' and 'RangeInclusive' in i.a[0]:
            return cargs(i)[0] is INT(0) and counter_of(cargs(i)[1], s)
        return counter_of(i, s)
    return True


def sub_ok(e, p, ps):
    """subtraction of a constant from a value that was found to be larger on this path: engine terms of the assertion are
    not kept, so the path itself must have such a comparison before"""
    for c, v in p.clog:
        c = er(c)
        if c.op == 'bin' and isinstance(v, bool):
            o, x, y = c.a
            z = [k for k in (x, y) if k.op == 'int' and k.a[0] == 0]
            if z and (o == 'Eq' and v is False or o == 'Ne' and v is True or o in ('Lt', 'Gt') and v is True):
                return True
        elif v in ('0',) or isinstance(v, int):
            continue
        if isinstance(v, frozenset) and c.op != 'disc':
            return True
    return False


def counter_of(i, s):
    """position that an iteration over the length of s delivered"""
    i = uncast(er(i))
    if i.op == 'fld' and i.a[1] == 'Some.0' and i.a[0].op == 'call' and i.a[0].a[0].split('::')[-1] in ('next', 'next_back', 'position', 'rposition'):
        r = er(cargs(i.a[0])[0])
        while r.op in ('rev', 'iter', 'phi', 'mut'):
            r = er(r.a[0] if r.op in ('rev', 'iter') else r.a[2] if r.op == 'phi' else r.a[3])
        if r.op == 'agg' and r.a[0] == 'Range':
            hi = er(r.a[2].a[1])
            return is_len(hi) and base(cargs(hi)[0]) is base(s)
        if i.a[0].a[0].split('::')[-1] in ('position', 'rposition'):
            return base(r) is base(s)
    if i.op in ('idx',) and i.a[0].op == 'fld':
        return True
    return False


def in_range(c, p, ps):
    if c.op == 'bin' and c.a[0] == 'Lt' and is_len(c.a[2]):
        if counter_of(c.a[1], cargs(c.a[2])[0]):
            return True
        for c2, v in p.clog:
            if er(c2) is c and v is True:
                return True
        return any(all(f.lt(c.a[1], c.a[2]) for f in [fa]) for fa in path_facts(p, ps)) and all(fa.lt(c.a[1], c.a[2]) for fa in path_facts(p, ps))
    return False


def filled(hi, s):
    """number of bytes that were just written into the buffer"""
    hi = er(hi)
    if hi.op == 'fld' and hi.a[1] == 'Ok.0' and hi.a[0].op == 'call' and hi.a[0].a[0].split('::')[-1] == 'decompress_to_buffer':
        s = er(s)
        b = er(cargs(hi.a[0])[-1])
        while s.op == 'mut' and s.a[0].split('::')[-1] == 'decompress_to_buffer':
            s = er(s.a[3])
        return unslice(b) is unslice(s)
    return False


def unslice(t):
    t = er(t)
    while t.op == 'call' and t.a[0] == 'slice':
        t = er(cargs(t)[0])
    return t


def domain(ck):
    prog = ck.prog
    fs = [f for f in all_fns(prog) if '::tests' not in f.key and not f.is_closure and f.crate in ('banyan', 'banyan_utils')]
    out = {f.key: f for f in loading(ck)}
    load = list(out.values())
    up = reach_up(ck, load)
    for f in fs:
        rt = ret_ty(f)
        if 'Result<' not in rt:
            continue
        a = [f.locals[x] for x in f.args]
        if f.key in up and re.search(r'Result<[\w:(]*\b(Tree|StreamBuilder)<', rt) and f.trait is None and a and a[0].startswith('&') and 'mut' not in a[0] and 'Transaction' not in a[0]:
            out[f.key] = f
        if '::_::' in f.key or f.method in ('fmt', 'expecting') or 'Vec<u8>' in rt and f.trait is None:
            continue
        if f.selfty in ('BranchLoader', 'LeafLoader') or f.selfty == 'Leaf' and f.trait is None:
            out[f.key] = f
        if f.selfty == 'ZstdDagCborSeq' and (a and a[0].strip() == '&ZstdDagCborSeq' or a and re.search(r'u8\]$', a[0]) and len(a) == 3):
            out[f.key] = f
        if f.trait and re.match(r'(Decode|Deserialize|TryFrom|FromStr|ReadCbor|ReadOnlyStore)\b', f.trait):
            out[f.key] = f
    return sorted(out.values(), key=lambda f: f.key)


def reach_up(ck, fs):
    """functions that call one of fs, through any number of calls"""
    cg = callgraph(ck.prog)
    seen, work = set(), [f.key for f in fs]
    while work:
        k = work.pop()
        for g in cg.get(k, ()):
            if g.key not in seen:
                seen.add(g.key)
                work.append(g.key)
    return seen


def check_table(ck, f):
    """a decoded tag index only refers to entries of its own table"""
    ps = ck.run(f)
    n = 0
    for p in ps:
        r = er(p.ret) if p.outcome == 'return' else None
        if r is None or r.op != 'agg' or r.a[0] != 'Result::Ok':
            continue
        v = er(r.a[1].a[1])
        if v.op != 'agg' or v.a[0] != 'TagIndex':
            ck.ob('damage.table', False, f.key, '%s returns something else than a tag index' % short(f), f.where)
            continue
        fs = {x.a[0]: er(x.a[1]) for x in v.a[1:]}
        n += 1
        ck.ob('damage.table', checked(fs.get('elements'), fs.get('tags'), p, ps), f.key, '%s accepts indices that are not in the table of tags' % short(f), f.where)
    ck.ob('damage.table', n > 0, f.key, '%s never succeeds' % short(f), f.where)


def less(c, x, tags):
    """c says that position x exists in the table -> truth value that says so"""
    c = er(c)
    if c.op == 'not':
        r = less(c.a[0], x, tags)
        return None if r is None else not r
    if c.op != 'bin':
        return None
    o, a, b = c.a
    a, b = uncast(er(a)), uncast(er(b))

    def ln(y):
        return is_len(y) and base(cargs(y)[0]) is base(tags)
    if a is x and ln(b):
        return {'Lt': True, 'Ge': False}.get(o)
    if b is x and ln(a):
        return {'Gt': True, 'Le': False}.get(o)
    return None


def checked(els, tags, p, ps):
    if els is None or tags is None:
        return False
    for c, v in p.clog:
        c = er(c)
        # elements.iter().all(|e| e.iter().all(|x| x < len))
        neg = {'all': True, 'any': False}.get(c.a[0].split('::')[-1]) if c.op == 'call' else None
        if neg is not None and v is neg and deep(c, els, tags, neg):
            return True
        if c.op == 'disc' and v == 'None' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] == 'next':
            nx = er(c.a[0])
            src = er(cargs(nx)[0])
            rounds = [q for q in ps if q.outcome == 'loop' and any(er(c2.a[0]) is nx and v2 == 'Some' for c2, v2 in q.clog if c2.op == 'disc')]
            if src.op in ('flatten', 'flat_map') and base(src.a[0]) is base(els):
                if rounds and all(tested(q, item(nx), tags) for q in rounds):
                    return True
                continue
            if base(src) is not base(els) or not rounds:
                continue
            if all(inner(q, item(nx), tags, ps, {r.loopkey for r in rounds if not_in(r, item(nx))}) for q in rounds):
                return True
    return False


def deep(c, els, tags, neg):
    s, l = cargs(c)
    x = mk('sym', '*e*')
    s = er(s)
    r = lam1(l, x)
    if r is None or len(r) != 1 or r[0][0]:
        return False
    b = er(r[0][1])
    if s.op in ('flatten',) and base(s.a[0]) is base(els):
        return less(b, x, tags) is neg
    if base(s) is not base(els):
        return False
    if b.op == 'call' and b.a[0].split('::')[-1] == ('all' if neg else 'any') and base(cargs(b)[0]) is x:
        y = mk('sym', '*i*')
        r = lam1(cargs(b)[1], y)
        return r is not None and len(r) == 1 and not r[0][0] and less(r[0][1], y, tags) is neg
    return False


def tested(q, x, tags):
    return any(isinstance(v, bool) and less(c, x, tags) is v for c, v in q.clog) and not any(c.op == 'filtered' for c, v in q.clog)


def not_in(q, x):
    """round that went through all entries of x"""
    return any(c.op == 'disc' and v == 'None' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] == 'next' and base(cargs(c.a[0])[0]) is x for c, v in q.clog)


def inner(q, x, tags, ps, whole):
    """round of the outer loop: all entries of x are tested (the round itself may be one of the inner loop)"""
    if any(c.op == 'filtered' for c, v in q.clog):
        return False
    for c, v in q.clog:
        c = er(c)
        neg = {'all': True, 'any': False}.get(c.a[0].split('::')[-1]) if c.op == 'call' else None
        if neg is not None and v is neg and base(cargs(c)[0]) is x:
            y = mk('sym', '*i*')
            r = lam1(cargs(c)[1], y)
            if r is not None and len(r) == 1 and not r[0][0] and less(r[0][1], y, tags) is neg:
                return True
        if c.op == 'disc' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] == 'next' and base(cargs(c.a[0])[0]) is x:
            nx = er(c.a[0])
            if v == 'Some':
                return q.loopkey not in whole and bool(whole) and tested(q, item(nx), tags)
            rounds = [r for r in ps if r.outcome == 'loop' and any(er(c2.a[0]) is nx and v2 == 'Some' for c2, v2 in r.clog if c2.op == 'disc')]
            return bool(rounds) and all(tested(r, item(nx), tags) for r in rounds)
    return False


def P30(ck):
    """Domain: every function that loads a node, opens a tree or stream from a link, decrypts or reads a value block, gets a
    block from a store, or decodes (Decode, Deserialize, TryFrom, FromStr, ReadCbor). On every path, with all helpers inlined: no panic
    is reached; every unwrap, index, slice, assertion or subtraction is justified by a condition of that path (non-empty list, position
    from the length of that list, bytes just written) or takes constants only. A branch is only built from a list known to have an element.
    A tag index is only accepted after every index was compared with the length of its own table."""
    dom = domain(ck)
    for f in dom:
        ps = ck.run(f)
        bad = {}
        n = 0
        for p in ps:
            if p.outcome not in ('return', 'loop'):
                if contradiction(p):
                    continue
                cs = [er(c) for c, v in p.clog[-1:]]
                if not (cs and plus(cs[0])):
                    bad['reaches a panic'] = f.where
            for e in p.events:
                if e.kind in ('unwrap', 'assert', 'index'):
                    n += 1
                    if not harmless(e, p, ps):
                        bad['may panic in %s: %s of %s' % (short(e.fn) if e.fn else '?', e.kind, ' , '.join(flow.show(er(a))[:60] for a in e.args))] = e.fn.where if e.fn else f.where
                elif e.kind == 'call' and not e.lam and e.name.split('::')[-1] in PANICS:
                    bad['may panic in %s: %s' % (short(e.fn) if e.fn else '?', e.name)] = e.fn.where if e.fn else f.where
        for msg, w in sorted(bad.items()):
            ck.ob('damage.panic', False, f.key, '%s %s' % (short(f), msg), w)
        if not bad:
            ck.ob('damage.panic', True, f.key, '', f.where)
        if f.selfty == 'TagIndex' and f.trait and f.method in ('decode', 'deserialize'):
            check_table(ck, f)
    ck.floor('damage.panic', 25)
    ck.floor('damage.table', 2)
