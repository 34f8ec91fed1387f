"""P15, P18: the two tree walkers (chunk iterator and index iterator)."""
import re
from common import *
from facts import *
from write import short, param
from append import node_fns, ret_ty, loaders, final_field, get_field, strip_node, callee
from purge import attr
import flow


# ---- the walkers -------------------------------------------------------------
class Machine:
    """an iterator that keeps a stack of frames (node, position, filter) and the offset it has reached"""

    def __init__(self, f, name, offset, stack, mode, index, pos, filt):
        self.f, self.name, self.offset, self.stack, self.mode = f, name, offset, stack, mode
        self.index, self.pos, self.filt = index, pos, filt
        self.fwd = self.bwd = None


def machines(ck):
    prog = ck.prog
    out = []
    for f in all_fns(prog):
        if f.crate != 'banyan' or f.method != 'next' or f.trait is None or mir.type_head(f.trait) != 'Iterator':
            continue
        name = mir.type_head(re.sub(r"^&('\w+ )?mut ", '', f.locals[f.args[0]].strip()))
        fs = struct_fields(prog, name)
        st = [(n, t) for n, t in fs if re.search(r'(SmallVec|Vec)<', t)]
        for n, t in st:
            m = re.search(r'(?:SmallVec<\[|Vec<)\s*([\w:]+)<', t)
            if not m:
                continue
            fr = struct_fields(prog, m.group(1).split('::')[-1])
            ix = [a for a, b in fr if re.match(r'(\w+::)*Index<', b)]
            ps = [a for a, b in fr if b in ('isize', 'usize', 'i64', 'u64')]
            fl = [a for a, b in fr if 'bool' in b and 'Vec<' in b]
            of = [a for a, b in fs if b == 'u64']
            md = [a for a, b in fs if re.fullmatch(r'(\w+::)*Mode|bool', b)]
            if len(ix) == len(ps) == len(fl) == len(of) == len(md) == 1:
                out.append(Machine(f, name, of[0], n, md[0], ix[0], ps[0], fl[0]))
    return out


def opaques(prog):
    return loaders(prog) + [f for f in all_fns(prog) if f.crate == 'banyan' and (mir.type_head(ret_ty(f)) == 'NodeInfo' or re.match(r'Result<(\w+::)*Branch<', ret_ty(f)) or f.key.endswith('BranchLoader::load_cached'))]


def variant_of(t):
    return t.a[0].split('::')[-1] if t is not None and t.op == 'agg' else str(t.a[0]) if t is not None and t.op == 'bool' else None


def ctors(ck, m):
    """constructors: offset 0 and the forward direction, or the offset behind the last element and the backward direction"""
    fs = [f for f in constructors(ck.prog, m.name) if f.crate == 'banyan' and re.match(r'(\w+::)*%s<' % m.name, ret_ty(f))]
    for f in fs:
        ix = [param(f, i) for i, a in enumerate(f.args) if re.match(r'(\w+::)*Index<', f.locals[a].strip())]
        for p in ck.run(f):
            if p.outcome != 'return':
                continue
            r = p.ret
            off, st, md = agg_get(r, m.offset), agg_get(r, m.stack), variant_of(agg_get(r, m.mode))
            fr = frames_of(st)
            ok = len(ix) == 1 and fr is not None and len(fr) == 1 and fr[0].op == 'agg' and strip_node(agg_get(fr[0], m.index)) is strip_node(ix[0]) and fresh(m, fr[0])
            ck.ob('walk.root', ok, f.key, '%s does not start with a stack that consists of the given root alone: %s' % (short(f), show(st)[:120]), f.where)
            if off is INT(0):
                ok = m.fwd in (None, md)
                m.fwd = md
            elif len(ix) == 1 and count_of(off, ix[0], None):
                ok = m.bwd in (None, md)
                m.bwd = md
            else:
                ok = False
            ck.ob('walk.start', ok and md is not None, f.key, '%s starts at offset %s in direction %s' % (short(f), show(off)[:80], md), f.where)
    ck.ob('walk.dirs', m.fwd is not None and m.bwd is not None and m.fwd != m.bwd, m.name, '%s has no pair of constructors for the two directions' % m.name, m.f.where)


def frames_of(t):
    """elements of a literal list"""
    while t.op == 'call' and t.a[0].split('::')[-1] in ('from_vec', 'into', 'from', 'from_slice', 'from_elem', 'from_buf') and len(cargs(t)) == 1:
        t = cargs(t)[0]
    out = []
    while t.op == 'mut' and t.a[0].startswith('push'):
        out.append(t.a[4])
        t = t.a[3]
    if t.op == 'call' and t.a[0] == 'empty' or t.op == 'empty':
        return out[::-1]
    if t.op == 'agg' and t.a[0] in ('[]', 'array'):
        return [x.a[1] for x in t.a[1:]] if not out else None
    if t.op == 'call' and t.a[0].split('::')[-1] == 'from_elem' and cargs(t)[1] is INT(1):
        return [cargs(t)[0]] if not out else None
    return None


def isempty(t):
    while t.op == 'call' and t.a[0].split('::')[-1] in ('from_vec', 'into', 'from', 'from_slice') and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t.op == 'empty' or t.op == 'call' and t.a[0] == 'empty' or t.op == 'call' and t.a[0].split('::')[-1] in ('from_elem',) and cargs(t)[1] is INT(0)


def fresh(m, fr):
    pos = agg_get(fr, m.pos)
    return isempty(agg_get(fr, m.filt)) and pos.op == 'int' and pos.a[0] >= 0


def lin(t, sign=1, out=None):
    """linear form {atom: coefficient}, constants under None"""
    top = out is None
    out = {} if top else out
    if t.op == 'cast' and uncast(t) is not t:
        lin(uncast(t), sign, out)
    elif t.op == 'bin' and t.a[0] in ('Add', 'AddUnchecked'):
        lin(t.a[1], sign, out)
        lin(t.a[2], sign, out)
    elif t.op == 'bin' and t.a[0] in ('Sub', 'SubUnchecked'):
        lin(t.a[1], sign, out)
        lin(t.a[2], -sign, out)
    elif t.op == 'call' and t.a[0].split('::')[-1] in ('saturating_add', 'wrapping_add'):
        for c in cargs(t):
            lin(c, sign, out)
    elif t.op == 'call' and t.a[0].split('::')[-1] in ('saturating_sub', 'wrapping_sub'):
        c = cargs(t)
        lin(c[0], sign, out)
        lin(c[1], -sign, out)
    elif t.op == 'int':
        out[None] = out.get(None, 0) + sign * t.a[0]
    else:
        out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v} if top else None


def diff(a, b):
    d = lin(a)
    for k, v in lin(b).items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}


def elem(t):
    """list[index] -> (list, index)"""
    if t.op == 'fld' and str(t.a[1]).startswith('['):
        i = flow.index_term(t.a[1])
        if i is not None:
            return t.a[0], uncast(i)
    if t.op in ('index', 'at', 'elem') and len(t.a) >= 2 and isinstance(t.a[1], T):
        return t.a[0], uncast(t.a[1])
    return None


def uncast(t):
    # casts between 64 bit types only: a narrowing cast changes the value
    while t.op == 'cast' and any(x in ('usize', 'isize', 'u64', 'i64', 'u128', 'i128') for x in t.a):
        t = t.a[-1] if isinstance(t.a[-1], T) else t.a[0]
    return t


def info_src(t):
    """NodeInfo term -> the node it describes"""
    if t.op == 'call' and t.a[0].endswith('node_info'):
        return strip_node(cargs(t)[-1])
    return None


def info_terms(t):
    return [x for x in subterms(t) if x.op == 'call' and x.a[0].endswith('node_info')]


def of_info(t, kind, field):
    """INFO.<kind>.<field> -> node"""
    if t.op == 'fld' and t.a[1] == '%s.%s' % (kind, field):
        return info_src(t.a[0])
    return None


def count_of(t, x, p):
    """t is the number of elements below node x"""
    x = strip_node(x)
    if attr(t, x, 'count'):
        return True
    if t.op == 'fld' and t.a[1] == 'count':
        for k in ('Branch', 'PurgedBranch'):
            if of_info(t.a[0], k, '0') is x:
                return True
    if is_len(t) or t.op == 'call' and t.a[0].split('::')[-1] in ('count', 'len'):
        y = t.a[0] if not isinstance(t.a[0], str) else cargs(t)[0]
        if y.op == 'fld' and y.a[1] == 'keys':
            for k in ('Leaf', 'PurgedLeaf'):
                if of_info(y.a[0], k, '0') is x:
                    return True
            if strip_node(y.a[0]) is x:
                return True
    return False


def is_count_diff(d, sign, x, p):
    """linear form d is exactly sign * count(x)"""
    if len(d) != 1:
        return False
    (k, v), = d.items()
    return k is not None and v == sign and count_of(k, x, p)


def payload(r):
    """what a returned Option<Result<..>> carries: ('none',), ('err',), ('ok', value)"""
    if r is None:
        return None
    if r.op == 'agg' and r.a[0] == 'Option::None':
        return ('none',)
    if r.op == 'agg' and r.a[0] == 'Option::Some':
        v = agg_get(r, '0')
        if is_err(v):
            return ('err',)
        if is_ok(v):
            return ('ok', agg_get(v, '0'))
        if v.op in ('apply', 'call') and mentions(v.a[0] if isinstance(v.a[0], T) else cargs(v)[0], lambda y: y.op == 'agg' and y.a[0] == 'Result::Ok'):
            return ('ok', v.a[1] if isinstance(v.a[0], T) else cargs(v)[1])
    return ('?',)


class Step:
    """one round of a walker: what happened to its stack and its offset"""

    def __init__(self, m, p, self_):
        o = p.store.get(('O', self_))
        o = flow.erase(o) if o is not None else self_
        b = o
        while b.op == 'upd':
            b = b.a[0]
        if b.op == 'phi' and o is not b and not (strip_phi(b) is self_):
            b = self_
        self.S = b
        self.stack0 = mk('fld', b, m.stack)
        self.off0 = mk('fld', b, m.offset)
        self.head = mk('fld', self.stack0, '[last]')
        self.x = strip_node(mk('fld', self.head, m.index))
        self.off = get_field(o, m.offset)
        st = get_field(o, m.stack)
        self.kind, self.frame, self.top, self.pre = parse_stack(st, self.stack0)
        self.others = [n for n, v in changed_fields(o, b) if n not in (m.stack, m.offset)]
        self.mode = p.conds.get(mk('disc', mk('fld', b, m.mode)))
        if self.mode is None:
            v = p.conds.get(mk('fld', b, m.mode))
            self.mode = str(v) if isinstance(v, bool) else None


def changed_fields(o, b):
    out = []
    while o is not b and o.op == 'upd':
        out.append((o.a[1], o.a[2]))
        o = o.a[0]
    return out


def parse_stack(st, base):
    """-> (kind, pushed frame, changes to the frame that is on top at the end, changes to the old head before a push)"""
    top, pre = {}, {}

    def upds(t):
        ch = {}
        while t.op == 'upd' and t.a[1] == '[last]':
            v = t.a[2]
            under = t.a[0]
            b = mk('fld', strip_last(under), '[last]')
            w = v
            while w.op == 'upd':
                ch.setdefault(w.a[1], w.a[2])
                w = w.a[0]
            t = under
        return t, ch
    t, top = upds(st)
    if t is base:
        return 'same', None, top, {}
    if t.op in ('empty',) or t.op == 'call' and t.a[0] == 'empty':
        return 'clear', None, {}, {}
    if t.op == 'mut' and t.a[0].startswith('push'):
        u, pre = upds(t.a[3])
        if u is base and not top:
            return 'push', t.a[4], {}, pre
    if t.op == 'mut' and t.a[0].startswith('pop'):
        u, pre = upds(t.a[3])
        if u is base:
            return 'pop', None, top, pre
    return '?', None, top, pre


def strip_last(t):
    while t.op == 'upd' and t.a[1] == '[last]':
        t = t.a[0]
    return t


def check_walker(ck, m, emits_nodes):
    prog = ck.prog
    f = m.f
    ps = ck.run(f, opaque=[g for g in opaques(prog) if g.key != f.key])
    s = param(f, 0)
    n = {}
    for p in ps:
        if p.outcome not in ('loop', 'return'):
            continue
        st = Step(m, p, s)
        pay = payload(p.ret) if p.outcome == 'return' else ('loop',)
        k = one_step(ck, m, p, ps, st, pay, emits_nodes)
        n[k] = n.get(k, 0) + 1
    for k in ('advance', 'push', 'exhausted', 'purged', 'leaf', 'end', 'error') + (('enter',) if emits_nodes else ('unmatched',)):
        ck.ob('walk.cases', n.get(k, 0) > 0, '%s:%s' % (m.name, k), '%s never handles the case `%s`' % (m.name, k), f.where)


def one_step(ck, m, p, ps, st, pay, emits_nodes):
    f, name = m.f, m.name

    def bad(rule, msg):
        ck.ob(rule, False, f.key, '%s: %s' % (name, msg), f.where)
        return 'bad'

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s: %s' % (name, msg), f.where)
    if pay == ('err',):
        return 'error'           # decided by P15
    if pay == ('none',):
        some = [v for c, v in p.clog if c.op == 'disc' and is_last_of(c.a[0], st.stack0)] + [('None' if v else 'Some') for c, v in p.clog if isinstance(v, bool) and c.op == 'call' and c.a[0].split('::')[-1] == 'is_empty' and cargs(c)[0] is st.stack0]
        ob('walk.end', some[:1] == ['None'] and st.kind == 'same' and st.off is st.off0, 'reports the end although nodes are left on the stack')
        return 'end'
    if pay == ('?',):
        return bad('walk.shape', 'returns something that is neither a node, an error nor the end: %s' % show(p.ret)[:120])
    ob('walk.shape', not st.others, 'changes its field(s) %s while walking' % ','.join(st.others))
    infos = {x for c in p.conds for x in info_terms(c)} | {x for x in (info_terms(pay[1]) if pay[0] == 'ok' else [])}
    info = [x for x in infos if info_src(x) is st.x]
    kind = None
    if info:
        kind = p.conds.get(mk('disc', info[0]))
    purged = kind in ('PurgedBranch', 'PurgedLeaf') or isinstance(kind, frozenset) and {'Branch', 'Leaf'} <= kind
    # direction
    if st.mode not in (m.fwd, m.bwd):
        return bad('walk.mode', 'a round does not depend on the direction')
    sign = 1 if st.mode == m.fwd else -1
    # ---- the frame after a possible first visit
    ch = st.pre if st.kind in ('push', 'pop') else st.top
    init = m.filt in ch
    pos0 = mk('fld', st.head, m.pos)
    filt0 = mk('fld', st.head, m.filt)
    emp = [v for c, v in p.clog if c is mk('is_empty', filt0) or c.op in ('call', 'is_empty') and c.a[0] == 'is_empty' and cargs(c)[:1] == (filt0,) or is_empty_of(c, filt0)]
    F, P = filt0, pos0
    if init:
        F = ch[m.filt]
        ob('walk.first', emp[:1] == [True], 'computes the filter of a branch again while the branch is being walked')
        asked(ck, m, p, st, F, info[0] if info else None, sign)
    start = None
    if init:
        # position of the first child in the direction of the walk
        P = first_pos(st, info[0] if info else None, sign, F)
    moved = st.off is not st.off0
    d = diff(st.off, st.off0)
    if st.kind == 'same':
        P1 = ch.get(m.pos, pos0)
        if init and m.pos in ch and P is not None and not diff(P1, P) or init and P is not None and sign > 0 and m.pos not in ch:
            # only entered the branch
            if not emits_nodes:
                return bad('walk.stuck', 'a round enters a branch without doing anything')
            ob('walk.enter', d == {} and kind == 'Branch' and pay[0] == 'ok' and strip_node(pay[1]) is st.x, 'entering a branch does not report that branch')
            return 'enter'
        # pass over a child that the query rejects
        base = P if init else pos0
        if base is None or diff(P1, base) != {None: sign}:
            return bad('walk.position', 'the position within a branch is %s after a round that neither descends nor ascends' % show(P1)[:80])
        child = [k for k, v in d.items()]
        c = counted_child(child[0]) if len(child) == 1 and d[child[0]] == sign else None
        e = elem(c) if c is not None else None
        ok = e is not None and not diff(e[1], base) and children_behind(e[0], info)
        ob('walk.skip.offset', ok and kind == 'Branch', 'passing over a child moves the offset by %s' % show_lin(d))
        ob('walk.skip.filter', passes(p, F, base, False), 'passes over a child although the query may match it')
        if emits_nodes:
            ob('walk.skip.emit', pay[0] == 'loop', 'reports a child that the query rejects')
        else:
            emitted(ck, m, p, st, pay, 'skip', c, sign)
        return 'advance'
    if st.kind == 'push':
        base = P if init else pos0
        c = agg_get(st.frame, m.index) if st.frame.op == 'agg' else None
        e = elem(strip_node(c)) if c is not None else None
        ok = base is not None and e is not None and not diff(e[1], base) and children_behind(e[0], info) and kind == 'Branch'
        ob('walk.descend', ok, 'descends into something that is not the child at the current position')
        ob('walk.descend.fresh', fresh(m, st.frame) if st.frame.op == 'agg' else False, 'descends with a frame that is not fresh')
        ob('walk.descend.keep', d == {} and (m.pos not in ch or init and P is not None and not diff(ch[m.pos], P)), 'descending moves the offset or the position of the parent')
        ob('walk.descend.filter', base is not None and passes(p, F, base, True), 'descends into a child that the query rejects')
        ob('walk.descend.emit', pay[0] == 'loop', 'reports something while descending')
        return 'push'
    if st.kind == 'pop':
        # the parent moves on
        rest = [v for c, v in p.clog if c.op == 'disc' and is_last_of(c.a[0], popped(st, p))]
        ptop = mk('fld', popped(st, p), '[last]')
        if rest[:1] == ['Some']:
            ok = set(st.top) == {m.pos} and diff(st.top[m.pos], mk('fld', ptop, m.pos)) == {None: sign}
            ob('walk.ascend', ok, 'ascending does not move the parent to its next child')
        else:
            ob('walk.ascend', rest[:1] == ['None'] and not st.top, 'ascending does not move the parent to its next child')
        if not moved:
            fa = path_facts(p, ps)
            if sign > 0:
                ln = [lenof(filt0)]
                ok = emp[:1] == [False] and all(any(a.le(l, pos0) or a.le(mk('cast', 'isize', l), pos0) for l in ln) for a in fa)
            else:
                ok = all(a.lt(pos0, INT(0)) for a in fa)
            ob('walk.exhausted', ok, 'leaves a branch before all of its children have been walked')
            ob('walk.exhausted.emit', pay[0] == 'loop', 'reports a branch again when leaving it')
            return 'exhausted'
        ob('walk.leave.offset', is_count_diff(d, sign, st.x, p), 'leaving a node moves the offset by %s' % show_lin(d))
        if purged:
            r = 'purged'
        elif kind == 'Leaf':
            r = 'leaf'
        elif kind == 'Branch' and init and not emits_nodes:
            none = [v for c, v in p.clog if isinstance(v, bool) and is_any(c, F)]
            ob('walk.unmatched', none[:1] == [False], 'passes over a whole branch although the query may match a child')
            r = 'unmatched'
        else:
            return bad('walk.leave', 'passes over a node of kind %s' % (kind,))
        if emits_nodes:
            ob('walk.emit', pay[0] == 'ok' and strip_node(pay[1]) is st.x, 'does not report the node it leaves')
        elif r == 'leaf':
            emitted(ck, m, p, st, pay, 'leaf', st.x, sign, info[0])
        else:
            emitted(ck, m, p, st, pay, 'skip', st.x, sign)
        return r
    return bad('walk.shape', 'the stack becomes %s' % st.kind)


def is_last_of(t, lst):
    return t.op == 'call' and t.a[0].split('::')[-1] in ('last', 'last_mut') and cargs(t)[0] is lst


def is_empty_of(c, lst):
    if c.op == 'is_empty':
        return c.a[0] is lst
    if c.op == 'call' and c.a[0].split('::')[-1] == 'is_empty':
        return cargs(c)[0] is lst
    return c.op == 'bin' and c.a[0] == 'Eq' and INT(0) in c.a[1:] and any(is_len(y) and lst in y.a or y is lenof(lst) for y in c.a[1:])


def is_any(c, lst):
    if c.op in ('any', 'call'):
        return lst in list(subterms(c)) and ('any' in (c.op, str(c.a[0]).split('::')[-1]))
    return False


def popped(st, p):
    """the stack below the head"""
    for c, v in p.clog:
        if c.op == 'disc' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] in ('last', 'last_mut'):
            l = cargs(c.a[0])[0]
            if l.op == 'mut' and l.a[0].startswith('pop'):
                return l
    return mk('?')


def counted_child(t):
    if t.op == 'call' and t.a[0].endswith('Index::count'):
        return strip_node(cargs(t)[0])
    return None


def children_behind(lst, info):
    """lst is the child list loaded through the loader of the current node"""
    return bool(info) and any(x is info[0] for x in info_terms(lst)) and len({x for x in info_terms(lst)}) == 1 and mentions(lst, lambda y: y.op == 'fld' and y.a[1] == 'Branch.1')


def passes(p, F, pos, val):
    """the filter entry at the position was found to be val"""
    for c, v in p.clog:
        if isinstance(v, bool):
            e = elem(c)
            if e and e[0] is F and not diff(e[1], pos):
                return v == val
    return False


def first_pos(st, info, sign, F):
    if sign > 0:
        return INT(0)
    for x in st.pre, st.top:
        for v in x.values():
            pass
    # the last index of the filter / the children / the summaries
    ch = st.pre if st.kind in ('push', 'pop') else st.top
    cand = [v for k, v in ch.items() if v.op != 'mut']
    for v in cand:
        d = lin(v)
        ks = [k for k in d if k is not None]
        if len(ks) == 1 and d[ks[0]] == 1 and d.get(None) in (-1, -2) and whole_len(ks[0], info, F):
            return mk('bin', 'Sub', ks[0], INT(1))
    return None


def whole_len(t, info, F):
    """t is the number of children of the node"""
    if not (is_len(t) or t.op == 'call' and t.a[0].split('::')[-1] in ('len', 'count')):
        return False
    y = cargs(t)[0] if t.op == 'call' else t.a[0]
    if y is F:
        return True
    while y.op == 'mut' and y.a[0].startswith('Query::'):
        y = y.a[3]
    if y.op == 'call' and y.a[0].split('::')[-1] == 'from_elem':
        return whole_len(uncast(cargs(y)[1]), info, F)
    if y.op == 'fld' and y.a[1] == 'summaries' and info is not None and y.a[0] is mk('fld', info, 'Branch.0'):
        return True
    return y.op == 'fld' and y.a[1] == 'children' and info is not None and children_behind(y, [info])


def asked(ck, m, p, st, F, info, sign, kind='Branch', name='intersecting', keys='summaries'):
    """F is the query's answer about the node, asked at the node's own offset with an all-true mask of full length"""
    f = m.f
    ok = F.op == 'mut' and F.a[0] == 'Query::' + name and info is not None
    why = 'the filter %s is not the answer of the query about the node' % show(F)[:100]
    if ok:
        old, args = F.a[3], F.a[4:]
        node = mk('fld', info, kind + '.0')
        ok = len(args) == 3 and args[0] is mk('fld', st.S, 'query') and (args[2] is node or strip_node(args[2]) is st.x)
        why = 'the query is asked about another node'
        if ok:
            d = diff(args[1], st.off0)
            ok = d == {} if sign > 0 else is_count_diff(d, -1, st.x, p)
            why = 'the query is asked at offset %s' % show(args[1])[:100]
        if ok:
            ok = old.op == 'call' and old.a[0].split('::')[-1] == 'from_elem' and cargs(old)[0] is flow.BOOL(True)
            n = cargs(old)[1] if ok else None
            if ok and name == 'containing' and count_of(n, st.x, p):
                n = lenof(mk('fld', node, keys))
            ok = ok and (is_len(n) or n.op == 'call' and n.a[0].split('::')[-1] in ('len', 'count'))
            y = (cargs(n)[0] if n.op == 'call' else n.a[0]) if ok else None
            ok = ok and (y is mk('fld', node, keys) or attr(y, st.x, keys) or whole_len(n, info, F))
            why = 'the query is asked with the mask %s' % show(old)[:100]
    ck.ob('walk.asked', ok, f.key, '%s: %s' % (m.name, why), f.where)


def emitted(ck, m, p, st, pay, what, x, sign, info=None):
    """the reported item is visitor.skip/leaf for node x with exactly the offsets of x"""
    f = m.f
    t = pay[1] if pay[0] == 'ok' else None
    if t is not None and t.op == 'fld' and t.a[1] == 'Ok.0':
        t = t.a[0]
    ok = t is not None and t.op == 'call' and t.a[0].split('::')[-1] == what
    ck.ob('walk.emit', ok, f.key, '%s reports %s instead of the node it passes' % (m.name, show(t)[:100] if t is not None else 'nothing'), f.where)
    if not ok or x is None:
        return
    args = cargs(t)
    r = [a for a in args if a.op == 'agg' and mir.type_head(a.a[0]).split('::')[-1] == 'Range']
    ok = len(r) == 1
    if ok:
        a, b = agg_get(r[0], 'start'), agg_get(r[0], 'end')
        near, far = (a, b) if sign > 0 else (b, a)
        ok = near is st.off0 and is_count_diff(diff(far, st.off0), sign, x, p)
    ck.ob('walk.range', ok, f.key, '%s reports a chunk for the offsets %s' % (m.name, show(r[0])[:140] if r else '?'), f.where)
    if what == 'skip':
        i = [a for a in args if info_src(a) is not None]
        ck.ob('walk.emit.node', len(i) == 1 and info_src(i[0]) is strip_node(x), f.key, '%s reports another node than the one it passes over' % m.name, f.where)
    else:
        nodes = [a for a in args if a is mk('fld', info, 'Leaf.0') or a is mk('fld', info, 'Leaf.1')]
        masks = [a for a in args if a.op == 'mut' or a.op in ('slice', 'call') and mentions(a, lambda y: y.op == 'mut' and y.a[0].startswith('Query::'))]
        ck.ob('walk.emit.node', len(nodes) == 2, f.key, '%s reports another leaf than the one it passes' % m.name, f.where)
        ok = len(masks) == 1
        ck.ob('walk.emit.mask', ok, f.key, '%s does not hand the answer of the query to the leaf' % m.name, f.where)
        if ok:
            F = [y for y in subterms(masks[0]) if y.op == 'mut' and y.a[0].startswith('Query::')][0]
            asked(ck, m, p, st, F, info, sign, 'Leaf', 'containing', 'keys')


def show_lin(d):
    return ' '.join('%+d*%s' % (v, show(k)[:80] if k is not None else '1') for k, v in d.items()) or '0'


def emits_nodes(m):
    """does the iterator report nodes (index iterator) rather than visitor results?"""
    t = ' '.join(m.f.locals[0].split())
    return re.search(r'Result<(\w+::)*Index<', t) is not None


def P18(ck):
    """every round of the two tree walkers, by abstract execution over all node kinds and both directions: a round either
    descends into the child at the current position (filter entry true, fresh frame, offset unchanged), passes over one
    child (filter entry false, offset moved by the count of that child, position moved by one), leaves an exhausted branch
    (offset unchanged) or leaves a purged node / leaf / branch without matches (offset moved by the count of that node);
    ascending moves the parent by one; reported ranges are the offsets of the node reported; the query is asked about the
    node on top of the stack at its own start offset with an all-true mask of full length."""
    ms = machines(ck)
    ck.ob('walk.machines', len(ms) >= 2, 'count', 'only %d tree walkers found' % len(ms))
    for m in ms:
        ctors(ck, m)
        if m.fwd is None or m.bwd is None:
            continue
        check_walker(ck, m, emits_nodes(m))
    ck.floor('walk.range', 4)
    ck.floor('walk.asked', 4)
    ck.floor('walk.skip.offset', 4)
    ck.floor('walk.descend', 4)


def P15(ck):
    """the tree walkers: on every path on which a fallible step failed the walker returns that error, and every path that
    returns an error leaves an empty stack behind; with an empty stack `next` returns None and changes nothing."""
    prog = ck.prog
    ms = machines(ck)
    ck.ob('walk.machines', len(ms) >= 2, 'count', 'only %d tree walkers found' % len(ms))
    for m in ms:
        f = m.f
        ps = ck.run(f, opaque=[g for g in opaques(prog) if g.key != f.key])
        s = param(f, 0)
        ends = 0
        for p in ps:
            if p.outcome not in ('loop', 'return'):
                continue
            st = Step(m, p, s)
            pay = payload(p.ret) if p.outcome == 'return' else ('loop',)
            failed = [c.a[0] for c, v in p.clog if c.op == 'disc' and v == 'Err']
            if failed:
                ok = pay[0] == 'err' and any(contains(p.ret, mk('fld', x, 'Err.0')) for x in failed)
                ck.ob('error.reported', ok, f.key, '%s does not report the failure of %s' % (m.name, show(failed[0])[:100]), f.where)
            if pay[0] == 'err':
                ck.ob('error.origin', bool(failed), f.key, '%s makes up an error' % m.name, f.where)
                ck.ob('error.ends', st.kind == 'clear', f.key, '%s can be continued after it has reported an error: nodes are left on its stack' % m.name, f.where)
            elif pay[0] == '?':
                ck.ob('error.shape', False, f.key, '%s may return an error that is not recognised as one: %s' % (m.name, show(p.ret)[:100]), f.where)
            some = [v for c, v in p.clog if c.op == 'disc' and is_last_of(c.a[0], st.stack0)]
            if some[:1] == ['None']:
                ends += 1
                ck.ob('end.none', pay[0] == 'none' and st.kind == 'same' and st.off is st.off0, f.key, '%s does not end when its stack is empty' % m.name, f.where)
        ck.ob('end.case', ends > 0, f.key, '%s has no path for an empty stack' % m.name, f.where)
    ck.floor('error.ends', 4)
    ck.floor('error.reported', 4)
