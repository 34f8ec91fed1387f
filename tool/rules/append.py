"""P09, P10: appending keeps what is there; packing re-joins exactly the roots it found."""
import re
from common import *
from facts import *
from write import short, param, child_arg
from leaf import leaf_loaded_from
from crypto import callgraph, PUT

NODE = re.compile(r'\b(Index|BranchIndex|LeafIndex)<')
LOADED = re.compile(r'index::(Branch|Leaf)\b')


def ret_ty(f):
    return f.locals[0]


def node_fns(prog):
    """banyan functions that return tree nodes"""
    return [f for f in all_fns(prog) if f.crate == 'banyan' and NODE.search(ret_ty(f)) and '::tests' not in f.key and f.trait is None and '{closure' not in f.key
            and '(' not in f.key and 'impl ' not in ret_ty(f) and '&' not in ret_ty(f) and (f.method or '') not in ('clone', 'into_inner')
            and mir.type_head(ret_ty(f)) in ('Result', 'Index', 'BranchIndex', 'LeafIndex', 'Option')]


def loaders(prog):
    """banyan functions that return a loaded branch or leaf"""
    return [f for f in all_fns(prog) if f.crate == 'banyan' and LOADED.search(ret_ty(f)) and '::tests' not in f.key and '{closure' not in f.key and f.trait is None]


def fname(f):
    return f.key


def callee(prog, t):
    """workspace function a call term refers to"""
    if t.op != 'call':
        return None
    return prog_by_key(prog).get(t.a[0].replace('rec:', ''))


def prog_by_key(prog):
    if not hasattr(prog, '_bykey'):
        prog._bykey = {}
        for f in all_fns(prog):
            prog._bykey[f.key] = f
            prog._bykey.setdefault(short(f), f)
            k = f.key.split('::')
            prog._bykey.setdefault('::'.join(k[-2:]), f)
    return prog._bykey


def phi_updates(ph, paths):
    """values the place behind a loop phi has after one round, per loop path"""
    out = []
    for p in paths:
        if p.outcome != 'loop' or p.loopkey is None or p.loopkey[1:] != ph.a[0][1:]:
            continue
        for (root, path), v in (p.updates or {}).items():
            nm = ('%s' % (root[2] if root[0] == 'L' else show(root[1])),) + tuple(path)
            if nm == tuple(ph.a[1]):
                # a round that started from another entry into the loop is judged with that entry's phi
                if find_terms(v, lambda y: y.op == 'phi' and y.a[0][1:] == ph.a[0][1:] and tuple(y.a[1]) == nm and y is not ph) and not contains(v, ph):
                    continue
                out.append((p, v))
    return out


def strip_node(t):
    """Index::Leaf{0: x.Leaf.0} -> x, .Ok.0 of Ok{..}, Box/Arc wrappers are already transparent"""
    while True:
        if t.op == 'agg' and t.a[0] in ('Index::Leaf', 'Index::Branch') and len(t.a) == 2:
            t = t.a[1].a[1]
            continue
        if t.op == 'fld' and t.a[1] in ('Leaf.0', 'Branch.0'):
            t = t.a[0]
            continue
        return t


class Lineage:
    """which node parameters of each node function does its result extend on the right edge"""

    def __init__(self, ck, fns, loads, leafctors):
        self.ck, self.prog = ck, ck.prog
        self.fns = {f.key: f for f in fns}
        self.loads = {f.key for f in loads}
        self.opq = list(fns) + list(loads)
        self.leafctors = {f.key for f in leafctors}
        self.paths = {}
        self.E = {}
        self.why = {}
        for f in fns:
            self.E[f.key] = {i for i, a in enumerate(f.args) if NODE.search(f.locals[a])}
        changed = True
        while changed:
            changed = False
            for f in fns:
                for i in sorted(self.E[f.key]):
                    w = self.loses(f, i)
                    if w:
                        self.E[f.key].discard(i)
                        self.why[(f.key, i)] = w
                        changed = True

    def run(self, f):
        if f.key not in self.paths:
            self.paths[f.key] = self.ck.run(f, opaque=[g for g in self.opq if g.key != f.key])
        return self.paths[f.key]

    def node_param(self, f, i):
        x = param(f, i)
        if 'Option<' in f.locals[f.args[i]].split('Index<')[0]:
            return mk('fld', x, 'Some.0'), x
        return x, None

    def loses(self, f, i):
        if f.key in self.leafctors:
            return None if False else 'leaf constructor'
        x, opt = self.node_param(f, i)
        ps = self.run(f)
        n = 0
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            if opt is not None and any(c.op == 'disc' and c.a[0] is opt and v == 'None' for c, v in p.clog):
                continue
            n += 1
            r = p.ret
            if is_ok(r):
                r = agg_get(r, '0')
            if r.op == 'agg' and r.a[0] == 'Option::Some':
                r = agg_get(r, '0')
            if r is opt:
                continue
            if not self.ext(r, x, p, ps, ()):
                return 'a path of %s returns %s' % (short(f), show(r)[:160])
        return None if n else 'never returns'

    def called(self, t):
        """(function, args) when t is the Ok result of a node function"""
        if t.op == 'fld' and t.a[1] == 'Ok.0':
            t = t.a[0]
        if t.op == 'fld' and t.a[1] == 'Some.0' and t.a[0].op == 'fld' and t.a[0].a[1] == 'Ok.0':
            t = t.a[0].a[0]
        g = callee(self.prog, t)
        if g is not None and (g.key in self.fns or g.key in self.leafctors):
            return g, cargs(t)
        return None

    def ext(self, t, x, p, ps, seen):
        """node t has everything node x has, in front"""
        t = strip_node(t)
        x = strip_node(x)
        if t is x or strip_phi(t) is strip_phi(x) and t.op != 'phi':
            return True
        if (t, x) in seen:
            return True
        seen = seen + ((t, x),)
        if t.op == 'phi':
            ups = phi_updates(t, ps)
            return self.ext(t.a[2], x, p, ps, seen) and all(self.ext(v, t, q, ps, seen) for q, v in ups)
        c = self.called(t)
        if c:
            g, args = c
            if g.key in self.leafctors:
                return self.leaf_ext(g, args, x)
            for i in self.E.get(g.key, ()):
                if i >= len(args):
                    continue
                a = args[i]
                if a.op == 'agg' and a.a[0] == 'Option::Some':
                    a = agg_get(a, '0')
                if is_list(g, i):
                    if self.prefix(a, x, p, ps, seen):
                        return True
                elif self.ext(a, x, p, ps, seen):
                    return True
            return False
        if t.op == 'agg' and t.a[0] == 'BranchIndex':
            sm = agg_get(t, 'summaries')
            r = reduction(sm, ps) if sm is not None else None
            return r is not None and self.prefix(r[1], x, p, ps, seen)
        return False

    def leaf_ext(self, g, args, x):
        ks = [i for i, a in enumerate(g.args) if 'KeySeq' in g.locals[a]]
        ds = [i for i, a in enumerate(g.args) if '[u8]' in g.locals[a]]
        if len(ks) != 1 or len(ds) != 1:
            return False
        k = unphi(args[ks[0]])
        if k.op == 'agg' and k.a[0] == 'Option::Some':
            k = agg_get(k, '0')
        if not (k.op == 'fld' and k.a[1] == 'keys' and strip_node(k.a[0]) is strip_node(x)):
            return False
        return self.loaded(args[ds[0]], x) is not None

    def loaded(self, t, x):
        """the load call (through x's own link) that t is part of"""
        while t.op == 'fld':
            t = t.a[0]
        g = callee(self.prog, t)
        if g is None or g.key not in self.loads:
            return None
        x = strip_node(x)
        for a in cargs(t):
            if strip_node(a) is x:
                return t
            for y in find_terms(a, lambda y: is_call(y, 'Index::link') or (y.op == 'fld' and y.a[1] == 'link')):
                o = cargs(y)[0] if y.op == 'call' else y.a[0]
                if strip_node(o) is x:
                    return t
        return None

    def prefix(self, c, x, p, ps, seen):
        """list c begins with what x (a node or a list) stands for"""
        if c is x or strip_iter_all(c) is x:
            return True
        if (c, x, 'l') in seen:
            return True
        seen = seen + ((c, x, 'l'),)
        if c.op == 'iter':
            return self.prefix(c.a[0], x, p, ps, seen)
        if c.op == 'phi':
            return self.prefix(c.a[2], x, p, ps, seen) and all(self.grows(v, c, q, ps, seen) for q, v in phi_updates(c, ps))
        fp = first_pushed(c)
        if fp is not None:
            return self.ext(fp, x, p, ps, seen)
        if c.op == 'mut' or c.op == 'upd':
            b = c.a[3] if c.op == 'mut' else c.a[0]
            if c.op == 'mut' and b.op == 'mut' and c.a[0].split('::')[-1] == 'push' and b.a[0].split('::')[-1] == 'pop':
                b = b.a[3]
            return self.grows(c, b, p, ps, seen) and self.prefix(b, x, p, ps, seen)
        if c.op == 'agg' and c.a[0] in ('[]', 'vec') and len(c.a) >= 2:
            return self.ext(c.a[1].a[1], x, p, ps, seen)
        if c.op == 'fld' and c.a[1] == 'children' and self.loaded(c, x) is not None:
            return True
        if c.op == 'call' and c.a[0].split('::')[-1] in ('chain', 'to_vec', 'collect', 'into_vec', 'from', 'cloned', 'copied', 'once', 'from_ref'):
            a = cargs(c)[0]
            if c.a[0].split('::')[-1] in ('once', 'from_ref'):
                return self.ext(a, x, p, ps, seen)
            return self.prefix(a, x, p, ps, seen)
        return False

    def grows(self, v, base, p, ps, seen):
        """list v is base with elements added at the end, or with its last node replaced by its own extension"""
        if v is base:
            return True
        if v.op == 'mut':
            n = v.a[0].split('::')[-1]
            if n == 'push' and v.a[3].op == 'mut' and v.a[3].a[0].split('::')[-1] == 'pop':
                b = v.a[3].a[3]
                return self.grows(b, base, p, ps, seen) and self.ext(v.a[4], mk('fld', b, '[last]'), p, ps, seen)
            if n == 'pop' and any(c.op == 'disc' and is_call(c.a[0], 'slice::last') and cargs(c.a[0])[0] is v.a[3] and o == 'None' for c, o in p.clog):
                return self.grows(v.a[3], base, p, ps, seen)      # nothing to pop
            if n in ('push', 'extend', 'append', 'reserve', 'extend_from_slice'):
                return self.grows(v.a[3], base, p, ps, seen)
            return False
        if v.op == 'upd':
            b, path, val = v.a[0], v.a[1], v.a[2]
            pth = path if isinstance(path, tuple) else (path,)
            if len(pth) == 1 and is_last(pth[0], b):
                last = mk('fld', b, pth[0])
                return self.grows(b, base, p, ps, seen) and self.ext(val, last, p, ps, seen)
            return False
        return False


def is_last(comp, b):
    if comp == '[last]':
        return True
    i = index_term(comp) if isinstance(comp, str) else None
    return i is not None and i.op == 'bin' and i.a[0] == 'Sub' and i.a[2] is INT(1) and is_len(i.a[1]) and cargs(i.a[1])[0] is b


def first_pushed(c):
    """first element of a list that was built from an empty one by pushing"""
    v = None
    while c.op == 'mut' and c.a[0].split('::')[-1] in ('push', 'reserve'):
        if c.a[0].split('::')[-1] == 'push':
            v = c.a[4]
        c = c.a[3]
    return v if v is not None and is_call(c, 'empty', 'Vec::new', 'Vec::with_capacity', 'with_capacity', 'new') else None


def strip_iter_all(t):
    while t.op == 'iter' or (t.op == 'call' and t.a[0].split('::')[-1] in ('iter', 'to_vec', 'deref')):
        t = t.a[0] if t.op == 'iter' else cargs(t)[0]
    return t


def is_list(g, i):
    ty = g.locals[g.args[i]]
    return '[' in ty or 'Vec<' in ty or 'Arc<[' in ty


# --------------------------------------------------------------------------
def final_field(p, obj, name):
    """value of a field of the object behind a reference parameter at the end of a path"""
    o = p.store.get(('O', obj))
    v = mk('fld', obj, name)
    if o is None:
        return v
    o = flow.erase(o)
    g = flow.project(o, name) if hasattr(flow, 'project') else None
    return g if g is not None else get_field(o, name)


def get_field(o, name):
    while True:
        if o.op == 'agg':
            r = agg_get(o, name)
            return r
        if o.op == 'upd':
            if o.a[1] == name:
                return o.a[2]
            o = o.a[0]
            continue
        return mk('fld', o, name)


def builder_arg(f):
    for i, a in enumerate(f.args):
        if 'StreamBuilder<' in f.locals[a]:
            return i
    return None


def lineage(ck):
    if hasattr(ck, '_lineage'):
        return ck._lineage
    prog = ck.prog
    lc = [f for f in constructors(prog, 'LeafIndex') if f.trait is None and f.crate == 'banyan']
    lk = {f.key for f in lc}
    fns = [f for f in node_fns(prog) if f.key not in lk and 'stream' in [n for n in f.debug] or f.key not in lk and any('StreamBuilderState' in f.locals[a] for a in f.args)]
    ck._lineage = Lineage(ck, fns, loaders(prog) + lc, lc)
    ck._lineage.loads -= lk
    return ck._lineage


def consumes(g):
    """index of the parameter that carries the input iterator"""
    for i, a in enumerate(g.args):
        t = g.locals[a]
        if 'Peekable<' in t or t in ('I',) or re.fullmatch(r'&?(mut )?[A-Z]\w*', t) and t.strip('&mut ') == 'I':
            return i
    return None


def drained(p, frm, ps):
    """the last look at the input found it empty"""
    last = None
    for c, v in p.clog:
        if c.op == 'disc' and is_call(c.a[0], 'Iterator::peek', 'peek', 'Peekable::peek', 'Iterator::next') and origin(cargs(c.a[0])[0]) is frm:
            last = (c, v)
    return last is not None and last[1] == 'None'


def drain_kind(L, f):
    """'drained': Ok only when the input is exhausted; 'limit': or the node has reached the level parameter; 'no'"""
    i = consumes(f)
    if i is None:
        return 'no'
    frm = param(f, i)
    lv = [param(f, j) for j, a in enumerate(f.args) if f.locals[a].strip() == 'u32']
    ps = L.run(f)
    kind = 'drained'
    for p in ps:
        if p.outcome != 'return' or is_err(p.ret):
            continue
        if drained(p, frm, ps):
            continue
        r = agg_get(p.ret, '0') if is_ok(p.ret) else p.ret
        if r.op == 'agg' and r.a[0] == 'Option::Some':
            r = agg_get(r, '0')
        # exhausted by a callee that drains completely
        last = [e for e in p.events if e.kind == 'call' and any(origin(a) is frm for a in e.args) and not e.name.endswith('peek')]
        if any(covers(L, e) for e in last):
            continue
        ok = False
        for fa in path_facts(p, ps):
            rl = mk('call', 'Index::level', None, r)
            cand = [x for a in fa.lit for x in find_terms(a, lambda x: is_call(x, 'Index::level') and strip_node(cargs(x)[0]) is strip_node(r))]
            ok = any(fa.le(l, c) for l in lv for c in cand)
            if not ok:
                break
        if not ok:
            return 'no'
        kind = 'limit'
    return kind


def covers(L, e):
    """the call consumes its whole input"""
    g = callee(L.prog, e.res) if e.res is not None else None
    if g is None:
        g = prog_by_key(L.prog).get(e.name.replace('rec:', ''))
    if g is None or g.key not in L.fns:
        return False
    if not hasattr(L, '_drain'):
        L._drain = {}
    if g.key not in L._drain:
        L._drain[g.key] = 'no'
        L._drain[g.key] = drain_kind(L, g)
    k = L._drain[g.key]
    if k == 'drained':
        return True
    if k == 'limit':
        return any(g.locals[a].strip() == 'u32' and i < len(e.args) and e.args[i] is INT(4294967295) for i, a in enumerate(g.args))
    return False


def P09(ck):
    """lineage analysis over all functions that produce nodes below extend, extend_unpacked and push: a fixpoint computes of
    which node argument the result of each function is an extension on the right edge. The root set is an extension of
    the previous root; a sealed node is returned unchanged; a rewritten branch stores its own children with only the last
    one replaced, by an extension of that child, and new nodes behind them; on success the input iterator is exhausted,
    and a node created from consumed items is part of what is returned."""
    prog = ck.prog
    L = lineage(ck)
    tops = ck.find('Transaction::extend') + ck.find('Transaction::extend_unpacked')
    tops += [f for f in prog.find('Transaction::push')]
    reach = set()
    for f in tops:
        b = builder_arg(f)
        if not ck.ob('anchor.builder', b is not None, f.key, '%s has no stream builder argument' % short(f), f.where):
            continue
        tree = param(f, b)
        frm = None
        ps = ck.run(f, opaque=L.opq)
        n = 0
        for p in ps:
            if p.outcome != 'return' or is_err(p.ret):
                continue
            new = final_field(p, tree, 'root')
            old = mk('fld', tree, 'root')
            evs = [e for e in p.events if e.kind == 'call' and callee_ev(prog, e) is not None and callee_ev(prog, e).key in L.fns]
            if new is old:
                ok = any(c.op == 'disc' and v == 'None' and is_call(c.a[0], 'Iterator::peek', 'peek', 'Iterator::next') or c.op == 'disc' and v == 'None' and c.a[0].op == 'call' and c.a[0].a[0].endswith('peek') for c, v in p.clog)
                ck.ob('append.taken', ok, f.key, '%s succeeds without changing the tree although the input may have elements' % short(f), f.where)
                continue
            n += 1
            r = new
            if r.op == 'agg' and r.a[0] == 'Option::None':
                ck.ob('root.extends', False, f.key, '%s replaces the root by nothing' % short(f), f.where)
                continue
            if r.op == 'agg' and r.a[0] == 'Option::Some':
                r = agg_get(r, '0')
            none = any(c.op == 'disc' and c.a[0] is old and v == 'None' for c, v in p.clog)
            ok = none or root_ext(L, r, old, p, ps)
            ck.ob('root.extends', ok, f.key, '%s sets a root that is not an extension of the previous root: %s%s' % (short(f), show(r)[:120], reasons(L)), f.where)
            cov = any(covers(L, e) for e in evs)
            ck.ob('append.drained', cov, f.key, '%s may succeed with elements of the input left over' % short(f), f.where)
        ck.ob('append.sets-root', n >= 1, f.key, '%s never installs a new root' % short(f), f.where)
    # functions that take part in appending (reachable from the entry points)
    parts = parts_of(ck, L, tops)
    nload = 0
    for f in parts:
        ps = L.run(f) if f.key in L.fns else ck.run(f, opaque=[g for g in L.opq if g.key != f.key])
        for p in ps:
            if p.outcome not in ('return', 'loop') or is_err(p.ret):
                continue
            made = []
            for e in p.events:
                if e.kind != 'call':
                    continue
                g = callee_ev(prog, e)
                if g is None:
                    continue
                if g.key in L.loads and f.key not in L.loads:
                    # the node whose block is loaded for extension
                    for x in loaded_nodes(e):
                        nload += 1
                        s = [v for c, v in p.clog if is_call(c, 'Index::sealed', 'sealed') and strip_node(cargs(c)[0]) is x or c.op == 'fld' and c.a[1] == 'sealed' and strip_node(c.a[0]) is x]
                        ck.ob('sealed.untouched', s and not s[0], f.key, '%s loads a node for extension without having checked that it is not sealed' % short(f), f.where)
                elif g.key in L.fns or g.key in L.leafctors:
                    if not any(c.op == 'disc' and c.a[0] is e.res and v == 'Err' for c, v in p.clog):
                        made.append(e)
            for e in made:
                tgt = [p.ret] if p.outcome == 'return' else list((p.updates or {}).values())
                ok = any(tt is not None and flows(tt, e.res) for tt in tgt)
                ck.ob('created.kept', ok, f.key + ':' + e.name.split('::')[-1], '%s drops the node that %s returned (its elements were already taken from the input)' % (short(f), e.name), f.where)
    for f in parts:
        if f.key in L.fns:
            for i in sorted(i for i, a in enumerate(f.args) if NODE.search(f.locals[a])):
                ck.ob('node.extends', i in L.E[f.key], '%s:%d' % (f.key, i), '%s: the result does not keep everything its existing node holds, unchanged and in front (%s)' % (short(f), L.why.get((f.key, i), '')), f.where) if relevant(L, parts, f, i) else None
    ck.floor('root.extends', 3)
    ck.floor('node.extends', 4)
    ck.floor('sealed.untouched', 2)
    ck.floor('created.kept', 6)
    ck.floor('append.drained', 3)


def relevant(L, parts, f, i):
    return True


def reasons(L):
    return '; '.join(' [%s]' % v for k, v in L.why.items() if 'retain' not in k[0] and 'repair' not in k[0])[:300]


def root_ext(L, r, old, p, ps):
    x = mk('fld', old, 'Some.0')
    if r is x:
        return True
    # a callee that takes the optional root as it is
    c = L.called(r) if r.op == 'fld' else None
    if c is None and r.op == 'fld' and r.a[1] in ('Some.0', 'Ok.0'):
        c = L.called(r.a[0]) if r.a[0].op == 'fld' else None
    if c:
        g, args = c
        for i in L.E.get(g.key, ()):
            a = args[i]
            if a is old:
                return True
            if a.op == 'agg' and a.a[0] == 'Option::Some':
                a = agg_get(a, '0')
            if is_list(g, i) and L.prefix(a, x, p, ps, ()) or not is_list(g, i) and L.ext(a, x, p, ps, ()):
                return True
        return False
    return L.ext(r, x, p, ps, ())


def callee_ev(prog, e):
    return prog_by_key(prog).get(e.name.replace('rec:', ''))


def loaded_nodes(e):
    out = []
    for a in e.args:
        for y in find_terms(a, lambda y: is_call(y, 'Index::link') or (y.op == 'fld' and y.a[1] == 'link')):
            o = cargs(y)[0] if y.op == 'call' else y.a[0]
            out.append(strip_node(o))
    return list(dict.fromkeys(out))


def flows(t, res):
    """the node returned by the call `res` is part of t itself (not only mentioned through one of its attributes)"""
    n = mk('fld', res, 'Ok.0')
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x is n or x is res:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'call' and not NODEARGS(x):
            continue
        if x.op == 'fld' and x.a[0].op == 'call' and not NODEARGS(x.a[0]) and x.a[0] is not res:
            continue
        st.extend(c for c in x.a if isinstance(c, T))
    return False


def NODEARGS(c):
    n = c.a[0].split('::')[-1]
    return n not in ('summarize', 'level', 'count', 'sealed', 'link', 'key_bytes', 'value_bytes', 'len')


def parts_of(ck, L, tops):
    prog = ck.prog
    cg = callgraph(prog)          # callee -> callers
    down = {}
    for k, cs in cg.items():
        for c in cs:
            down.setdefault(c.key, set()).add(k)
    seen, work = set(), [f.key for f in tops]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        work += list(down.get(k, ()))
    return [f for f in L.fns.values() if f.key in seen]
