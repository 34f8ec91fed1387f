"""P26: metadata accessors, copies and delegations report what is stored."""
import re
from common import *
from write import short, param
from append import strip_node
from atomic import is_pub
import flow
import mir
from flow import mk, show, INT

ACC = ('summarize', 'link', 'count', 'sealed', 'level', 'value_bytes', 'key_bytes')


def deref(t):
    """the value behind references, `as_ref`ed options and copies"""
    while True:
        if t.op == 'ref':
            r, path = t.a[0], t.a[1]
            if r[0] != 'O':
                return t
            x = r[1]
            for f in path:
                x = mk('fld', x, f)
            t = x
        elif t.op == 'optref':
            return mk('optof', deref(t.a[1]))
        elif t.op == 'agg' and t.a[0] == 'Option::Some':
            return mk('optof', deref(t.a[1].a[1]))
        elif t.op == 'cast':
            t = t.a[-1]
        else:
            return t


def meta_of(t, name, x, kind):
    """t is the metadata `name` of node x, which is a leaf or a branch (kind None: not known)"""
    t = deref(t)
    if t.op == 'call' and t.a[0].endswith('Index::' + name) and strip_node(deref(cargs(t)[0])) is x:
        return True
    if t.op == 'fld' and t.a[1] == name and strip_node(t.a[0]) is x and name != 'summarize':
        return kind == 'Branch' and t.a[0] is mk('fld', x, 'Branch.0') or kind == 'Leaf' and t.a[0] is mk('fld', x, 'Leaf.0') and name in ('link', 'sealed', 'value_bytes')
    if kind == 'Leaf':
        keys = mk('fld', mk('fld', x, 'Leaf.0'), 'keys')
        if name in ('level', 'key_bytes'):
            return t is INT(0)
        if name == 'count':
            return t.op in ('call', 'len') and (t.op == 'len' or t.a[0].split('::')[-1] in ('len', 'count')) and deref((cargs(t) if t.op == 'call' else t.a)[0]) is keys
        if name == 'summarize':
            return t.op == 'call' and t.a[0].endswith('summarize') and deref(cargs(t)[0]) is keys
    if kind == 'Branch' and name == 'summarize':
        return t.op == 'call' and t.a[0].endswith('summarize') and deref(cargs(t)[0]) is mk('fld', mk('fld', x, 'Branch.0'), 'summaries')
    return False


def kind(p, x):
    for c, v in p.conds.items():
        if c.op == 'disc' and deref(c.a[0]) is x and isinstance(v, str):
            return v
        if c.op == 'is' and deref(c.a[0]) is x and v is True:
            return c.a[1]
        if c.op == 'is' and deref(c.a[0]) is x and v is False:
            return {'None': 'Some', 'Some': 'None'}.get(c.a[1])
    return None


def is_none(t):
    return t.op == 'agg' and t.a[0] == 'Option::None'


def eta(t, x, p=None):
    """t has exactly the content of x, field by field"""
    t = deref(t)
    if t is x:
        return True
    if t.op == 'optof':
        return eta(t.a[0], mk('fld', x, 'Some.0'), p)
    if t.op == 'tuple' and t.a:
        return all(eta(v, mk('fld', x, str(i)), p) for i, v in enumerate(t.a))
    if t.op != 'agg':
        # canonical metadata terms
        if t.op == 'call' and '::Index::' in '::' + t.a[0] and x.op == 'fld' and t.a[0].endswith('::' + x.a[1]):
            return strip_node(deref(cargs(t)[0])) is strip_node(x.a[0])
        return False
    if 'PhantomData' in t.a[0]:
        return True
    if len(t.a) == 1 and '::' in t.a[0]:
        return p is not None and kind(p, x) == t.a[0].split('::')[-1]
    return any(all(eta(f.a[1], mk('fld', x, pre + f.a[0]), p) for f in t.a[1:]) for pre in ('', t.a[0].split('::')[-1] + '.'))


# ---- the root of a tree or builder -------------------------------------------
def root_of(prog, f):
    """(option place, node inside) of a tree / stream builder receiver"""
    s = param(f, 0)
    head = mir.type_head(f.selfty)
    for n, ty in struct_fields(prog, head):
        m = re.match(r'(?:\w+::)*Option<(.*)>$', ty.strip())
        if m and re.match(r'(?:\w+::)*Index<', m.group(1)):
            o = mk('fld', s, n)
            return o, mk('fld', o, 'Some.0')
        if m and re.match(r'\((?:\w+::)*Index<', m.group(1)):
            o = mk('fld', s, n)
            return o, mk('fld', mk('fld', o, 'Some.0'), '0')
    return None, None


def there(p, o, x, t):
    """the value of an optional result on a path with a root: what is inside it"""
    t = deref(t)
    return t.a[0] if t.op == 'optof' else None


def tree_accessor(ck, f, o, x):
    s = param(f, 0)
    kinds = set()
    for p in ck.run(f):
        if p.outcome == 'unwind':
            continue
        n = f.method
        if not ck.ob('meta.total', p.outcome == 'return', f.key, '%s does not always return' % short(f), f.where):
            continue
        k, r = kind(p, o), p.ret
        kinds.add(k)
        ok = False
        if n == 'is_empty':
            if k is None:
                ok = is_none_test(r, o)
            else:
                d = deref(r)
                ok = d is flow.TRUE if k == 'None' else d is flow.FALSE or is_zero(d, x, kind(p, x))
            want = 'whether there is a root'
        elif k is None:
            ok = n in ('index', 'as_index_ref') and r.op == 'optref' and r.a[0] is o and deref(r.a[1]) is x
            want = 'its root'
        elif k == 'None':
            ok = is_none(r) if n not in ('count', 'level') else r is INT(0) if n == 'count' else r is INT(-1)
            want = 'what an empty tree has'
        elif n in ('count', 'level'):
            ok, want = meta_of(r, n, x, kind(p, x)), 'the %s of its root' % n
        elif n == 'link':
            ok, want = meta_of(r, n, x, kind(p, x)), 'the link of its root'
        elif n == 'root':
            # Some(&link) or the option behind a reference
            d = r.a[0] if r.op == 'optref' else r
            ok = meta_of(d, 'link', x, kind(p, x)) or kind_link(p, x, r)
            want = 'the link of its root'
        elif n in ('index', 'as_index_ref'):
            v = there(p, o, x, r)
            ok, want = v is not None and strip_node(v) is x, 'its root'
        elif n == 'secrets':
            v = there(p, o, x, r)
            ok, want = v is not None and eta(v, mk('fld', x.a[0], '1')), 'its secrets'
        else:
            continue
        ck.ob('meta.' + n, ok, f.key, '%s gives %s where it should give %s' % (short(f), show(r)[:120], want), f.where)


def is_none_test(r, o):
    r = deref(r)
    if r.op == 'not' and r.a[0].op == 'is':
        return r.a[0].a[0] is o and r.a[0].a[1] == 'Some'
    return r.op == 'is' and r.a[0] is o and r.a[1] == 'None'


def is_zero(d, x, k):
    return d.op == 'bin' and d.a[0] == 'Eq' and any(a is INT(0) and meta_of(b, 'count', x, k) for a, b in ((d.a[1], d.a[2]), (d.a[2], d.a[1])))


def kind_link(p, x, r):
    """Some(&l) / None by the case of the link"""
    for c, v in p.conds.items():
        if c.op == 'disc' and meta_of(c.a[0], 'link', x, kind(p, x)):
            d = deref(r)
            return v == 'None' and is_none(d) or v == 'Some' and d.op == 'optof' and d.a[0].op == 'fld' and d.a[0].a[1] == 'Some.0' and meta_of(d.a[0].a[0], 'link', x, kind(p, x))
    return False


def snapshot(ck, f, o, x):
    s = param(f, 0)
    st = [n for n, ty in struct_fields(ck.prog, mir.type_head(f.selfty)) if 'StreamBuilderState' in ty]
    sec = [n for n, ty in struct_fields(ck.prog, 'StreamBuilderState') if ty.split('::')[-1] == 'Secrets']
    if not ck.ob('meta.snapshot', len(st) == 1 and len(sec) == 1, f.key, 'the state of a builder was not recognised', f.where):
        return
    for p in ck.run(f):
        if p.outcome == 'unwind':
            continue
        k, r = kind(p, o), deref(p.ret) if p.ret is not None else mk('none')
        if k == 'None':
            inner = [g.a[1] for g in r.a[1:] if g.a[0] == '0'] if r.op == 'agg' else []
            ok = r.op == 'call' and r.a[0] == 'default' or bool(inner) and is_none(inner[0])
        else:
            inner = [deref(g.a[1]) for g in r.a[1:] if g.a[0] == '0'] if r.op == 'agg' else []
            ok = k == 'Some' and len(inner) == 1 and inner[0].op == 'optof'
            if ok:
                t = inner[0].a[0]
                g = {h.a[0]: h.a[1] for h in t.a[1:]} if t.op == 'agg' else {}
                ok = set(g) == {'0', '1', '2'} and (eta(strip_node(deref(g['0'])), x, p) or eta(deref(g['0']), x, p)) and eta(g['1'], mk('fld', mk('fld', s, st[0]), sec[0]))
        ck.ob('meta.snapshot', ok, f.key, 'a snapshot is not the current root with the secrets of its stream: %s' % show(r)[:160], f.where)


def node_accessor(ck, f):
    s = param(f, 0)
    n = f.method
    seen = set()
    for p in ck.run(f):
        if p.outcome == 'unwind':
            continue
        k = kind(p, s)
        seen.add(k)
        ok = p.outcome == 'return' and meta_of(p.ret, n, s, k)
        ck.ob('meta.node.' + n, ok, f.key, '%s of a %s gives %s' % (short(f), k or 'node', show(p.ret)[:120] if p.ret is not None else p.outcome), f.where)


def copies(ck):
    n = 0
    for f in all_fns(ck.prog):
        if f.trait != 'Clone' or f.method != 'clone' or f.is_closure or f.crate not in ('banyan', 'banyan_utils'):
            continue
        s = param(f, 0)
        n += 1
        for p in ck.run(f):
            if p.outcome == 'unwind':
                continue
            ck.ob('meta.copy', p.outcome == 'return' and eta(p.ret, s, p), f.key, '%s gives %s' % (short(f), show(p.ret)[:140] if p.ret is not None else p.outcome), f.where)
    ck.floor('meta.copy', 20)


def delegates(ck):
    """what a dereference leads to"""
    want = {'StreamTransaction': 'StreamBuilder', 'Forest': 'ForestInner', 'Transaction': 'Forest'}
    for f in all_fns(ck.prog):
        if f.crate != 'banyan' or f.is_closure or f.trait not in ('Deref', 'DerefMut', 'AsRef') or f.method not in ('deref', 'deref_mut', 'as_ref'):
            continue
        h = mir.type_head(f.selfty)
        if h not in want and f.trait != 'AsRef' or not f.where or '/repo' in str(f.where) and False:
            continue
        s = param(f, 0)
        for p in ck.run(f):
            if p.outcome == 'unwind':
                continue
            r = deref(p.ret)
            if r.op == 'fld' and r.a[0] is s:
                tys = dict(struct_fields(ck.prog, h))
                ty = tys.get(r.a[1], '')
                ok = f.trait == 'AsRef' or want[h] in ty
            else:
                ok = r is s
            ck.ob('meta.deref', ok, f.key, '%s leads to %s' % (short(f), show(p.ret)[:120]), f.where)
    ck.floor('meta.deref', 3)


def parts(ck):
    """children and keys of a node"""
    for f in all_fns(ck.prog):
        if f.crate != 'banyan' or f.is_closure or f.trait:
            continue
        h = mir.type_head(f.selfty) if f.selfty else ''
        s = param(f, 0) if f.args else None
        if h == 'Branch' and f.method in ('first_child', 'last_child', 'count'):
            kids = [n for n, ty in struct_fields(ck.prog, h) if 'Index<' in ty]
            c = mk('fld', s, kids[0]) if len(kids) == 1 else None
            for p in ck.run(f):
                if p.outcome in ('unwind', 'panic'):
                    continue
                r = deref(p.ret)
                ck.ob('meta.branch', c is not None and child_ok(f.method, r, c), f.key, '%s gives %s' % (short(f), show(p.ret)[:120]), f.where)


def child_ok(m, r, c):
    if m == 'count':
        return r.op in ('len', 'call') and (r.op == 'len' or r.a[0].split('::')[-1] == 'len') and deref((cargs(r) if r.op == 'call' else r.a)[0]) is c
    if r.op == 'fld' and r.a[1] == 'Some.0':
        r = r.a[0]
    if r.op == 'optof':
        r = r.a[0]
    return mentions(r, lambda y: y is c) and (r.op == 'call' and r.a[0].split('::')[-1] == m.split('_')[0] or r.op == 'fld' and elem_pos(r.a[1], m))


def elem_pos(n, m):
    return n.startswith('[') and (m == 'first_child') == (n in ('[0]', '[first]')) and n in ('[0]', '[first]', '[last]')


def P26(ck):
    """Metadata. Every accessor of a node index gives, per kind of node, exactly the stored field (level 0 and no key bytes for a leaf,
    count and summary of a leaf from its keys); every accessor of a tree or stream builder gives that of its root, and for no root the
    values of an empty tree; a snapshot is the current root with the secrets of its stream. Every Clone of the workspace copies field
    by field, every Deref leads to the wrapped builder, forest or reader."""
    prog = ck.prog
    for n in ACC:
        for f in ck.find('Index::' + n):
            if f.selfty and mir.type_head(f.selfty) == 'Index':
                node_accessor(ck, f)
        ck.floor('meta.node.' + n, 2)
    for h in ('Tree', 'StreamBuilder'):
        done = 0
        for n in ('count', 'level', 'link', 'root', 'index', 'as_index_ref', 'is_empty', 'secrets', 'snapshot'):
            for f in [f for f in prog.find(h + '::' + n) if f.selfty and mir.type_head(f.selfty) == h]:
                o, x = root_of(prog, f)
                if not ck.ob('meta.root', o is not None, f.key, 'no root recognised in %s' % h, f.where):
                    continue
                done += 1
                (snapshot if n == 'snapshot' else tree_accessor)(ck, f, o, x)
        ck.ob('meta.accessors', done >= 6, h, 'only %d accessors of %s found' % (done, h))
    copies(ck)
    delegates(ck)
    parts(ck)
