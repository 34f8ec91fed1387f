"""P31: tag expressions keep their meaning in disjunctive normal form, and the form is minimal; lookup in a tag index."""
import re
from common import *
from facts import *
from write import short, param
from append import phi_updates
from stores import er
from elements import looped, stripped, lam1
from streams import clo
import flow
import mir

TRIV = ('clone', 'to_owned', 'into_iter', 'iter', 'cloned', 'copied', 'as_ref', 'deref')


def base(t):
    """without borrowing, cloning and iterating"""
    t = er(t)
    while True:
        if t.op == 'iter':
            t = er(t.a[0])
        elif t.op == 'call' and t.a[0].split('::')[-1] in TRIV and len(cargs(t)) == 1:
            t = er(cargs(t)[0])
        elif t.op == 'collect' or t.op == 'call' and t.a[0].split('::')[-1] in ('collect', 'from_iter', 'from') and len(cargs(t)) == 1:
            t = er(t.a[0] if t.op == 'collect' else cargs(t)[0])
        else:
            return t


def fresh(t):
    t = er(t)
    return t.op == 'call' and t.a[0].split('::')[-1] in ('empty', 'new', 'default', 'with_capacity') and not [a for a in cargs(t) if a.op != 'int'] or t.op == 'agg' and len(t.a) == 1


def singleton(t):
    """the one element of a set or list"""
    t = base(t)
    if t.op == 'mut' and t.a[0].split('::')[-1] in ('insert', 'push') and len(t.a) == 5 and fresh(t.a[3]):
        return er(t.a[4])
    if t.op == 'call' and t.a[0].split('::')[-1] == 'once':
        return er(cargs(t)[0])
    if t.op == 'agg' and t.a[0] in ('[]',) and len(t.a) == 2:
        return er(t.a[1].a[1])
    if t.op == 'call' and t.a[0].split('::')[-1] in ('single', 'singleton') and len(cargs(t)) == 1:
        return er(cargs(t)[0])
    return None


def parts(t):
    """tag set built from other sets -> those sets, None if anything else goes into it"""
    t = base(t)
    if fresh(t):
        return set()
    if t.op == 'mut' and t.a[0].split('::')[-1] in ('extend', 'append', 'union_with') and len(t.a) == 5:
        a, b = parts(t.a[3]), parts(t.a[4])
        return None if a is None or b is None else a | b
    if t.op == 'call' and t.a[0].split('::')[-1] in ('union', 'bitor', 'chain') and len(cargs(t)) == 2 or t.op == 'chain' or t.op == 'bin' and t.a[0] == 'BitOr':
        c = cargs(t) if t.op == 'call' else [x for x in t.a if isinstance(x, T)]
        a, b = parts(c[0]), parts(c[1])
        return None if a is None or b is None else a | b
    if t.op == 'mut' or t.op in ('lam', 'case', 'filter', 'map', 'take', 'skip', 'filter_map'):
        return None
    return {t}


def item(nx):
    return mk('fld', nx, 'Some.0')


def inserted(t, p, ps, ins, stop=None):
    """set of conjunctions -> (initial set or None, [(frozenset of loop lists, inserted term)]); None if not such a set"""
    t = er(t)
    if stop is not None and t is stop:
        return 'stop', []
    if fresh(t):
        return None, []
    if t.op == 'mut' and t.a[0] in ins and t.a[2] == 0 and len(t.a) == 5:
        r = inserted(t.a[3], p, ps, ins, stop)
        return r and (r[0], r[1] + [((), er(t.a[4]))])
    if t.op == 'phi':
        r = inserted(t.a[2], p, ps, ins, stop)
        if r is None:
            return None
        nx, rounds = looped(t, ps)
        ups = phi_updates(t, ps)
        if nx is None or not any(er(c.a[0]) is nx and v == 'None' for c, v in p.clog if c.op == 'disc'):
            return None
        if {id(q) for q in rounds} != {id(q) for q, v in ups}:
            return None         # a round that inserts nothing
        out = list(r[1])
        for q, v in ups:
            d = inserted(v, q, ps, ins, t)
            if d is None or d[0] != 'stop' or not d[1]:
                return None
            k = [i for i, (c, v2) in enumerate(q.clog) if c.op == 'disc' and er(c.a[0]) is nx]
            out += [((nx,) + l, x) for l, x in d[1]]
        return r[0], out
    if t.op in ('sym', 'fld'):
        return t, []
    return None


def subset(t):
    """boolean term -> (a, b) if it says that a is a subset of b"""
    t = er(t)
    if t.op == 'call' and len(cargs(t)) == 2:
        a, b = [base(x) for x in cargs(t)]
        n = t.a[0].split('::')[-1]
        if n == 'is_subset':
            return a, b
        if n == 'is_superset':
            return b, a
    return None


def any_of(t):
    """any(iter(set), |x| ..) -> set, element, rows"""
    t = er(t)
    if t.op == 'call' and t.a[0].split('::')[-1] == 'any' and len(cargs(t)) == 2:
        s, l = cargs(t)
        x = mk('sym', '*x*')
        r = lam1(l, x)
        if r is not None:
            return base(s), x, r
    return None


def true_rows(rows, val=True):
    """closure rows as a single atom: the condition under which it is true"""
    if len(rows) == 1 and not rows[0][0]:
        return [rows[0][1]]
    return None


def check_insert(ck, f):
    """absorbing insertion: the set stays as it is if it has a subset of the new conjunction, otherwise every superset of
    the new conjunction is removed and it is added"""
    ps = ck.run(f)
    aa, b = er(param(f, 0)), er(param(f, 1))

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)

    def is_item(x):
        return x.op == 'fld' and x.a[1] == 'Some.0' and x.a[0].op == 'call' and x.a[0].a[0].split('::')[-1] == 'next' and base(cargs(x.a[0])[0]) in (aa,)
    for p in ps:
        if p.outcome != 'return':
            continue
        fin = p.obj(param(f, 0))
        implied = excluded = False
        for c, v in p.clog:
            c = er(c)
            s = subset(c)
            if s and v is True and is_item(s[0]) and s[1] is b:
                implied = True
            if c.op == 'call' and c.a[0].split('::')[-1] == 'contains' and v is True and base(cargs(c)[0]) is aa and base(cargs(c)[1]) is b:
                implied = True
            a = any_of(c)
            if a and a[0] is aa:
                tr = true_rows(a[2])
                s = tr and subset(tr[0])
                if s and s == (a[1], b):
                    implied = implied or v is True
                    excluded = excluded or v is False
            if c.op == 'disc' and v == 'None' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] == 'next' and base(cargs(c.a[0])[0]) is aa:
                # a whole scan: no round finds a subset
                rounds = [q for q in ps if q.outcome == 'loop' and any(er(c2.a[0]) is er(c.a[0]) and v2 == 'Some' for c2, v2 in q.clog if c2.op == 'disc')]
                if rounds and all(any(subset(c2) == (item(er(c.a[0])), b) and v2 is False for c2, v2 in q.clog if subset(c2)) for q in rounds):
                    excluded = True
        if fin is aa:
            ob('dnf.absorb', implied, 'drops a conjunction that no conjunction of the set implies')
            continue
        ok = fin.op == 'mut' and fin.a[0].split('::')[-1] == 'insert' and len(fin.a) == 5 and base(fin.a[4]) is b
        if not ob('dnf.insert', ok, 'does not add the conjunction'):
            continue
        ob('dnf.minimal', excluded, 'adds a conjunction that a conjunction of the set may already imply')
        ob('dnf.remove', removed(er(fin.a[3]), aa, b, p, ps), 'does not remove exactly the conjunctions that the new one implies')


def removed(t, aa, b, p, ps):
    """t = aa without the supersets of b, all of them"""
    if t.op == 'mut' and t.a[0].split('::')[-1] == 'retain' and er(t.a[3]) is aa:
        x = mk('sym', '*x*')
        r = lam1(t.a[4], x)
        if r is None or len(r) != 1 or r[0][0]:
            return False
        v = er(r[0][1])
        return v.op == 'not' and subset(v.a[0]) == (b, x)
    k = base(t)
    if k.op == 'filter' and base(k.a[0]) is aa:
        x = mk('sym', '*x*')
        r = lam1(k.a[1], x)
        if r is None or len(r) != 1 or r[0][0]:
            return False
        v = er(r[0][1])
        return v.op == 'not' and subset(v.a[0]) == (b, x)
    if t.op == 'phi' and er(t.a[2]) is aa:
        nx, rounds = looped(t, ps)
        ups = phi_updates(t, ps)
        if nx is None or not any(er(c.a[0]) is nx and v == 'None' for c, v in p.clog if c.op == 'disc') or {id(q) for q in rounds} != {id(q) for q, v in ups}:
            return False
        for q, v in ups:
            if not (v.op == 'mut' and v.a[0].split('::')[-1] == 'remove' and len(v.a) == 5 and er(v.a[3]) is t and base(v.a[4]) is item(nx)):
                return False
        return supersets(er(cargs(nx)[0]), aa, b, p, ps)
    return False


def supersets(t, aa, b, p, ps):
    """list of all elements of aa that are supersets of b"""
    t = base(t)
    if t.op == 'filter' and base(t.a[0]) is aa:
        x = mk('sym', '*x*')
        r = lam1(t.a[1], x)
        return r is not None and len(r) == 1 and not r[0][0] and subset(r[0][1]) == (b, x)
    if t.op in ('map',) and base(t.a[0]).op == 'filter':
        x = mk('sym', '*x*')
        r = lam1(t.a[1], x)
        return r is not None and len(r) == 1 and not r[0][0] and base(r[0][1]) is x and supersets(t.a[0], aa, b, p, ps)
    if t.op == 'phi' and fresh(t.a[2]):
        nx, rounds = looped(t, ps)
        if nx is None or base(cargs(nx)[0]) is not aa or not any(er(c.a[0]) is nx and v == 'None' for c, v in p.clog if c.op == 'disc'):
            return False
        ups = {id(q): v for q, v in phi_updates(t, ps)}
        for q in rounds:
            tests = {subset(c): v for c, v in q.clog if subset(c)}
            sup = tests.get((b, item(nx)))
            filt = [c for c, v in q.clog if c.op == 'filtered']
            if sup is None or filt:
                return False
            v = ups.get(id(q))
            push = v is not None and v.op == 'mut' and v.a[0].split('::')[-1] in ('push', 'insert') and er(v.a[3]) is t and base(v.a[4]) is item(nx)
            if sup is True and not push or sup is False and v is not None and v is not t:
                return False
        return bool(rounds)
    return False


def check_combine(ck, f, ins):
    ps = ck.run(f, opaque=[g for g in ins.values()])
    a, b = mk('fld', er(param(f, 0)), '0'), mk('fld', er(param(f, 1)), '0')

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    n = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        n += 1
        r = er(p.ret)
        s = er(r.a[1].a[1]) if r.op == 'agg' and r.a[0] == 'Dnf' else None
        g = inserted(s, p, ps, set(ins)) if s is not None else None
        if not ob('dnf.shape', g is not None, 'does not return the conjunctions inserted one by one'):
            continue
        init, adds = g
        adds = [([base(cargs(nx)[0]) for nx in loops], [item(nx) for nx in loops], parts(x)) for loops, x in adds]
        if f.method == 'bitor':
            have = {init} if init is not None else set()
            ok = True
            for ls, its, pt in adds:
                ok = ok and len(ls) == 1 and pt == set(its)
                have |= parts(ls[0]) if ls and parts(ls[0]) is not None else {None}
            ob('dnf.or', ok and have == {a, b}, 'does not contain the conjunctions of both operands')
        else:
            ok = init is None and len(adds) == 1
            for ls, its, pt in adds:
                ok = ok and len(ls) == 2 and set(ls) == {a, b} and pt == set(its)
            ob('dnf.and', ok, 'does not contain the union of every conjunction of one operand with every conjunction of the other')
    ck.ob('dnf.shape', n > 0, f.key, '%s never returns' % short(f), f.where)


# --------------------------------------------------------------------------
# folding a list of operands
# --------------------------------------------------------------------------
def op_name(t, ck):
    """binary function value -> 'bitor' / 'bitand'"""
    t = er(t)
    if t.op == 'const':
        n = t.a[0].split('::')[-1].rstrip('}')
        return n if n in ('bitor', 'bitand') else None
    if t.op == 'lam' and len(t.a) == 1 and not t.a[0].a[0].a:
        b = er(t.a[0].a[1])
        if b.op == 'call' and len(cargs(b)) == 2 and {x.op for x in cargs(b)} == {'bound'} and cargs(b)[0] is not cargs(b)[1]:
            return b.a[0].split('::')[-1]
        return None
    c = clo(ck, t)
    if c:
        rs = {er(p.ret) for p in ck.run(c[0], opaque=OPQ[0]) if p.outcome == 'return'}
        ps = [er(param(c[0], i)) for i in (1, 2)] if len(c[0].args) == 3 else None
        if len(rs) == 1 and ps:
            r = rs.pop()
            if r.op == 'call' and set(cargs(r)) == set(ps):
                return r.a[0].split('::')[-1]
    return None


OPQ = [[]]


def fn1(t, x, ck):
    """unary function value applied to x"""
    t = er(t)
    if t.op == 'lam':
        r = lam1(t, x)
        return er(r[0][1]) if r is not None and len(r) == 1 and not r[0][0] else None
    if t.op == 'const':
        return mk('call', t.a[0].split('::')[-1].rstrip('}'), None, x)
    c = clo(ck, t)
    if c:
        rs = {er(p.ret) for p in ck.run(c[0], opaque=OPQ[0]) if p.outcome == 'return'}
        if len(rs) == 1:
            return subst(rs.pop(), {er(param(c[0], 1)): x})
    return None


def mapped(t, ck):
    """mapped list -> (list, element function applied to *x*)"""
    x = mk('sym', '*x*')
    t = er(t)
    while t.op in ('iter', 'collect') and isinstance(t.a[0], T) or t.op == 'call' and t.a[0].split('::')[-1] in ('collect', 'into_iter', 'iter') and len(cargs(t)) == 1:
        t = er(t.a[0] if t.op != 'call' else cargs(t)[0])
    if t.op == 'map':
        s = base(t.a[0])
        e = fn1(t.a[1], x, ck)
        return (s, e) if s.op in ('sym', 'fld') and e is not None else None
    t = base(t)
    return (t, x) if t.op in ('sym', 'fld') else None


def folded(t, p, ps, ck):
    """-> (operator, list, element over *x*, value for the empty list or None if the term does not exist for it)"""
    t = er(t)
    x = mk('sym', '*x*')
    if listed(t, p, ck):
        return listed(t, p, ck)
    if t.op == 'fld' and t.a[1] == 'Some.0' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] == 'reduce':
        c = cargs(t.a[0])
        m, o = mapped(c[0], ck), op_name(c[1], ck)
        return (o, m[0], m[1], None) if m and o else None
    if t.op == 'call' and t.a[0].split('::')[-1] == 'fold' and len(cargs(t)) == 3:
        c = cargs(t)
        m, o = mapped(c[0], ck), op_name(c[2], ck)
        return (o, m[0], m[1], er(c[1])) if m and o else None
    if t.op == 'phi':
        nx, rounds = looped(t, ps)
        ups = phi_updates(t, ps)
        if nx is None or len(ups) != 1 or len(rounds) != 1 or not any(er(c.a[0]) is nx and v == 'None' for c, v in p.clog if c.op == 'disc'):
            return None
        u = er(ups[0][1])
        if u.op == 'call' and len(cargs(u)) == 2 and t in cargs(u):
            e = [y for y in cargs(u) if y is not t]
            m = mapped(cargs(nx)[0], ck)
            if len(e) == 1 and m and m[1] is x:
                return u.a[0].split('::')[-1], m[0], subst(e[0], {item(nx): x}), er(t.a[2])
    return None


def listed(t, p, ck):
    """Expression::or / and of a whole list: fold with that operator (flattening keeps the meaning)"""
    if t.op in ('call', 'agg') and t.a[0].split('::')[-1].lower() in ('or', 'and') and t.a[0].split('::')[-2:-1] == ['Expression']:
        l = cargs(t)[0] if t.op == 'call' else t.a[1].a[1]
        m = mapped(er(l), ck)
        if m:
            return 'bit' + t.a[0].split('::')[-1].lower(), m[0], m[1], None
    return None


def none_of(t, p, ck):
    """path on which the list that is reduced is empty -> (operator, list, element)"""
    for c, v in p.clog:
        c = er(c)
        if c.op == 'disc' and v == 'None' and c.a[0].op == 'call' and c.a[0].a[0].split('::')[-1] == 'reduce':
            a = cargs(c.a[0])
            m, o = mapped(a[0], ck), op_name(a[1], ck)
            if m and o:
                return o, m[0], m[1]
        if c.op == 'call' and c.a[0].split('::')[-1] == 'is_empty' and v is True:
            return None, base(cargs(c)[0]), None
    return None


def dnf_unit(t, op):
    """Dnf that matches nothing (bitor) / everything (bitand)"""
    t = er(t)
    if t.op != 'agg' or t.a[0] != 'Dnf':
        return False
    s = er(t.a[1].a[1])
    return fresh(s) if op == 'bitor' else singleton(s) is not None and fresh(base(singleton(s)))


def expr_unit(t, op):
    t = er(t)
    want = {'bitor': 'Or', 'bitand': 'And'}[op]
    if t.op in ('agg', 'call') and t.a[0] in ('Expression::' + want, 'Expression::' + want.lower()):
        l = base(t.a[1].a[1] if t.op == 'agg' else cargs(t)[0])
        if fresh(l):
            return True
        return flat(l, want) is not None and fresh(flat(l, want)[0])
    return False


def check_fold(ck, f, ps, sel, elem_ok, unit_ok, rule):
    """every return value is the fold, with the operator of the node, of the converted operands"""
    for p in ps:
        if p.outcome != 'return':
            continue
        want, src = sel(p)
        if want is None:
            continue
        x = mk('sym', '*x*')
        r = folded(p.ret, p, ps, ck)
        if r is not None:
            ok = r[0] == want and r[1] is src and elem_ok(r[2], x) and (r[3] is None or unit_ok(r[3], want))
        else:
            n = none_of(p.ret, p, ck)
            ok = n is not None and n[0] in (want, None) and n[1] is src and (n[2] is None or elem_ok(n[2], x)) and unit_ok(p.ret, want)
        ck.ob(rule, ok, f.key, '%s does not combine all its operands with %s: %s' % (short(f), want, flow.show(er(p.ret))[:100]), f.where)


# --------------------------------------------------------------------------
# expressions
# --------------------------------------------------------------------------
def flat(t, variant, p=None, ps=None):
    """list in which operands of the same kind are replaced by their operands -> (list, element function)"""
    t = er(t)
    x = mk('sym', '*x*')
    while t.op in ('iter', 'collect') and isinstance(t.a[0], T) or t.op == 'call' and t.a[0].split('::')[-1] in ('collect', 'into_iter', 'iter') and len(cargs(t)) == 1:
        t = er(t.a[0] if t.op != 'call' else cargs(t)[0])
    if t.op == 'flat_map':
        src = base(t.a[0])
        r = lam1(t.a[1], x)
        if r is None:
            return None
        el = set()
        for cs, v in r:
            v = er(v)
            one = singleton(v)
            if one is not None:
                el.add(one)
            elif v.op == 'fld' and v.a[1] == variant + '.0' and any(c.op == 'disc' and er(c.a[0]) is v.a[0] and vv == variant for c, vv in cs):
                el.add(v.a[0])
            else:
                return None
        return (src, el.pop()) if len(el) == 1 else None
    if t.op == 'map':
        r = lam1(t.a[1], x)
        if r is None or len(r) != 1 or r[0][0]:
            return None
        return base(t.a[0]), er(r[0][1])
    t = base(t)
    if t.op == 'phi' and ps is not None:
        nx, rounds = looped(t, ps)
        if nx is None or not fresh(t.a[2]) or not any(er(c.a[0]) is nx and v == 'None' for c, v in p.clog if c.op == 'disc'):
            return None
        ups = phi_updates(t, ps)
        if {id(q) for q in rounds} != {id(q) for q, v in ups} or any(c.op == 'filtered' for q in rounds for c, v in q.clog):
            return None
        el = set()
        for q, v in ups:
            v = er(v)
            if v.op != 'mut' or er(v.a[3]) is not t or len(v.a) != 5:
                return None
            n, y = v.a[0].split('::')[-1], er(v.a[4])
            if n == 'push':
                el.add(y)
            elif n == 'extend' and base(y).op == 'fld' and base(y).a[1] == variant + '.0' and any(c.op == 'disc' and er(c.a[0]) is er(base(y).a[0]) and vv == variant for c, vv in q.clog):
                el.add(er(base(y).a[0]))
            else:
                return None
        return (base(cargs(nx)[0]), subst(el.pop(), {item(nx): x})) if len(el) == 1 else None
    return (t, x)


def check_expr(ck, f):
    """or / and / simplify: same meaning as the operands, in the same kind of node"""
    ps = ck.run(f, opaque=[f])
    x = mk('sym', '*x*')
    n = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        n += 1
        r = er(p.ret)

        def ob(ok, msg):
            return ck.ob('expr.' + f.method, ok, f.key, '%s %s: %s' % (short(f), msg, flow.show(r)[:100]), f.where)
        kind = {'or': 'Or', 'and': 'And'}.get(f.method)
        src = er(param(f, 0))
        want = x
        if f.method == 'simplify':
            k = [v for c, v in p.clog if c.op == 'disc' and er(c.a[0]) is src and isinstance(v, str)]
            if not ob(len(k) == 1, 'does not look at the kind of expression'):
                continue
            kind = k[0]
            if kind == 'Literal':
                ob(base(r) is src or r.op == 'agg' and r.a[0] == 'Expression::Literal' and base(r.a[1].a[1]) is mk('fld', src, 'Literal.0'), 'does not keep a literal')
                continue
            src = mk('fld', src, kind + '.0')
            want = 'simplify'

        def same(l):
            g = flat(l, kind, p, ps)
            if g is None or g[0] is not src:
                return False
            if want is x:
                return base(g[1]) is x
            e = g[1]
            return base(e) is x or e.op == 'call' and e.a[0].split('::')[-1] == 'simplify' and base(cargs(e)[0]) is x
        if r.op in ('agg', 'call') and r.a[0] in ('Expression::' + kind, 'Expression::' + kind.lower()):
            l = r.a[1].a[1] if r.op == 'agg' else cargs(r)[0]
            ob(same(l), 'changes the operands')
            continue
        # the only operand of a list with one element
        e = r
        one = None
        if e.op == 'fld' and e.a[1] == 'Some.0' and e.a[0].op == 'call' and e.a[0].a[0].split('::')[-1] in ('next', 'pop', 'first', 'last'):
            l = er(cargs(e.a[0])[0])
            while l.op in ('iter',) or l.op == 'phi':
                l = er(l.a[0] if l.op == 'iter' else l.a[2])
            one = l
        if e.op in ('fld', 'at') and e.a[1] in ('[last]', '[0]', '[first]'):
            one = er(e.a[0])
        lens = [c for c, v in p.clog if c.op == 'bin' and c.a[0] == 'Eq' and v is True and INT(1) in c.a[1:] and any(is_len(y) and one is not None and base(er(cargs(y)[0])) is base(one) for y in c.a[1:])]
        ob(one is not None and bool(lens) and same(one), 'returns something else than its only operand')
    ck.ob('expr.' + f.method, n > 0, f.key, '%s never returns' % short(f), f.where)


def check_ops(ck, f):
    """a | b, a & b on expressions"""
    want = {'bitor': 'Or', 'bitand': 'And'}[f.method]
    opq = [g for g in all_fns(ck.prog) if g.selfty == 'Expression' and g.method in ('or', 'and')]
    for p in ck.run(f, opaque=opq):
        if p.outcome != 'return':
            continue
        r = er(p.ret)
        l = None
        if r.op in ('agg', 'call') and r.a[0] in ('Expression::' + want, 'Expression::' + want.lower()):
            l = er(r.a[1].a[1] if r.op == 'agg' else cargs(r)[0])
        ok = l is not None and l.op == 'agg' and l.a[0] == '[]' and {er(y.a[1]) for y in l.a[1:]} == {er(param(f, 0)), er(param(f, 1))} and len(l.a) == 3
        ck.ob('expr.op', ok, f.key, '%s is not an %s of both operands: %s' % (short(f), want, flow.show(r)[:80]), f.where)


# --------------------------------------------------------------------------
# matching
# --------------------------------------------------------------------------
def lookup_all(t, s, tags):
    """indices of all tags of s in the table, None if one is missing"""
    t = er(t)
    if t.op == 'collect_Option' or t.op == 'call' and t.a[0].split('::')[-1] == 'collect_Option':
        m = er(t.a[0] if t.op != 'call' else cargs(t)[0])
        if m.op == 'map' and base(m.a[0]) is s:
            x = mk('sym', '*t*')
            r = lam1(m.a[1], x)
            if r is None:
                return False
            found = False
            for cs, v in r:
                v = er(v)
                bs = [(c.a[0], vv) for c, vv in cs if c.op == 'disc']
                if len(bs) != 1 or len(cs) != 1 or not is_call(er(bs[0][0]), 'binary_search') or base(cargs(er(bs[0][0]))[0]) is not tags or base(cargs(er(bs[0][0]))[1]) is not x:
                    return False
                if bs[0][1] == 'Ok':
                    i = er(v.a[1].a[1]) if v.op == 'agg' and v.a[0] == 'Option::Some' else None
                    while i is not None and i.op == 'cast' and str(i.a[0]) in ('u32', 'u64', 'usize'):
                        i = er([y for y in i.a if isinstance(y, T)][0])
                    if i is not mk('fld', er(bs[0][0]), 'Ok.0'):
                        return False
                    found = True
                elif not (v.op == 'agg' and v.a[0] == 'Option::None'):
                    return False
            return found
    return False


def translated(t, q, tags, ck):
    """list of the index sets of all conjunctions whose tags are all in the table"""
    t = base(t)
    if t.op != 'filter_map' or base(t.a[0]) is not q:
        return False
    x = mk('sym', '*s*')
    r = lam1(t.a[1], x)
    if r is None:
        return False
    for cs, v in r:
        v = er(v)
        if v.op == 'agg' and v.a[0] == 'Option::None':
            continue
        while v.op == 'agg' and v.a[0] == 'Option::Some':
            v = er(v.a[1].a[1])
            if v.op == 'fld' and v.a[1] == 'Some.0':
                v = v.a[0]
        if not lookup_all(v, x, tags):
            return False
    return True


def check_matching(ck, f):
    ps = ck.run(f)
    me, q = er(param(f, 0)), mk('fld', er(param(f, 1)), '0')
    tags, els = mk('fld', me, 'tags'), mk('fld', me, 'elements')

    def ob(rule, ok, msg):
        return ck.ob(rule, ok, f.key, '%s %s' % (short(f), msg), f.where)
    full = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        r = er(p.ret)
        if fresh(r):
            ok = any(er(c).op == 'call' and er(c).a[0].split('::')[-1] == 'is_empty' and v is True and (translated(cargs(er(c))[0], q, tags, ck) or base(cargs(er(c))[0]) in (q, els)) for c, v in p.clog)
            ob('matching.none', ok, 'finds nothing although a conjunction may match')
            continue
        full += 1
        ob('matching.all', positions(r, els, q, tags, ck) or looped_positions(r, els, q, tags, ck, p, ps), 'does not return exactly the positions of the tag sets that contain all tags of a conjunction')
    ck.ob('matching.all', full > 0, f.key, '%s never looks at the elements' % short(f), f.where)


def positions(t, els, q, tags, ck):
    t = base(t)
    x = mk('sym', '*e*')
    en = None
    if t.op == 'filter_map':
        en, rows = er(t.a[0]), lam1(t.a[1], x)
    elif t.op == 'map' and er(t.a[0]).op == 'filter':
        fl = er(t.a[0])
        en = er(fl.a[0])
        m, g = lam1(t.a[1], x), lam1(fl.a[1], x)
        if m is None or g is None or len(m) != 1 or m[0][0]:
            return False
        rows = []
        for cs, v in g:
            if v is TRUE:
                rows.append((cs, mk('agg', 'Option::Some', mk('f', '0', m[0][1]))))
            elif v is FALSE:
                rows.append((cs, mk('agg', 'Option::None')))
            else:
                rows += [(cs + [(v, True)], mk('agg', 'Option::Some', mk('f', '0', m[0][1]))), (cs + [(v, False)], mk('agg', 'Option::None'))]
    else:
        return False
    if rows is None:
        return False
    if en.op == 'enumerate':
        src = base(en.a[0])
        pos, el = (mk('fld', x, '0'), mk('idx', x)), mk('fld', x, '1')
    else:
        return False
    if src is not els:
        return False
    seen = set()
    for cs, v in rows:
        v = er(v)
        some = v.op == 'agg' and v.a[0] == 'Option::Some'
        if some and er(v.a[1].a[1]) not in pos:
            return False
        if len(cs) != 1 or not isinstance(cs[0][1], bool):
            return False
        a = any_of(cs[0][0])
        if a is None or not translated(a[0], q, tags, ck):
            return False
        tr = true_rows(a[2])
        if not tr or subset(tr[0]) != (a[1], el) or cs[0][1] is not some:
            return False
        seen.add(some)
    return seen == {True, False}


def looped_positions(t, els, q, tags, ck, p, ps):
    t = er(t)
    if t.op != 'phi' or not fresh(t.a[2]):
        return False
    nx, rounds = looped(t, ps)
    if nx is None or base(cargs(nx)[0]) is not els or not any(er(c.a[0]) is nx and v == 'None' for c, v in p.clog if c.op == 'disc'):
        return False
    ups = {id(r): er(v) for r, v in phi_updates(t, ps)}
    el = item(nx)
    seen = set()
    for r in rounds:
        v = ups.get(id(r))
        if any(c.op == 'filtered' for c, _ in r.clog):
            return False
        hit = None
        for c, val in r.clog:
            a = any_of(c)
            if a and a[1] is not None and translated(a[0], q, tags, ck):
                tr = true_rows(a[2])
                if tr and subset(tr[0]) == (a[1], el):
                    hit = val
        if hit is None:
            return False
        push = v is not None and v.op == 'mut' and v.a[0].split('::')[-1] == 'push' and er(v.a[3]) is t and er(v.a[4]) in (mk('idx', el), mk('ridx', el))
        if er(v.a[4]).op == 'ridx' if push else False:
            return False
        if hit and not push or not hit and v is not None and v is not t:
            return False
        seen.add(hit)
    return seen == {True, False}


def delegated(f, ps, group):
    rs = [er(p.ret) for p in ps if p.outcome == 'return']
    me = er(param(f, 0))
    return bool(rs) and all(r.op == 'call' and any(cname(r.a[0], flow.short(g)) for g in group if g is not f) and base(cargs(r)[0]) is me for r in rs)


def P31(ck):
    """Dnf. Absorbing insertion of a conjunction: unchanged only if a conjunction of the set is a subset of it, otherwise all its
    supersets are removed and it is added. bitor inserts every conjunction of both operands, bitand the union of every pair.
    dnf: a literal is the set with the one conjunction of that literal, Or / And fold all converted operands with that operator,
    with the right value for no operands; back likewise. or, and, simplify, |, & keep kind and operands, splicing only operands
    of the same kind. TagIndex::matching: exactly the positions whose set has a translated conjunction as subset, a conjunction
    being dropped only if one of its tags is not in the table."""
    prog = ck.prog
    fs = [f for f in all_fns(prog) if f.crate == 'banyan_utils' and '{closure' not in f.key and '::tests' not in f.key]
    dn = [f for f in fs if f.selfty == 'Dnf' and f.trait in ('BitOr', 'BitAnd') and f.method in ('bitor', 'bitand')]
    ins = [f for f in fs if len(f.args) == 2 and re.match(r"&mut (std::collections::)?BTreeSet<.*VecSet<", f.locals[f.args[0]].replace('&mut std::collections::', '&mut ')) and not f.locals[f.args[1]].startswith('&')]
    for f in ins:
        check_insert(ck, f)
    for f in dn:
        check_combine(ck, f, {flow.short(g): g for g in ins})
    conv = [f for f in fs if f.selfty == 'Expression' and f.trait is None and f.method == 'dnf']
    OPQ[0] = dn + conv + [f for f in fs if f.selfty == 'Expression' and f.trait is None and f.method in ('or', 'and')] + [f for f in fs if f.selfty == 'Expression' and f.trait in ('BitOr', 'BitAnd')]
    conv += [f for f in fs if f.selfty == 'Dnf' and f.trait and f.trait.startswith('From') and f.method == 'from' and is_type(f.locals[f.args[0]], 'Expression')]
    OPQ[0] = OPQ[0] + conv
    for f in conv:
        ps = ck.run(f, opaque=OPQ[0])
        if delegated(f, ps, conv):
            continue
        me = er(param(f, 0))
        for p in ps:
            if p.outcome == 'return':
                k = [v for c, v in p.clog if c.op == 'disc' and er(c.a[0]) is me]
                r = er(p.ret)
                if k == ['Literal']:
                    s = singleton(er(r.a[1].a[1])) if r.op == 'agg' and r.a[0] == 'Dnf' else None
                    ck.ob('dnf.literal', s is not None and singleton(s) is not None and base(singleton(s)) is mk('fld', me, 'Literal.0'), f.key, '%s does not turn a literal into its own conjunction' % short(f), f.where)

        def sel(p, me=me):
            k = [v for c, v in p.clog if c.op == 'disc' and er(c.a[0]) is me]
            return ({'Or': 'bitor', 'And': 'bitand'}.get(k[0]) if k else 'unknown'), k and mk('fld', me, '%s.0' % k[0])
        check_fold(ck, f, ps, sel, lambda e, x: e.op == 'call' and e.a[0].split('::')[-1] == 'dnf' and base(cargs(e)[0]) is x, dnf_unit, 'dnf.fold')
    back = [f for f in fs if f.selfty == 'Dnf' and f.trait is None and ret_is(f, 'Expression')]
    back += [f for f in fs if f.selfty == 'Expression' and f.trait and f.trait.startswith('From') and f.method == 'from' and is_type(f.locals[f.args[0]], 'Dnf')]
    for f in back:
        if delegated(f, ck.run(f, opaque=OPQ[0] + [g for g in back if g is not f]), back):
            continue
        if is_type(f.locals[f.args[0]], 'Dnf'):
            check_fold(ck, f, ck.run(f, opaque=OPQ[0] + [g for g in back if g is not f]), lambda p, f=f: ('bitor', mk('fld', er(param(f, 0)), '0')), lambda e, x: conj(e, x, back, ck), expr_unit, 'back.or')
        else:
            check_fold(ck, f, ck.run(f, opaque=OPQ[0]), lambda p, f=f: ('bitand', er(param(f, 0))), literal, expr_unit, 'back.and')
    for f in fs:
        if f.selfty == 'Expression' and f.trait is None and f.method in ('or', 'and', 'simplify'):
            check_expr(ck, f)
        if f.selfty == 'Expression' and f.trait in ('BitOr', 'BitAnd') and f.method in ('bitor', 'bitand'):
            check_ops(ck, f)
        if f.selfty == 'TagIndex' and f.method == 'matching':
            check_matching(ck, f)
    for r, k in (('dnf.absorb', 1), ('dnf.insert', 1), ('dnf.minimal', 1), ('dnf.remove', 1), ('dnf.or', 1), ('dnf.and', 1), ('dnf.literal', 1), ('dnf.fold', 2), ('back.or', 1),
                 ('expr.or', 1), ('expr.and', 1), ('expr.simplify', 3), ('expr.op', 2), ('matching.all', 1)):
        ck.floor(r, k)


def ret_is(f, name):
    return f.locals[0].split('::')[-1].strip() == name


def is_type(t, name):
    return t.replace('&', '').strip().split('::')[-1] == name


def literal(e, x):
    return e.op in ('call', 'agg') and e.a[0].split('::')[-1].lower() == 'literal' and base(cargs(e)[0] if e.op == 'call' else e.a[1].a[1]) is x


def conj(e, x, back, ck):
    if e.op == 'call' and any(e.a[0].split('::')[-1] == g.method for g in back) and base(cargs(e)[0]) is x:
        return True
    return literal(e, x)
