"""P17: what the queries of the library do to a mask: pointwise boolean functions, compared over all truth values."""
import itertools
from common import *
from facts import *
from flow import TRUE, FALSE
from write import short, param
from append import phi_updates
from traverse import diff, uncast, lin
from elements import POS, rows, value, pre, pre2, at, lam1, is_named
import flow

IN = mk('sym', 'IN')
C = mk('sym', 'CONTAINS')


class Undecided(Exception):
    pass


def unphi1(t):
    return t.a[2] if t.op == 'phi' else t


class Mask:
    """the boolean at position POS of every mask of a Query implementation"""
    def __init__(self, ck, f, paths):
        self.ck, self.f, self.paths = ck, f, paths
        self.res, self.offset, self.index, self.me = param(f, 3), param(f, 1), param(f, 2), param(f, 0)
        self.ex = {}      # sym of a mask -> boolean term at POS
        self.syms = {}    # mask term -> sym
        self.depth = 0
        self.seq = None   # the sequence the mask is about, if its length may be used

    # -- masks
    def mask(self, t):
        """sym for a mask term, None if it is not one"""
        if t in self.syms:
            return self.syms[t]
        e = None
        if t is self.res or t.op == 'old' and t.a[0] is self.res:
            e = IN
        elif t.op == 'phi' and isinstance(t.a[2], T):
            b = self.mask(t.a[2])
            if b is not None:
                e = self.ex[b]
        elif t.op == 'mut':
            nm = t.a[0].split('::')[-1]
            args = [x for x in t.a[4:] if isinstance(x, T)]
            if nm in ('containing', 'intersecting') and t.a[0].startswith('Query::') or t.a[0].endswith(' as Query>::' + nm):
                b = self.mask(t.a[3])
                if b is not None:
                    if nm != self.f.method or len(args) != 3 or args[1] is not self.offset or args[2] is not self.index:
                        raise Undecided('asks a query with %s' % ', '.join(show(a)[:40] for a in args[1:]))
                    e = mk('bin', 'BitAnd', self.ex[b], mk('q', args[0]))
            elif nm == 'fill' and len(args) == 1 and self.mask(t.a[3]) is not None:
                e = args[0]
            elif nm in ('copy_from_slice', 'clone_from_slice') and len(args) == 1 and self.mask(t.a[3]) is not None:
                r = self.rows(args[0], None)
                if r and r.kind == 'all':
                    e = self.boolean(r.el)
        if e is None:
            return None
        s = mk('sym', 'MASK%d' % len(self.syms))
        self.syms[t] = s
        self.ex[s] = e
        return s

    def norm(self, t):
        """masks as symbols"""
        cand = {}
        for x in find_terms(t, lambda x: x.op in ('sym', 'old', 'phi', 'mut')):
            s = self.mask(x)
            if s is not None:
                cand[x] = s
        return subst(t, cand) if cand else t

    def rows(self, t, p):
        return rows(self.norm(t), p, self.paths)

    # -- terms at POS
    def boolean(self, t):
        """a boolean over IN, C, q(..) and comparisons, with the elements of masks replaced"""
        t = self.norm(t)
        return self.b(t)

    def b(self, t):
        self.depth += 1
        try:
            if self.depth > 200:
                raise Undecided('too deep')
            if t.op in ('bool', 'q') or t in (IN, C):
                return t
            if t.op == 'elt':
                if t.a[0] in self.ex:
                    return self.ex[t.a[0]]
                return t
            if t.op == 'not':
                return mk('not', self.b(t.a[0]))
            if t.op == 'bin' and t.a[0] in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne') and (t.a[0].startswith('Bit') or self.isbool(t.a[1])):
                return mk('bin', t.a[0], self.b(t.a[1]), self.b(t.a[2]))
            if t.op == 'call' and t.a[0].split('::')[-1] == 'contains' and 'Range' in t.a[0] and len(cargs(t)) == 2:
                r, o = cargs(t)
                if r is mk('fld', self.me, '0') and diff(o, mk('bin', 'Add', self.offset, POS)) == {}:
                    return C
            return t
        finally:
            self.depth -= 1

    def isbool(self, t):
        return t.op in ('bool', 'not', 'q', 'elt') or t in (IN, C)

    # -- one round of a loop / one call of a closure
    def counters(self, t, rounds):
        """variables that grow by one in every round"""
        m = {}
        for x in find_terms(t, lambda x: x.op == 'phi' and isinstance(x.a[2], T)):
            if self.mask(x) is not None:
                continue
            ups = [(q, u) for q, u in phi_updates(x, self.paths) if any(q is r for r in rounds)]
            if ups and len({id(q) for q, _ in ups}) == len(rounds) and all(diff(u, x) == {None: 1} for q, u in ups):
                m[x] = POS if x.a[2] is INT(0) else mk('bin', 'Add', x.a[2], POS)
        return m

    def position(self, t, it, el, rounds, p):
        t = pre2(t, {})
        t = self.norm(subst(t, self.counters(t, rounds)))
        it = self.norm(it)
        m = {it: el}
        for x in find_terms(t, lambda x: x.op in ('idx', 'zipitem')):
            if x.op == 'idx' and unphi1(x.a[0]) is it:
                m[x] = POS
            elif x.op == 'zipitem' and x.a[1] is mk('idx', it):
                r = rows(x.a[0], p, self.paths)
                if not r or r.kind != 'all':
                    raise Undecided('loops over %s' % show(x.a[0])[:60])
                m[x] = r.el
        for x in find_terms(t, lambda x: x.op == 'phi' and isinstance(x.a[2], T) and contains(x.a[2], it)):
            m[x] = subst(x.a[2], m)     # the element before this round
        for _ in range(4):
            t2 = subst(t, m)
            if t2 is t:
                break
            t = t2
        return value(t)

    def covers(self, r):
        """the source reaches every position of the mask"""
        def ok(e):
            e = uncast(e)
            if e.op == 'bin' and e.a[0] in ('min', 'Min') or is_named(e, 'min'):
                xs = e.a[1:] if e.op == 'bin' else cargs(e)
                return all(ok(x) for x in xs if isinstance(x, T))
            if e.op == 'min':
                return all(ok(x) for x in e.a if isinstance(x, T))
            if is_named(e, 'len') and cargs(e)[0] in self.ex:
                return True
            if is_named(e, 'len') and self.seq is not None and contains(cargs(e)[0], self.seq):
                return True
            if diff(e, self.count()) == {} and self.f.method == 'containing':
                return True
            if is_named(e, 'count', 'len') and self.f.method == 'containing' and cargs(e)[0] is mk('fld', self.index, 'keys'):
                return True
            return False
        return r is not None and r.kind == 'all' and all(ok(e) for e in r.ends)

    def count(self):
        if self.f.method == 'containing':
            return mk('call', 'CompactSeq::len', None, mk('fld', self.index, 'keys'))
        return mk('fld', self.index, 'count')

    # -- a path
    def outcome(self, p):
        """[(literals, boolean)]: what the bit at a position is when the path returns"""
        V = p.store.get(('O', self.res), self.res)
        s = self.mask(V)
        if s is None:
            raise Undecided('leaves %s in the mask' % show(V)[:80])
        pre_ = []
        exits = []
        for c, v in p.clog:
            if c.op == 'disc' and v == 'None' and is_named(c.a[0], 'next', 'next_back'):
                exits.append(c.a[0])
            elif c.op in ('disc', 'is') or isinstance(v, bool):
                pre_.append((c, v))
        out = [([], self.ex[s])]
        changed = 0
        for nx in exits:
            rounds = [q for q in self.paths if q.outcome == 'loop' and any(c.op == 'disc' and c.a[0] is nx and v == 'Some' for c, v in q.clog)
                      and self.agree(q, p, nx) and self.advances(q, nx)]
            it = mk('fld', nx, 'Some.0')
            cases, writes = [], False
            src = None
            for q in rounds:
                ws = [(root, path, v) for (root, path), v in (q.updates or {}).items() if root[0] == 'O']
                ws = [(r, pt, v) for r, pt, v in ws if r[1] is self.res or contains(r[1], it)]
                if src is None:
                    src = self.rows(cargs(nx)[0], p)
                if src is None:
                    if ws:
                        raise Undecided('writes in a loop over %s' % show(cargs(nx)[0])[:80])
                    continue
                val = self.ex[s]
                for r, pt, v in ws:
                    writes = True
                    if r[1] is self.res:
                        base, new = v, []
                        while base.op == 'upd':
                            new.append((base.a[1], base.a[2]))
                            base = base.a[0]
                        if self.mask(base) is not s or len(new) != 1 or pt:
                            raise Undecided('writes %s' % show(v)[:80])
                        e = self.position(mk('fld', base, new[0][0]), it, src.el, rounds, p)
                        if e is not at(self.syms[base]):
                            raise Undecided('writes the bit of %s' % show(e)[:60])
                        val = new[0][1]
                    else:
                        e = self.position(r[1], it, src.el, rounds, p)
                        if e is not at(s) or pt:
                            raise Undecided('writes the bit of %s' % show(e)[:60])
                        val = v
                    val = self.b(self.position(val, it, src.el, rounds, p))
                k = [i for i, (c, v) in enumerate(q.clog) if c.op == 'disc' and c.a[0] is nx][0]
                ls = []
                for c, v in q.clog[k + 1:]:
                    if c.op == 'filtered':
                        raise Undecided('skips positions with %s' % show(c)[:60])
                    if c.op == 'disc' and is_named(c.a[0], 'next'):
                        if any(contains(v2, c.a[0]) for v2 in [val]):
                            raise Undecided('takes a value out of a nested loop')
                        t = self.search(c.a[0], nx)
                        ls.append((self.b(self.position(t, it, src.el, rounds, p)), v == 'Some'))
                        if v == 'Some':
                            break
                        continue
                    ls.append((self.b(self.position(c, it, src.el, rounds, p)), v))
                cases.append((ls, val))
            if writes:
                changed += 1
                if not self.covers(src):
                    raise Undecided('the loop over %s does not reach every position' % show(cargs(nx)[0])[:80])
                out = cases
        calls = [e for e in p.events if e.kind == 'call' and not e.lam and is_named(e.res, 'for_each')] if True else []
        lams = [e for e in p.events if e.kind == 'lam']
        for l in lams:
            cs = [e for e in calls if len(e.args) == 2 and e.args[1] is l.res]
            if len(cs) != 1:
                raise Undecided('changes masks in a closure')
            src = self.rows(cs[0].args[0], p)
            if src is None or src.kind == 'all' and not self.covers(src):
                raise Undecided('the closure is not applied to every position: %s' % show(cs[0].args[0])[:80])
            f = lambda t: value(bind(pre(self.norm(t)), src.el))
            cases = []
            for lt_, outc, ret, wr in l.extra:
                if outc != 'return':
                    continue
                val = self.ex[s]
                for (root, path), v in wr.items():
                    if root[0] != 'O' or path or f(root[1]) is not at(s):
                        raise Undecided('writes %s' % show(root[1])[:60] if root[0] == 'O' else 'keeps state in a closure')
                    val = self.b(f(v))
                ls = [(self.b(f(x.a[0])), x.a[1]) for x in lt_.a]
                cases.append((ls, val))
            if src.kind == 'sel':
                if src.ends and not self.covers(type(src)('all', None, src.el, src.ends)):
                    raise Undecided('the closure is not applied to every position')
                bit = self.b(at(src.mask))
                cases = [(ls + [(bit, True)], v) for ls, v in cases] + [([(bit, False)], self.ex[s])]
            changed += 1
            out = cases
        if changed > 1:
            raise Undecided('changes the mask element by element more than once')
        return pre_, out

    def advances(self, q, nx):
        """a round of the loop that drives nx, not of one inside it"""
        src = cargs(nx)[0]
        if src.op == 'phi':
            src = src.a[2]
        for v in (q.updates or {}).values():
            if v.op == 'mut' and v.a[0].split('::')[-1] in ('next', 'next_back'):
                w = v.a[3]
                w = w.a[2] if w.op == 'phi' else w
                if w is src or contains(w, src) or w.op == 'iter' and w.a[0] is src:
                    return True
                # counted through an adaptor: enumerate(..), zip(..)
                if src.op == 'iter' and mentions(w, lambda x: x is src):
                    return True
        return False

    def search(self, inner, outer):
        """a loop inside a round that stops at the first hit, as any(source, condition)"""
        it = mk('fld', inner, 'Some.0')
        cases = []
        for q in self.paths:
            k = [i for i, (c, v) in enumerate(q.clog) if c.op == 'disc' and c.a[0] is inner and v == 'Some']
            if not k or q.outcome != 'loop':
                continue
            ls = q.clog[k[0] + 1:]
            if any(c.op == 'disc' and is_named(c.a[0], 'next') for c, v in ls):
                raise Undecided('loops nested too deep')
            again = self.advances(q, inner)
            sub = lambda t: subst(pre(t), {it: flow.mk('bound', 0, 0)})
            cases.append(mk('case', mk('conds', *[mk('lit', sub(c), v) for c, v in ls]), FALSE if again else TRUE))
        return mk('call', 'any', None, cargs(inner)[0], mk('lam', *cases))

    def agree(self, q, p, nx):
        """the round belongs to this path: same conditions before the loop"""
        d = {}
        for c, v in p.clog:
            d[c] = v
        for c, v in q.clog:
            if c.op == 'disc' and c.a[0] is nx:
                return True
            if c in d and d[c] != v:
                return False
        return True


BOOLS = ('not', 'bin', 'bool')


def atoms(t, out):
    if t.op == 'bool':
        return
    if t.op == 'not':
        return atoms(t.a[0], out)
    if t.op == 'bin' and t.a[0] in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne') and all(x in out or x.op in BOOLS or x.op == 'q' or x in (IN, C) or t.a[0].startswith('Bit') for x in t.a[1:]):
        atoms(t.a[1], out)
        atoms(t.a[2], out)
        return
    if t not in out:
        out.append(t)


def evaluate(t, env):
    if t in env:
        return env[t]
    if t.op == 'bool':
        return t.a[0]
    if t.op == 'not':
        return not evaluate(t.a[0], env)
    x, y = evaluate(t.a[1], env), evaluate(t.a[2], env)
    o = t.a[0]
    return x and y if o == 'BitAnd' else x or y if o == 'BitOr' else x == y if o == 'Eq' else x != y


def disjoint(M, ls):
    """the literals show that no offset of the node is in the range self.0"""
    rng = mk('fld', M.me, '0')
    kind = {}
    for c, v in ls:
        if c.op == 'disc' and c.a[0].op == 'call' and cargs(c.a[0]) and cargs(c.a[0])[0] is rng and isinstance(v, str):
            kind[c.a[0].a[0].split('::')[-1]] = v
    lo = M.offset
    top = mk('bin', 'Add', M.offset, M.count())

    def bound(t):
        if t.op == 'fld' and t.a[1] in ('Included.0', 'Excluded.0') and t.a[0].op == 'call' and cargs(t.a[0]) and cargs(t.a[0])[0] is rng:
            return t.a[0].a[0].split('::')[-1], t.a[1][:8]
        return None

    def const(a, b):
        d = diff(a, b)
        return d.get(None, 0) if not [k for k in d if k is not None] else None
    for c, v in ls:
        if c.op != 'bin' or c.a[0] not in ('Lt', 'Le', 'Gt', 'Ge') or not isinstance(v, bool):
            continue
        o, a, b = c.a
        if o in ('Gt', 'Ge'):
            o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
        if not v:
            o, a, b = {'Lt': 'Le', 'Le': 'Lt'}[o], b, a
        # a < b or a <= b
        ka, kb = bound(a), bound(b)
        if ka and ka[0] == 'end_bound' and kind.get('end_bound') == ka[1] and not kb:
            k = const(b, lo)      # end <(=) lo + k
            if k is not None:
                last = k - 1 if o == 'Lt' else k          # end <= lo + last
                if last <= (-1 if ka[1] == 'Included' else 0):
                    return True
        if kb and kb[0] == 'start_bound' and kind.get('start_bound') == kb[1] and not ka:
            k = const(a, top)     # start >(=) top + k
            if k is not None:
                first = k + 1 if o == 'Lt' else k         # start >= top + first
                if first >= (0 if kb[1] == 'Included' else -1):
                    return True
    return False


def kind_of(f):
    h = f.impl or ''
    for k in ('AllQuery', 'EmptyQuery', 'AndQuery', 'OrQuery', 'OffsetRangeQuery'):
        if '<%s' % k in f.key.replace(' ', '') or '::<%s as' % k in f.key or '<%s as' % k in f.key:
            return k
    if '<Arc as' in f.key:
        return 'Arc'
    return None


def check_query_impl(ck, f, kind):
    rule = {'AllQuery': 'all', 'EmptyQuery': 'empty', 'AndQuery': 'and', 'OrQuery': 'or', 'OffsetRangeQuery': 'range', 'Arc': 'delegate'}.get(kind, 'clears')
    paths = ck.run(f)
    M = Mask(ck, f, paths)
    q0, q1, qs = mk('q', mk('fld', M.me, '0')), mk('q', mk('fld', M.me, '1')), mk('q', M.me)

    def ob(ok, msg):
        return ck.ob('%s.%s' % (rule, f.method), ok, f.key, '%s %s' % (short(f), msg), f.where)
    for p in paths:
        if p.outcome != 'return':
            continue
        try:
            ls0, cases = M.outcome(p)
        except Undecided as e:
            if kind is None:
                continue
            ob(False, str(e))
            continue
        for ls, val in cases:
            names = [IN, q0, q1, qs, C]
            val = M.b(val)
            bl = []
            for c, v in ls + ls0:
                if isinstance(v, bool):
                    bl.append((M.b(M.norm(c)), v))
                    atoms(bl[-1][0], names)
            atoms(val, names)
            names = [n for n in names if n in (IN, C) or contains(val, n) or any(contains(c, n) for c, _ in bl) or n in (q0, q1, qs)]
            if len(names) > 14:
                ob(False, 'is decided by too many conditions')
                continue
            bad = None
            for vs in itertools.product((False, True), repeat=len(names)):
                env = dict(zip(names, vs))
                if any(evaluate(c, env) != v for c, v in bl):
                    continue
                got = evaluate(val, env)
                i = env[IN]
                if kind == 'AllQuery':
                    want = (i, i)
                elif kind == 'EmptyQuery':
                    want = (False, False)
                elif kind == 'AndQuery':
                    w = i and env[q0] and env[q1]
                    want = (w, w)
                elif kind == 'OrQuery':
                    w = i and (env[q0] or env[q1])
                    want = (w, w)
                elif kind == 'Arc':
                    w = i and env[qs]
                    want = (w, w)
                elif kind == 'OffsetRangeQuery':
                    d = disjoint(M, [x for x in ls0] + [(n, env[n]) for n in names] + [x for x in ls])
                    if f.method == 'containing':
                        if d and env[C]:
                            continue
                        w = i and env[C]
                        want = (w, w)
                    else:
                        want = (False if d else i, i)
                else:
                    want = (False, i)
                if not (want[0] <= got <= want[1]):
                    bad = (want, got)
                    break
            what = {'AllQuery': 'changes the mask of a query that matches everything', 'EmptyQuery': 'leaves bits set in a query that matches nothing',
                    'AndQuery': 'is not the conjunction of its two queries on the given mask', 'OrQuery': 'is not the disjunction of its two queries on the given mask',
                    'Arc': 'does not do what the query behind the Arc does', None: 'sets bits that were not set',
                    'OffsetRangeQuery': 'does not keep exactly the bits of offsets in its range' if f.method == 'containing' else 'clears bits of a node that overlaps its range, or sets bits'}[kind]
            ob(bad is None, '%s: %s' % (what, show(val)[:100]))


def P17(ck):
    """The queries of the library, as functions from a mask to a mask. For every Query implementation the mask it leaves is
    written as a boolean function of the given bit, of the verdicts of its sub-queries and of range membership at the same
    position (loops and closures must reach every position; other mask copies must be of the mask as it was given), and this
    function is compared with the definition over all truth values: AllQuery leaves the bit, EmptyQuery clears it, AndQuery is
    the conjunction, OrQuery the disjunction on the given mask, an Arc asks the query behind it with the same offset and index;
    OffsetRangeQuery keeps at the leaf level exactly the set bits of offsets in the range, and at the branch level clears only
    where comparisons on the path show that the range ends before the first or starts after the last offset of the node."""
    for f in all_fns(ck.prog):
        if f.trait != 'Query' or f.method not in ('containing', 'intersecting') or '{closure' in f.key or f.crate != 'banyan':
            continue
        check_query_impl(ck, f, kind_of(f))
    for k in ('all', 'empty', 'and', 'or', 'range', 'delegate'):
        for m in ('containing', 'intersecting'):
            ck.floor('%s.%s' % (k, m), 1)


# ---- tag queries ----------------------------------------------------------------
class Tags:
    """one term of a tag query against one element: comparisons and set relations as named atoms"""
    def __init__(self, M, term):
        self.M, self.q = M, term
        seqf = 'keys' if M.f.method == 'containing' else 'summaries'
        self.seq = mk('fld', M.index, seqf)

    def time_of(self, t):
        """('q'|'e', 'min_time'|'max_time')"""
        if t.op != 'elt' and t.op != 'fld':
            return None
        if t.op == 'elt' and t.a[0].op == 'fld' and t.a[0].a[0] is self.seq and t.a[0].a[1] in ('min_time', 'max_time'):
            return 'e', t.a[0].a[1]
        if t.op == 'fld' and t.a[1] in ('min_time', 'max_time') and t.a[0].op == 'fld' and t.a[0].a[1] == 'time':
            b = t.a[0].a[0]
            if b is self.q:
                return 'q', t.a[1]
            if self.is_elem(b):
                return 'e', t.a[1]
        return None

    def is_elem(self, t):
        return t.op == 'call' and t.a[0].split('::')[-1] == 'get' and cargs(t)[0] is self.seq and cargs(t)[1] is POS

    def set_of(self, t):
        """'Q': the tags of the term (as far as an element can have them), 'E': those of the element"""
        idx = mk('fld', self.seq, 'tags')
        table, elements = mk('fld', idx, 'tags'), mk('fld', idx, 'elements')
        qt = mk('fld', self.q, 'tags')
        if t is qt:
            return 'Qtags'
        if t is at(elements):
            return 'E'
        if t.op == 'fld' and t.a[1] == 'tags' and self.is_elem(t.a[0]):
            return 'Etags'
        while is_named(t, 'collect', 'iter', 'into_iter') and len(cargs(t)) == 1 or t.op in ('iter', 'collect'):
            t = t.a[0] if t.op in ('iter', 'collect') else cargs(t)[0]
        # tags translated to their indexes in the table, one by one
        steps = []
        while t.op in ('map', 'filter_map', 'flat_map'):
            steps.append((t.op, t.a[1]))
            t = t.a[0]
        if t.op == 'iter':
            t = t.a[0]
        item = mk('sym', 'TAG')
        if t is at(elements) and len(steps) == 1 and steps[0][0] == 'map':
            r = lam1(steps[0][1], item)
            if r and all(b.op == 'elemat' and b.a[0] is table and uncast(b.a[1]) is item or b is at(table) for cs, b in r):
                return 'Etags'
            return None
        if t is not qt or not steps:
            return None
        state = [([], item)]
        for op, l in reversed(steps):
            new = []
            for cs, v in state:
                r = lam1(l, v)
                if r is None:
                    return None
                for c2, b in r:
                    if op in ('filter_map', 'flat_map'):
                        if b is flow.NONE or b.op == 'agg' and b.a[0] == 'Option::None':
                            new.append((cs + c2, None))
                            continue
                        b = agg_get(b, '0') if b.op == 'agg' and b.a[0] == 'Option::Some' else mk('fld', b, 'Some.0')
                    new.append((cs + c2, b))
            state = [s for s in new if s[1] is not None] if True else new
            drops = [s for s in new if s[1] is None]
            for cs, _ in drops:
                if not any(c.op == 'disc' and is_named(c.a[0], 'binary_search', 'get_index', 'index_of') and v == 'Err' for c, v in cs):
                    return None
        for cs, v in state:
            while v.op == 'cast' and any(x in ('u32', 'u64', 'usize') for x in v.a):
                v = v.a[-1] if isinstance(v.a[-1], T) else v.a[0]
            if v.op != 'fld' or v.a[1] not in ('Ok.0', 'Some.0'):
                return None
            v = v.a[0]
            if is_named(v, 'ok') and v.op == 'call':
                v = cargs(v)[0]
            if not is_named(v, 'binary_search') or cargs(v)[0] is not table or cargs(v)[1] is not item:
                return None
            if any(not (c.op == 'disc' and c.a[0] is v and w == 'Ok') for c, w in cs):
                return None
        return 'Q'

    def atom(self, t):
        """boolean term -> (name of an atom, polarity)"""
        if t.op == 'bin' and t.a[0] in ('Lt', 'Le', 'Gt', 'Ge'):
            o, a, b = t.a
            if o in ('Gt', 'Ge'):
                o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
            pol = True
            if o == 'Le':
                a, b, pol = b, a, False
            x, y = self.time_of(a), self.time_of(b)
            if x and y and x[0] != y[0]:
                return 'lt %s.%s %s.%s' % (x + y), pol
        if t.op == 'call':
            n = t.a[0].split('::')[-1]
            ss = [self.set_of(x) for x in cargs(t)]
            kinds = {s[:1] for s in ss if s}
            if all(ss) and len({s[1:] for s in ss}) == 1:
                k = [s[:1] for s in ss]
                if n == 'is_empty' and k == ['E']:
                    return 'empty', True
                if n == 'is_superset' and k == ['Q', 'E'] or n == 'is_subset' and k == ['E', 'Q']:
                    return 'within', True
                if n == 'is_disjoint' and kinds == {'Q', 'E'}:
                    return 'disjoint', True
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and is_named(t.a[1], 'len') and t.a[2] is flow.INT(0) and self.set_of(cargs(t.a[1])[0]) in ('E', 'Etags'):
            return 'empty', t.a[0] == 'Eq'
        return None

    def boolean(self, t):
        if t.op == 'bool':
            return t
        if t.op == 'not':
            return mk('not', self.boolean(t.a[0]))
        if t.op == 'bin' and t.a[0] in ('BitAnd', 'BitOr', 'BitXor'):
            return mk('bin', t.a[0], self.boolean(t.a[1]), self.boolean(t.a[2]))
        a = self.atom(t)
        if a is None:
            raise Undecided('decides with %s' % show(t)[:100])
        s = mk('sym', a[0])
        return s if a[1] else mk('not', s)


LEAF = ('lt e.min_time q.min_time', 'lt q.max_time e.max_time', 'empty', 'within', 'disjoint')
BRANCH = ('lt q.max_time e.min_time', 'lt e.max_time q.min_time', 'empty', 'within', 'disjoint')


def present(c, v):
    """the element at POS exists"""
    if c.op == 'bin' and c.a[0] == 'Lt' and value(c.a[1]) is POS and is_named(c.a[2], 'len'):
        return v is True
    return c.op == 'disc' and is_named(c.a[0], 'get') and cargs(c.a[0])[-1] is POS and v == 'Some'


def deny(t):
    """all(c) as not any(not c)"""
    m = {x: mk('not', mk('call', 'notall', None, *cargs(x))) for x in find_terms(t, lambda x: is_named(x, 'all'))}
    return subst(t, m)


def check_tags(ck, f):
    paths = ck.run(f)
    M = Mask(ck, f, paths)
    level = 'leaf' if f.method == 'containing' else 'branch'
    M.seq = mk('fld', M.index, 'keys' if level == 'leaf' else 'summaries')

    def ob(rule, ok, msg):
        return ck.ob('tags.%s.%s' % (level, rule), ok, f.key, '%s %s' % (short(f), msg), f.where)
    decided = 0
    for p in paths:
        if p.outcome != 'return':
            continue
        try:
            ls0, cases = M.outcome(p)
            ob('mask', not [1 for c, v in ls0 if isinstance(v, (bool, str))], 'depends on %s' % '; '.join(show(c)[:80] for c, v in ls0))
            anys = set()
            for ls, val in cases:
                names = [IN]
                bl = []
                for c, v in ls:
                    if present(c, v):
                        continue
                    if isinstance(v, bool):
                        bl.append((deny(M.b(c)), v))
                        atoms(bl[-1][0], names)
                    else:
                        raise Undecided('decides with %s' % show(c)[:80])
                val = deny(M.b(val))
                atoms(val, names)
                anys |= {n for n in names if n is not IN}
                a = [n for n in names if n is not IN]
                if len(a) > 1 or a and not is_named(a[0], 'any', 'notall'):
                    raise Undecided('decides with %s' % '; '.join(show(x)[:80] for x in a))
                for vs in itertools.product((False, True), repeat=len(names)):
                    env = dict(zip(names, vs))
                    if any(evaluate(c, env) != v for c, v in bl):
                        continue
                    got = evaluate(val, env)
                    if a:
                        ok = got == (env[IN] and env[a[0]])
                    else:
                        ok = not got and not env[IN]
                    ob('mask', ok, 'does not leave the bits that were set and for which a term matches: %s' % show(val)[:80])
            if not ob('any', len(anys) == 1, 'does not decide with one disjunction over its terms'):
                continue
            a = anys.pop()
            src, lam_ = cargs(a)
            r = rows(src, p, paths)
            terms = mk('fld', M.me, '0')
            if not ob('every-term', r is not None and r.kind == 'all' and r.ends == {mk('call', 'len', None, terms)}, 'does not look at every term: %s' % show(src)[:100]):
                continue
            Tg = Tags(M, at(terms))
            rs = lam1(lam_, r.el)
            if rs is None:
                raise Undecided('decides a term with %s' % show(lam_)[:80])
            want_atoms = LEAF if level == 'leaf' else BRANCH
            rows_ = []
            neg = is_named(a, 'notall')
            for cs, b in rs:
                cs = [(M.b(c), v) for c, v in cs]
                cs = [(c, v) for c, v in cs if not present(c, v)]
                if mentions(b, lambda x: x.op == 'const' and x.a[0] == 'panic'):
                    continue
                b = Tg.boolean(M.b(b))
                rows_.append(([(Tg.boolean(c), v) for c, v in cs], mk('not', b) if neg else b))
            names = [mk('sym', n) for n in want_atoms]
            extra = []
            for cs, b in rows_:
                for c, v in cs:
                    atoms(c, extra)
                atoms(b, extra)
            names += [x for x in extra if x not in names]
            bad = None
            for vs in itertools.product((False, True), repeat=len(names)):
                env = dict(zip(names, vs))
                e = {n.a[0]: v for n, v in env.items()}
                if e['empty'] and not (e['within'] and e['disjoint']) or e['within'] and not e['empty'] and e['disjoint']:
                    continue
                hit = {evaluate(b, env) for cs, b in rows_ if all(evaluate(c, env) == v for c, v in cs)}
                if len(hit) != 1:
                    bad = ('undecided', e)
                    break
                got = hit.pop()
                if level == 'leaf':
                    want = not e[LEAF[0]] and not e[LEAF[1]] and e['within'] and not e['empty']
                    if len(names) > len(LEAF) or got != want:
                        bad = ('matches' if got else 'misses', e)
                        break
                else:
                    need = not e[BRANCH[0]] and not e[BRANCH[1]] and not e['disjoint']
                    if need and not got:
                        bad = ('skips', e)
                        break
            decided += 1
            ob('term', bad is None, '%s with %s' % (bad[0], ', '.join('%s=%s' % (k, v) for k, v in bad[1].items())) if bad else '')
        except Undecided as e:
            ob('term', False, str(e))
    return decided


def P28(ck):
    """Tag queries: for every implementation of Query in banyan-utils, the bit left at a position is the given bit and the
    disjunction of one condition over every term of the query (none dropped, none depending on another). At the leaf level the
    condition of a term, over all truth values of its comparisons and set relations, is: the time range of the term contains
    that of the element, and the element has tags and only tags of the term (tags may be translated to their index in the
    table of the leaf one by one, tags that are not in it ignored). At the branch level the condition holds whenever the time
    ranges of term and summary overlap and they share a tag, which covers every element below that can match."""
    for f in all_fns(ck.prog):
        if f.trait != 'Query' or f.method not in ('containing', 'intersecting') or '{closure' in f.key or f.crate != 'banyan_utils':
            continue
        check_tags(ck, f)
    for l in ('leaf', 'branch'):
        for r in ('mask', 'any', 'every-term', 'term'):
            ck.floor('tags.%s.%s' % (l, r), 1)
