"""Shared plumbing of the rules: analysed-program handle, obligations, violations, term queries."""
import re
import flow
import mir
from flow import T, mk, show, subterms, contains, mentions, agg_get, Incomplete

# uninterpreted accessors: keep observations of tree metadata as one canonical term
INDEX_ACC = ['index::Index::' + x for x in ('summarize', 'link', 'count', 'sealed', 'level', 'value_bytes', 'key_bytes')]


class MissingAnchor(Exception):
    pass


class Check:
    """collects obligations and violations of one property"""

    def __init__(self, prog, pid, tier='quick'):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.violations = []   # (key, message, where)
        self.obligations = 0
        self.discharged = 0
        self.rules = {}        # rule -> [count, failed]
        self.functions = set()
        self.npaths = 0
        self.notes = []
        self.samples = []
        self._runs = {}

    # ---- running the engine
    def run(self, fn, opaque=(), maxpaths=12000, maxtime=120, inline=True, args=None):
        ops = tuple(sorted(set(list(INDEX_ACC) + [o if isinstance(o, str) else o.key for o in opaque])))
        k = (fn.key, ops, inline)
        if args is None and k in self._runs:
            return self._runs[k]
        e = flow.Engine(self.prog, ops, maxpaths=maxpaths, maxtime=maxtime, inline=inline)
        ps = e.run(fn, args=args)
        self.functions |= e.inlined
        self.functions.add(fn.key)
        self.npaths += len(ps)
        if args is None:
            self._runs[k] = ps
        return ps

    # ---- anchors
    def find(self, *specs, required=True):
        out = []
        for s in specs:
            for f in self.prog.find(s):
                if f not in out:
                    out.append(f)
        if not out and required:
            self.violate('anchor', '|'.join(specs), 'no function %s in the analysed program' % ' or '.join(specs), None)
            raise MissingAnchor(specs)
        return out

    def one(self, *specs):
        return self.find(*specs)[0]

    # ---- obligations
    def ob(self, rule, ok, key=None, msg='', where=None):
        """record one obligation of `rule`; a failed one is a violation keyed by construct (no line numbers)"""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            r[1] += 1
            self.violate(rule, key or '?', msg, where)
        return ok

    def floor(self, rule, n):
        have = self.rules.get(rule, [0, 0])[0]
        if have < (n + 1) // 2:
            self.violate(rule, 'floor', 'rule %s matched %d instances, expected at least %d: the construct it decides is gone or no longer recognised' % (rule, have, (n + 1) // 2), None)

    def violate(self, rule, key, msg, where):
        k = '%s:%s' % (rule, key)
        if not any(v[0] == k and v[1] == msg for v in self.violations):
            self.violations.append((k, msg, where))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


# --------------------------------------------------------------------------
# term helpers
# --------------------------------------------------------------------------
def where(ev):
    return ev.where if ev is not None else None


def is_call(t, *suffix):
    return isinstance(t, T) and t.op == 'call' and any(cname(t.a[0], s) for s in suffix)


def is_mut(t, *suffix):
    return isinstance(t, T) and t.op == 'mut' and any(cname(t.a[0], s) for s in suffix)


def cname(name, suffix):
    return name == suffix or name.endswith('::' + suffix) or name.replace('rec:', '') == suffix


def cargs(t):
    """arguments of a call term"""
    return t.a[2:]


def ev_calls(p, *suffix):
    return [e for e in p.events if e.kind == 'call' and any(cname(e.name, s) for s in suffix)]


def find_terms(t, pred):
    return [x for x in subterms(t) if pred(x)]


def origin(t):
    """the object a value started as: peel in-place modifications, loop phis and single-field updates"""
    while True:
        if t.op == 'phi':
            t = t.a[2]
        elif t.op == 'mut':
            t = t.a[3]
        elif t.op in ('upd', 'at'):
            t = t.a[0]
        else:
            return t


def unphi(t):
    while t.op == 'phi':
        t = t.a[2]
    return t


_STRIP = {}


def strip_phi(t):
    """remove every phi wrapper inside a term"""
    r = _STRIP.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _STRIP:
            st.pop()
            continue
        ch = [c for c in x.a if isinstance(c, T) and c.id not in _STRIP]
        if ch:
            st.extend(ch)
            continue
        st.pop()
        if x.op == 'phi':
            _STRIP[x.id] = _STRIP[x.a[2].id]
        else:
            na = [(_STRIP[c.id] if isinstance(c, T) else c) for c in x.a]
            _STRIP[x.id] = x if all(n is c for n, c in zip(na, x.a)) else flow.rebuild(x, na)
    return _STRIP[t.id]


def addends(t):
    """operands of an addition in any of its spellings"""
    if t.op == 'bin' and t.a[0] in ('Add', 'AddUnchecked'):
        return addends(t.a[1]) + addends(t.a[2])
    if t.op == 'fld' and t.a[1] in ('Some.0', '0') and t.a[0].op == 'call' and t.a[0].a[0].endswith('checked_add'):
        c = cargs(t.a[0])
        return addends(c[0]) + addends(c[1])
    if t.op == 'call' and t.a[0].split('::')[-1] in ('checked_add',):
        c = cargs(t)
        return addends(c[0]) + addends(c[1])
    return [t]


def cond(p, pred):
    """outcome of the branch conditions satisfying pred, in order: [(term, value)]"""
    return [(c, v) for c, v in p.clog if pred(c)]


def succeeded(p):
    """does a path of a fallible function return Ok (or a non-Result value)?"""
    return p.outcome == 'return' and not is_err(p.ret)


def is_err(t):
    return t is not None and t.op == 'agg' and t.a[0] == 'Result::Err'


def is_ok(t):
    return t is not None and t.op == 'agg' and t.a[0] == 'Result::Ok'


def field_of_type(prog, struct, ty):
    """name of the field of `struct` whose declared type starts with ty"""
    for (n, t) in struct_fields(prog, struct):
        if mir.type_head(t) == ty or t.startswith(ty):
            return n
    return None


def struct_fields(prog, struct):
    s = prog.structs.get(struct)
    return s or []


def callers(prog, pred):
    """functions whose body directly contains a call satisfying pred(Callee)"""
    out = []
    for f in all_fns(prog):
        for b, (stm, term) in f.blocks.items():
            if term[0] == 'call':
                t = term[2]
                try:
                    c = flow.parse_callee(t)
                except Exception:
                    continue
                if pred(c):
                    out.append((f, c, term))
    return out


def all_fns(prog):
    seen = set()
    for d in (prog.by_method, prog.by_free, prog.by_closure):
        for v in d.values():
            for f in (v if isinstance(v, list) else [v]):
                if id(f) not in seen:
                    seen.add(id(f))
                    yield f


def constructors(prog, struct):
    """functions whose body builds a value of `struct` field by field"""
    out = []
    for f in all_fns(prog):
        hit = False
        for b, (stm, term) in f.blocks.items():
            for s in stm:
                if s[0] == 'assign' and s[2][0] == 'agg' and mir.type_head(s[2][1]) == struct:
                    hit = True
        if hit:
            out.append(f)
    return out
