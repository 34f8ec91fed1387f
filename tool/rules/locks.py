"""P32: lock discipline."""
import re
from common import *
from write import short, param
import flow
import mir

GUARD = re.compile(r"\b(MutexGuard|MappedMutexGuard|RwLockReadGuard|RwLockWriteGuard|RwLockUpgradableReadGuard|ReentrantMutexGuard|RefMut|Ref)<")
TAKE = ('lock', 'read', 'write', 'upgradable_read', 'try_lock', 'try_read', 'try_write', 'try_lock_for', 'lock_arc', 'borrow', 'borrow_mut', 'try_borrow', 'try_borrow_mut')
# code of the user of the library (or of another layer of it) that may come back to the same lock
FOREIGN = ('ReadOnlyStore::get', 'BlockWriter::put')
CALLF = ('call', 'call_mut', 'call_once')


def is_guard(ty):
    ty = ty.strip()
    return bool(GUARD.search(ty)) and not ty.startswith(('&', '*', '[closure'))


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self.fns = [f for f in all_fns(prog) if f.crate in ('banyan', 'banyan_utils')]
        self.engine = flow.Engine(prog, INDEX_ACC)
        self.byclosure = {}
        for f in self.fns:
            if f.is_closure and f.args:
                m = re.search(r'closure@[^\]}]*', f.locals[f.args[0]])
                if m:
                    self.byclosure[m.group(0)] = f
        self.info = {f.key: self.scan(f) for f in self.fns}
        self.takes_, self.foreign_ = {}, {}

    def scan(self, f):
        """the calls of a body: (block, callee, resolved function | None, closures handed over, takes a lock, destination)"""
        class FR:
            pass
        fr = FR()
        fr.fn = f
        out = []
        for b, (stm, term) in f.blocks.items():
            if term[0] != 'call':
                continue
            try:
                c = flow.parse_callee(term[2])
            except Exception:
                c = None
            g = None
            if c is not None:
                try:
                    g = self.engine.resolve(c, fr)
                except Exception:
                    g = None
            cls = []
            for t in [term[2]] + [f.locals.get(a[1][1], '') for a in term[3] if a[0] == 'use' and a[1][0] == 'place']:
                for m in re.finditer(r'closure@[^\]}]*', t):
                    h = self.byclosure.get(m.group(0))
                    if h is not None and h not in cls:
                        cls.append(h)
            d = term[1]
            take = c is not None and c.method in TAKE and is_guard(f.locals.get(d[1], ''))
            out.append((b, c, g, cls, take, term))
        return out

    def reach(self, f, hit, memo, seen=()):
        """a call of kind `hit` that running f may lead to: list of steps, or None"""
        if f.key in memo:
            return memo[f.key]
        if f.key in seen:
            return None
        for b, c, g, cls, take, term in self.info.get(f.key, ()):
            if hit(f, c, g, take):
                memo[f.key] = [short(f), c.method if c is not None else '?']
                return memo[f.key]
            for h in ([g] if g is not None and g.key in self.info else []) + cls:
                r = self.reach(h, hit, memo, seen + (f.key,))
                if r is not None:
                    memo[f.key] = [short(f)] + r
                    return memo[f.key]
        if not seen:
            memo[f.key] = None
        return None

    def takes(self, f):
        return self.reach(f, lambda f, c, g, take: take, self.takes_)

    def foreign(self, f):
        return self.reach(f, lambda f, c, g, take: is_foreign(c, g), self.foreign_)

    def held(self, f):
        """block -> guards that may be held when its terminator runs"""
        gl = {l for l, t in f.locals.items() if is_guard(t)}
        if not gl:
            return {}
        # options of guards and the like carry the lock as well
        inn = {b: None for b in f.blocks}
        start = min(f.blocks)
        inn[start] = frozenset()
        work = [start]
        at = {}
        while work:
            b = work.pop()
            cur = set(inn[b])
            stm, term = f.blocks[b]
            for s in stm:
                if s[0] == 'assign':
                    src = moved(s[2])
                    for l in src & gl:
                        cur.discard(l)
                    d = s[1][1]
                    if d in gl and (src & gl or not s[1][2]) and holds(s[2]):
                        cur.add(d)
            at[b] = at.get(b, frozenset()) | frozenset(cur)
            nxt = []
            k = term[0]
            if k == 'goto':
                nxt = [term[1]]
            elif k == 'switch':
                nxt = [x[1] for x in term[2]] + ([term[3]] if term[3] is not None else [])
            elif k == 'drop':
                if not term[1][2]:
                    cur.discard(term[1][1])
                nxt = [term[2]]
            elif k == 'call':
                for a in term[3]:
                    if a[0] == 'use' and a[1][0] == 'place' and not a[1][2]:
                        cur.discard(a[1][1])
                if term[1][1] in gl:
                    cur.add(term[1][1])
                nxt = [term[4]] if term[4] is not None else []
            elif k == 'assert':
                nxt = [term[4]]
            for n in nxt:
                if n in inn and (inn[n] is None or not cur <= inn[n]):
                    inn[n] = frozenset(cur) | (inn[n] or frozenset())
                    work.append(n)
        return at


def holds(rv):
    return True


def moved(rv):
    """locals used by value in an rvalue"""
    out = set()

    def go(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'use' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'place' and not x[1][2]:
                out.add(x[1][1])
            for y in x:
                go(y)
    if rv and rv[0] not in ('ref', 'addr', 'len', 'disc'):
        go(rv)
    return out


def is_foreign(c, g):
    if c is None or g is not None:
        return False
    if any(cname(c.canon, x) for x in FOREIGN):
        return True
    # a closure that was handed in
    return c.method in CALLF and c.trait in ('Fn', 'FnMut', 'FnOnce') and re.match(r"^&?(mut )?[A-Z]\w*$|^impl ", (c.selfty or '').strip()) is not None


def generic_call(c):
    return c is not None and c.method in CALLF and c.trait in ('Fn', 'FnMut', 'FnOnce')


def P32(ck):
    """Locks. For every function that takes a lock or mutably borrows a cell, the region in which the guard may be held (forward dataflow
    over the control flow, ended by drop or move into a call) is computed; in it no other lock or borrow is taken, no function is called
    that may take one (over the call graph, closures included), and no store, writer or closure of the caller is called. A closure that
    is run under a borrow by its callee must not lead to such a borrow itself at any place where one is handed in."""
    L = Locks(ck.prog)
    regions = 0
    under = []          # functions that call a closure of their caller under a lock
    for f in L.fns:
        at = L.held(f)
        if not any(at.values()):
            continue
        regions += 1
        ck.functions.add(f.key)
        ck.npaths += len(f.blocks)
        for b, c, g, cls, take, term in L.info[f.key]:
            h = at.get(b)
            if not h:
                continue
            args = {a[1][1] for a in term[3] if a[0] == 'use' and a[1][0] == 'place' and not a[1][2]}
            if c is not None and c.method == 'drop' and h <= args:
                continue
            name = c.canon if c is not None else term[2][:60]
            w = '%s:%s' % term[-1] if isinstance(term[-1], tuple) else f.where
            ck.ob('lock.nested', not take, f.key, '%s takes another lock (%s) while it holds one' % (short(f), name), w)
            for t in ([g] if g is not None and g.key in L.info else []) + cls:
                r = L.takes(t)
                ck.ob('lock.nested.call', r is None, f.key, '%s calls %s while it holds a lock, which may take one: %s' % (short(f), short(t), ' > '.join(r or [])), w)
                r = L.foreign(t)
                if r is not None and r[-1] in CALLF:
                    under.append((f, t))
                else:
                    ck.ob('lock.foreign.call', r is None, f.key, '%s calls %s while it holds a lock, which leads to a store: %s' % (short(f), short(t), ' > '.join(r or [])), w)
            if is_foreign(c, g) and generic_call(c):
                under.append((f, f))
            else:
                ck.ob('lock.foreign', not is_foreign(c, g), f.key, '%s calls %s while it holds a lock' % (short(f), name), w)
    ck.ob('lock.regions', regions >= 5, 'count', 'only %d functions that hold locks recognised' % regions)
    # closures that run under the lock of a callee
    for f, t in under:
        owners = {short_owner(f.key)}
        done = set()
        handed = 0
        while owners:
            o = owners.pop()
            if o in done:
                continue
            done.add(o)
            for h in L.fns:
                for b, c, g, cls, take, term in L.info[h.key]:
                    if g is None or short_owner(g.key) != o or short_owner(h.key) == o:
                        continue
                    passed = [x for x in cls if any('closure@' in a for a in [h.locals.get(q[1][1], '') for q in term[3] if q[0] == 'use' and q[1][0] == 'place'])]
                    if not passed:
                        owners.add(short_owner(h.key))       # hands its own closure on
                    for x in passed:
                        handed += 1
                        r = L.takes(x)
                        ck.ob('lock.closure', r is None, h.key, 'the closure %s is run under the lock of %s and may take a lock itself: %s' % (short(x), short(f), ' > '.join(r or [])), x.where)
                        r = L.foreign(x)
                        ck.ob('lock.closure.foreign', r is None or r[-1] in CALLF, h.key, 'the closure %s is run under the lock of %s and leads to a store: %s' % (short(x), short(f), ' > '.join(r or [])), x.where)
        ck.ob('lock.closure.sites', handed > 0, f.key, 'no closure found that is run under the lock of %s' % short(f), f.where)


def short_owner(k):
    while '::{' in k:
        k = k[:k.rindex('::{')]
    return k
