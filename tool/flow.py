"""Path-sensitive value-provenance dataflow over MIR.

The engine enumerates the control-flow paths of a function after inlining its crate-local
callees, keeps for every place the term that describes where its value comes from, and
records the calls/writes/drops made on the way.  Loop bodies are entered once, with every
place the loop may change replaced by a phi term (fixpoint over the modified places), so the
set of paths is finite and covers every execution.  No solver is involved: the only pruning
is by literal consistency of branch outcomes on the same term."""
import re
import sys
import time

import mir
from mir import type_head, strip_generics, scan_top, deref_ty, split_top

sys.setrecursionlimit(20000)


class Incomplete(Exception):
    pass


# --------------------------------------------------------------------------
# terms (hash-consed)
# --------------------------------------------------------------------------
class T:
    __slots__ = ('op', 'a', 'id', '_d')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_INTERN = {}
_BYID = []


def mk(op, *a):
    k = (op, a)
    t = _INTERN.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_INTERN)
        t._d = None
        _BYID.append(t)
        _INTERN[k] = t
    return t


def INT(n):
    return mk('int', n)


def BOOL(b):
    return mk('bool', bool(b))


TRUE = BOOL(True)
FALSE = BOOL(False)
UNIT = mk('agg', '()')


def index_term(p):
    """the term that selects an element, from the path component '[id]' / '[rid]'"""
    p = str(p)
    if p.startswith('[r') and p[2:-1].isdigit():
        return _BYID[int(p[2:-1])]
    if p.startswith('[') and p[1:-1].isdigit():
        return _BYID[int(p[1:-1])]
    return None


def agg(name, fields):
    return mk('agg', name, *[mk('f', n, v) for n, v in fields])


def agg_get(t, name):
    for f in t.a[1:]:
        if f.a[0] == name:
            return f.a[1]
    return None


def Some(x):
    return agg('Option::Some', [('0', x)])


NONE = agg('Option::None', [])


def Ok(x):
    return agg('Result::Ok', [('0', x)])


def Err(x):
    return agg('Result::Err', [('0', x)])


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return '…'
    o, a = t.op, t.a
    d = depth + 1
    if o == 'int' or o == 'bool' or o == 'const' or o == 'sym':
        return str(a[0])
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[2:]))
    if o == 'mut':
        return '%s!%s(%s)' % (a[0], a[2], ', '.join(show(x, d) for x in a[3:]))
    if o == 'fld':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'agg':
        return '%s{%s}' % (a[0], ', '.join('%s:%s' % (f.a[0], show(f.a[1], d)) for f in a[1:]))
    if o == 'upd':
        return '%s[%s:=%s]' % (show(a[0], d), a[1], show(a[2], d))
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if o == 'not':
        return '!' + show(a[0], d)
    if o == 'at':
        return show(a[0], d)
    if o == 'ref':
        return '&%s' % (showplace(a[0], a[1], d))
    if o == 'phi':
        return 'phi<%s=%s>' % ('.'.join(str(x) for x in a[1]), show(a[2], d))
    if o == 'is':
        return 'is(%s,%s)' % (show(a[0], d), a[1])
    return '%s(%s)' % (o, ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a))


def showplace(root, path, d=0):
    r = '%s' % (root[2] if root[0] == 'L' else show(root[1], d))
    return r + ''.join('.' + str(p) for p in path)


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for c in x.a:
            if isinstance(c, T):
                st.append(c)


# depth at which a summarised closure was built, i.e. the level of its own bound variables
LAM_LEVEL = {}


def rebuild(x, na):
    r = mk(x.op, *na)
    if x.op == 'lam' and x in LAM_LEVEL:
        LAM_LEVEL.setdefault(r, LAM_LEVEL[x])
    return r


_ERASE = {}


def erase(t):
    """drop the `at` markers (contents of an object before the first write)"""
    if not isinstance(t, T):
        return t
    r = _ERASE.get(t.id)
    if r is not None:
        return r
    # iterative post-order
    st = [t]
    while st:
        x = st[-1]
        if x.id in _ERASE:
            st.pop()
            continue
        ch = [c for c in x.a if isinstance(c, T) and c.id not in _ERASE]
        if ch:
            st.extend(ch)
            continue
        st.pop()
        if x.op == 'at':
            _ERASE[x.id] = _ERASE[x.a[0].id]
        else:
            na = [(_ERASE[c.id] if isinstance(c, T) else c) for c in x.a]
            if all(n is c for n, c in zip(na, x.a)):
                _ERASE[x.id] = x
            else:
                _ERASE[x.id] = rebuild(x, na)
    return _ERASE[t.id]


def contains(t, sub):
    for x in subterms(t):
        if x is sub:
            return True
    return False


def mentions(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


# --------------------------------------------------------------------------
# enum tables
# --------------------------------------------------------------------------
EXT_ENUM = {
    'Option': ['None', 'Some'],
    'Result': ['Ok', 'Err'],
    'ControlFlow': ['Continue', 'Break'],
    'Poll': ['Ready', 'Pending'],
    'Bound': ['Included', 'Excluded', 'Unbounded'],
    'Cow': ['Borrowed', 'Owned'],
}
EXT_STRUCT = {
    'Range': ['start', 'end'],
    'RangeFrom': ['start'],
    'RangeTo': ['end'],
}
FLIP = {'None': 'Some', 'Err': 'Ok', 'Break': 'Continue', 'Pending': 'Ready'}

TRANSPARENT_REF = {  # pointer in, same pointer out
    'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
    'Iterator::by_ref', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'Pin::new', 'Pin::new_unchecked',
    'Pin::get_unchecked_mut', 'Pin::as_mut', 'String::as_bytes', 'str::as_bytes', 'Box::as_ref', 'Box::as_mut', 'SmallVec::as_slice',
    'Arc::as_ref', 'IntoIterator::into_iter', 'Pin::get_mut', 'Future::poll_fn',
    'black_box', 'identity', 'identity_future', 'SmallVec::as_mut_slice',
}
TRANSPARENT_VAL = {  # value of the argument (pointers are read through)
    'Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Option::cloned', 'Option::copied', 'Box::new', 'Arc::new',
    'Rc::new', 'Into::into', 'From::from', 'slice::into_vec', 'Vec::into_boxed_slice', 'SmallVec::into_vec',
    'IntoFuture::into_future', 'Iterator::cloned', 'Iterator::copied', 'Cow::into_owned', 'slice::into_vec',
    'Iterator::fuse', 'Arc::clone', 'Vec::clone', 'Mutex::new', 'RefCell::new', 'Box::pin', 'black_box',
    'ToString::to_string_', 'slice::into_vec_', 'convert::identity', 'must_use', 'Result::cloned', 'Vec::from',
    'Box::from', 'Iterator::peekable', 'ManuallyDrop::new', 'Wrapping', 'box_new',
}
ACCESSOR = {  # take &mut but do not change what is pointed to
    'last_mut', 'first_mut', 'get_mut', 'iter_mut', 'peek', 'by_ref', 'as_mut_ptr', 'size_hint', 'lock', 'entered',
    'position', 'enter',
}
ITER_SRC = {'slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'SmallVec::iter', 'VecSet::iter', 'BTreeSet::iter',
            'VecSet::into_iter', 'BTreeMap::iter', 'IntoIterator::into_iter', 'VecDeque::iter', 'BTreeMap::values',
            'BTreeMap::keys', 'HashMap::values', 'HashMap::iter', 'HashMap::keys', 'str::chars', 'Option::iter'}
CONSUMERS = {'sum', 'count', 'max', 'min', 'any', 'all', 'collect', 'position', 'fold', 'find', 'last', 'for_each', 'product',
             'min_by', 'max_by', 'find_map', 'min_by_key', 'max_by_key', 'partition', 'try_fold', 'try_for_each', 'reduce',
             'rposition', 'nth', 'from_iter', 'eq', 'cmp', 'unzip'}
LAZY = {'map': 'map', 'filter': 'filter', 'filter_map': 'filter_map', 'enumerate': 'enumerate', 'rev': 'rev', 'zip': 'zip',
        'take': 'take', 'skip': 'skip', 'take_while': 'take_while', 'skip_while': 'skip_while', 'chain': 'chain',
        'flat_map': 'flat_map', 'flatten': 'flatten', 'scan': 'scan', 'step_by': 'step_by', 'inspect': 'inspect',
        'map_while': 'map_while'}

WIDEN = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


class Ev:
    """an event on a path"""
    __slots__ = ('kind', 'name', 'args', 'res', 'site', 'fn', 'lam', 'extra', 'pos', 'raw', 'old')

    def __init__(self, kind, name, args, res, site, fn, lam=None, extra=None, raw=None, old=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.res = res
        self.site = site
        self.fn = fn
        self.lam = lam
        self.extra = extra
        self.raw = raw
        self.old = old

    def __repr__(self):
        if self.kind == 'call':
            return '%s(%s)%s' % (self.name, ', '.join(show(a) for a in self.args), ' [lam]' if self.lam else '')
        if self.kind == 'write':
            return 'write %s := %s' % (self.name, show(self.args[0]))
        return '%s %s %s' % (self.kind, self.name, ', '.join(show(a) if isinstance(a, T) else str(a) for a in self.args or ()))

    @property
    def where(self):
        s = self.site
        return '%s:%s' % s if s else '?'


class Frame:
    __slots__ = ('fn', 'uid', 'block', 'si', 'dest', 'target', 'loops', 'post', 'ev0')

    def __init__(self, fn, uid, dest, target, post):
        self.fn = fn
        self.uid = uid
        self.block = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.loops = ()
        self.post = post

    def copy(self):
        f = Frame(self.fn, self.uid, self.dest, self.target, self.post)
        f.block = self.block
        f.si = self.si
        f.loops = self.loops
        return f


class State:
    __slots__ = ('store', 'conds', 'clog', 'events', 'frames', 'ent')

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.conds = dict(self.conds)
        s.clog = list(self.clog)
        s.events = list(self.events)
        s.frames = [f.copy() for f in self.frames]
        return s


class Path:
    __slots__ = ('outcome', 'ret', 'conds', 'clog', 'events', 'store', 'loopkey', 'updates', 'site', 'eng')

    def __init__(self, outcome, ret, st, eng, loopkey=None, updates=None, site=None):
        self.outcome = outcome
        self.ret = ret
        self.conds = st.conds
        self.clog = st.clog
        self.events = st.events
        self.store = st.store
        self.loopkey = loopkey
        self.updates = updates
        self.site = site
        self.eng = eng

    def clean(self):
        if self.ret is not None:
            self.ret = erase(self.ret)
        self.clog = [(erase(c), v) for c, v in self.clog]
        self.conds = {erase(c): v for c, v in self.conds.items()}
        evs = []
        for e in self.events:
            n = Ev(e.kind, e.name, tuple(erase(a) for a in e.args) if e.args else e.args, erase(e.res) if e.res is not None else None,
                   e.site, e.fn, e.lam, e.extra, e.raw, erase(e.old) if isinstance(e.old, T) else e.old)
            evs.append(n)
        self.events = evs
        if self.updates:
            self.updates = {k: erase(v) for k, v in self.updates.items()}

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.name in names]

    def obj(self, ptr):
        """final value of the object a pointer parameter refers to"""
        return erase(self.store.get(("O", ptr), ptr))

    def show(self):
        out = ['outcome=%s ret=%s' % (self.outcome, self.ret and show(self.ret))]
        for k in self.clog:
            out.append('   if %s == %s' % (show(k[0]), k[1]))
        for e in self.events:
            out.append('   ev %r' % e)
        if self.updates:
            for k, v in self.updates.items():
                out.append('   upd %s := %s' % (showplace(k[0], k[1]), show(v)))
        return '\n'.join(out)


# --------------------------------------------------------------------------
# callee names
# --------------------------------------------------------------------------
class Callee:
    __slots__ = ('canon', 'selfhead', 'trait', 'method', 'path', 'text', 'selfty')

    def __repr__(self):
        return self.canon


_CALLEES = {}


def parse_callee(text):
    c = _CALLEES.get(text)
    if c is not None:
        return c
    c = Callee()
    c.text = text
    c.selfhead = c.trait = c.selfty = None
    t = text.strip()
    if t.startswith('<') and (not t.startswith('<impl ') or mir.find_top_as(t[1:scan_top(t, 1, '>')]) is not None):
        j = scan_top(t, 1, '>')
        inner = t[1:j]
        rest = t[j + 1:]
        k = mir.find_top_as(inner)
        if k is not None:
            c.selfty = inner[:k]
            c.selfhead = type_head(inner[:k])
            if inner.strip().startswith('&'):
                c.selfhead = '&' + c.selfhead
            c.trait = type_head(inner[k + 4:])
            c.method = strip_generics(rest).strip(':').split('::')[-1]
            c.path = None
            c.canon = c.trait + '::' + c.method
            _CALLEES[text] = c
            return c
        c.selfty = inner
        c.selfhead = type_head(inner)
        c.method = strip_generics(rest).strip(':').split('::')[-1]
        c.canon = c.selfhead + '::' + c.method
        c.path = None
        _CALLEES[text] = c
        return c
    # `a::b::<impl X for Y>::m::<..>` or plain path
    m = re.search(r"<impl ", t)
    # (not the turbofish of the function itself: `unfold::<impl Iterator<..>, ..>`)
    if m and t[scan_top(t, m.start() + 1, '>') + 1:].startswith('::'):
        j = scan_top(t, m.start() + 1, '>')
        inner = t[m.start() + 6:j]
        k = mir.find_top_for(inner)
        if k is not None:
            c.trait = type_head(inner[:k])
            inner = inner[k + 5:]
        c.selfty = inner
        c.selfhead = type_head(inner)
        rest = strip_generics(t[j + 1:]).strip(':')
        c.method = rest.split('::')[-1]
        c.path = None
        h = 'slice' if c.selfhead == '[]' else c.selfhead
        c.canon = (c.trait or h) + '::' + c.method
        _CALLEES[text] = c
        return c
    b = strip_generics(t)
    segs = b.split('::')
    c.method = segs[-1]
    c.path = b
    if len(segs) >= 2 and (segs[-2][:1].isupper() or segs[-2] in ('str',)):
        c.selfhead = segs[-2]
        c.canon = segs[-2] + '::' + segs[-1]
        k = t.rfind('::' + segs[-1])
        c.selfty = None
    else:
        c.canon = '::'.join(segs[-2:]) if len(segs) >= 2 and segs[-2] in ('slice', 'mem', 'ptr', 'cmp', 'iter', 'future', 'stream', 'fmt', 'process', 'env', 'thread', 'convert') else segs[-1]
    _CALLEES[text] = c
    return c


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------
def subst(t, m):
    """replace subterms (m: dict term -> term)"""
    if not m:
        return t
    memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in m:
            memo[x] = m[x]
            st.pop()
            continue
        ch = [c for c in x.a if isinstance(c, T) and c not in memo]
        ix = index_term(x.a[1]) if x.op == 'fld' else None
        if ix is not None and ix not in memo:
            ch.append(ix)
        if ch:
            st.extend(ch)
            continue
        st.pop()
        na = [(memo[c] if isinstance(c, T) else c) for c in x.a]
        if ix is not None and memo[ix] is not ix:
            na[1] = ('[r%d]' if str(x.a[1]).startswith('[r') else '[%d]') % memo[ix].id
        memo[x] = x if all(n is c for n, c in zip(na, x.a)) else rebuild(x, na)
    return memo[t]


def all_subterms(t):
    """subterms, those of the indexes of selected elements included"""
    seen = set()
    todo = [t]
    while todo:
        for x in subterms(todo.pop(), seen):
            yield x
            if x.op == 'fld':
                ix = index_term(x.a[1])
                if ix is not None and ix.id not in seen:
                    todo.append(ix)


def shift_levels(t, m, k0, delta):
    """substitution that renames bound variables of levels from k0 on; the closures inside move with them"""
    for l in [x for x in all_subterms(t) if x.op == 'lam']:
        k = LAM_LEVEL.get(l)
        if k is not None and k >= k0:
            n = subst(l, m)
            if n is not l:
                LAM_LEVEL[n] = k + delta
    return subst(t, m)


def shift_captured(t, d):
    """a closure captured by the one being built at depth d was built at that depth or further out: its bound variables move down"""
    m = {}
    for l in [x for x in all_subterms(t) if x.op == 'lam']:
        k = LAM_LEVEL.get(l)
        if k is not None and k <= d:
            n = shift_levels(l, {b: mk('bound', b.a[0] + d + 1 - k, *b.a[1:]) for b in all_subterms(l) if b.op == 'bound' and b.a[0] >= k}, k, d + 1 - k)
            if n is not l:
                m[l] = n
    return subst(t, m) if m else t


class Engine:
    def __init__(self, prog, opaque=(), maxpaths=20000, maxtime=200, inline=True, maxdepth=24, force=()):
        self.prog = prog
        self.opaque = set(opaque)       # fn keys / canonical names kept uninterpreted
        self.maxpaths = maxpaths
        self.maxtime = maxtime
        self.maxdepth = maxdepth
        self.inline = inline
        self.H = {}
        self.changed = False
        self.mutslices = frozenset()
        self.constcache = {}
        self.inlined = set()
        self.loopheads = {}
        self.lamdepth = 0
        self.unresolved = set()

    # ---- public -----------------------------------------------------------
    def run(self, fn, args=None, names=None):
        """enumerate the paths of fn; args: optional list of terms"""
        t0 = time.time()
        rounds = 0
        while True:
            rounds += 1
            self.changed = False
            self.t0 = t0
            st = State()
            st.store = {}
            st.conds = {}
            st.clog = []
            st.events = []
            st.frames = []
            if args is None:
                av = [self.param(fn, i) for i in fn.args]
            else:
                av = args
            self.push(st, fn, av, ('root',), None, None, None)
            paths = self.explore(st, 0)
            if not self.changed or rounds > 12:
                break
        if self.changed:
            raise Incomplete('loop fixpoint of %s' % fn.key)
        self.inlined.add(fn.key)
        for p in paths:
            p.clean()
        return paths

    def param(self, fn, i):
        nm = None
        for d, vs in fn.debug.items():
            if '_%d' % i in vs:
                nm = d
        t = mk('sym', '%s' % (nm or ('arg%d' % i)))
        if (fn.locals.get(i) or '').strip().startswith('&mut ['):
            self.mutslices = self.mutslices | {t}
        return t

    # ---- store ------------------------------------------------------------
    def root_get(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == 'O':
                return root[1]
            return mk('uninit', root[2])
        return v

    def read(self, st, root, path):
        v = self.root_get(st, root)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        # v: value term; p: field name
        if v.op == 'ref':
            # projecting a field of a pointer: implicit read through
            v2 = self.read(st, v.a[0], v.a[1])
            return self.proj(st, v2, p)
        if v.op == 'agg':
            if '.' in p:
                var, f = p.split('.', 1)
                if v.a[0].endswith('::' + var):
                    r = agg_get(v, f)
                    if r is not None:
                        return r
                return mk('fld', v, p)
            r = agg_get(v, p)
            if r is not None:
                return r
            if p.isdigit() and int(p) < len(v.a) - 1:
                return v.a[1 + int(p)].a[1]
            return mk('fld', v, p)
        if v.op == 'upd':
            if v.a[1] == p:
                return v.a[2]
            if p[:1] == '[' and str(v.a[1])[:1] == '[' and not self.distinct(v.a[1], p):
                return mk('fld', v, p)
            return self.proj(st, v.a[0], p)
        if v.op == 'optref':
            if p == 'Some.0':
                return v.a[1]
            return self.proj(st, v.a[0], p)
        if v.op == 'at':
            return self.canon_fld(v.a[0], p)
        if v.op == 'obj':
            # object with pointer identity: read through the store
            return self.proj(st, self.root_get(st, ('O', v)), p)
        w = st.store.get(('O', v)) if st is not None else None
        if w is not None and w is not v:
            # value terms double as pointers to opaque objects
            return self.proj(st, w, p)
        return self.canon_fld(v, p)

    def distinct(self, i, j):
        """two element positions that cannot be the same"""
        def num(k):
            t = self._idx.get(k)
            if t is not None and t.op == 'int':
                return t.a[0]
            return int(k[2:-1]) if k[1:2] == 'c' and k[2:-1].isdigit() else None
        a, b = num(i), num(j)
        return a is not None and b is not None and a != b

    # Index accessors and reads of the payload's fields are the same observation
    def canon_fld(self, v, p):
        if v.op == 'fld' and v.a[1] in ('Branch.0', 'Leaf.0') and p in ('sealed', 'link', 'count', 'value_bytes', 'key_bytes', 'level'):
            if v.a[0].op == 'call' and str(v.a[0].a[0]).endswith('node_info'):
                return mk('call', 'Index::' + p, None, v.a[0].a[-1])
            return mk('call', 'Index::' + p, None, v.a[0])
        return mk('fld', v, p)

    def write(self, st, root, path, val, site=None, fn=None, log=True, ty=None):
        base = self.root_get(st, root)
        old = self.read(st, root, path) if log and root[0] == 'O' else None
        if root[0] == 'O' and base is root[1]:
            base = mk('at', base)       # the contents before the first write
        st.store[root] = self.update(st, base, path, val)
        if log and root[0] == 'O':
            st.events.append(Ev('write', showplace(root, path), (val,), None, site, fn, extra=(root, path), raw=ty, old=old))

    def update(self, st, base, path, val):
        if not path:
            return val
        p = path[0]
        if base.op == 'agg' and '.' not in p:
            r = agg_get(base, p)
            idx = None
            if r is None and p.isdigit() and int(p) < len(base.a) - 1:
                idx = int(p)
                r = base.a[1 + idx].a[1]
            if r is not None:
                nv = self.update(st, r, path[1:], val)
                fs = []
                for i, f in enumerate(base.a[1:]):
                    if f.a[0] == p or idx == i:
                        fs.append((f.a[0], nv))
                    else:
                        fs.append((f.a[0], f.a[1]))
                return agg(base.a[0], fs)
        if base.op == 'upd' and base.a[1] == p:
            nv = self.update(st, base.a[2], path[1:], val)
            return mk('upd', base.a[0], p, nv)
        if base.op == 'upd':
            # look deeper for an existing update of the same field
            cur = base
            chain = []
            while cur.op == 'upd' and cur.a[1] != p:
                chain.append((cur.a[1], cur.a[2]))
                cur = cur.a[0]
            if cur.op == 'upd' and not str(p).startswith('['):
                nv = self.update(st, cur.a[2], path[1:], val)
                r = mk('upd', cur.a[0], p, nv)
                for (q, v) in reversed(chain):
                    r = mk('upd', r, q, v)
                return r
        old = self.proj(st, base, p) if len(path) > 1 else None
        nv = self.update(st, old, path[1:], val) if len(path) > 1 else val
        return mk('upd', base, p, nv)

    def deref(self, v):
        """pointer value -> (root, path)"""
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return ('O', v), ()

    # place -> (root, path)
    def place(self, st, fr, pl):
        root = ('L', fr.uid, pl[1])
        path = ()
        ty = fr.fn.locals.get(pl[1], '?')
        variant = None
        for pr in pl[2]:
            k = pr[0]
            if k == '*':
                v = self.read(st, root, path)
                root, path = self.deref(v)
                ty = deref_ty(ty)
            elif k == 'v':
                variant = pr[1]
                continue
            elif k == 'f':
                name = self.fieldname(ty, variant, pr[1])
                if name is None:
                    ty = pr[2]
                    variant = None
                    continue
                v0 = None
                # pass through references held by value (optref etc.)
                path = path + (name,)
                ty = pr[2]
            elif k == 'i':
                iv = self.read(st, ('L', fr.uid, pr[1]), ())
                path = path + ('[%d]' % iv.id,)
                ty = self.elem_ty(ty)
                self._idx[path[-1]] = iv
            elif k == 'ci':
                path = path + ('[c%s]' % pr[1],)
                ty = self.elem_ty(ty)
            variant = None if k != 'v' else variant
            # normalise: if the prefix holds a pointer-ish optref, move the root
        return root, path, ty

    _idx = {}

    def elem_ty(self, ty):
        t = deref_ty(ty)
        if t.startswith('['):
            j = scan_top(t, 1, ';]')
            return t[1:j]
        return '?'

    def fieldname(self, ty, variant, n):
        h = type_head(ty)
        if variant is not None:
            if variant.startswith('variant#'):
                return '%s.%d' % (variant, n)
            vs = self.prog.enums.get(h)
            if vs:
                for (v, fl) in vs:
                    if v == variant and n < len(fl):
                        return '%s.%s' % (variant, fl[n])
            return '%s.%d' % (variant, n)
        if h in ('Box', 'Unique', 'NonNull', 'ManuallyDrop', 'MaybeDangling', 'Wrapping'):
            return None
        if h.startswith('['):
            return str(n)
        fs = self.prog.structs.get(h)
        if fs is not None and n < len(fs) and '::' + h not in ('',):
            return fs[n][0]
        e = EXT_STRUCT.get(h)
        if e and n < len(e):
            return e[n]
        return str(n)

    def place_read(self, st, fr, pl):
        root, path, ty = self.place(st, fr, pl)
        return self.read(st, root, path)

    def place_write(self, st, fr, pl, val, site):
        root, path, ty = self.place(st, fr, pl)
        # if a prefix of the path reads as a pointer, write through it
        base = self.root_get(st, root)
        for i, p in enumerate(path):
            base = self.proj(st, base, p)
            if base.op == 'ref' and i + 1 < len(path):
                self.write(st, base.a[0], base.a[1] + path[i + 1:], val, site, fr.fn, ty=ty)
                return
        self.write(st, root, path, val, site, fr.fn, ty=ty)

    # ---- operands ---------------------------------------------------------
    def operand(self, st, fr, op):
        if op[0] == 'use':
            return self.place_read(st, fr, op[1])
        return self.const(fr, op[1])

    def const(self, fr, s):
        s = s.strip()
        if s in ('true', 'false'):
            return BOOL(s == 'true')
        m = re.fullmatch(r"(-?\d+)_[ui](\d+|size)", s)
        if m:
            return INT(int(m.group(1)))
        m = re.fullmatch(r"(?:core::num::|std::num::|std::|core::)?(?:<impl )?([ui])(\d+|size)>?::(MAX|MIN)", s)
        if m:
            bits = 64 if m.group(2) == 'size' else int(m.group(2))
            if m.group(1) == 'u':
                return INT((1 << bits) - 1 if m.group(3) == 'MAX' else 0)
            return INT((1 << (bits - 1)) - 1 if m.group(3) == 'MAX' else -(1 << (bits - 1)))
        if s == '()':
            return UNIT
        if s.startswith('"') or s.startswith("b\"") or s.startswith("'"):
            return mk('const', s)
        m = re.match(r"\{?0x", s)
        # named constant / promoted
        c = self.prog_const(fr, s)
        if c is not None:
            return c
        m = re.match(r"^(?:[\w:]+::)?(Option|Result|ControlFlow|Bound)::(?:<.*>::)?(\w+)$", strip_generics(s) if '<' in s else s)
        if m and m.group(2) in EXT_ENUM.get(m.group(1), ()):
            return agg(m.group(1) + '::' + m.group(2), [])
        return mk('const', s)

    def prog_const(self, fr, s):
        if s in self.constcache:
            return self.constcache[s]
        cands = []
        key = s
        for nm, f in self.prog.consts.items():
            if f.crate != fr.fn.crate and not nm.split('::', 1)[0] in s:
                continue
            short = nm.split('::', 1)[1]
            if short == s or short.endswith('::' + s) or self.cname(short) == self.cname(s):
                cands.append(f)
        r = None
        if len(cands) >= 1:
            f = cands[0]
            if len(cands) > 1:
                c2 = [x for x in cands if x.crate == fr.fn.crate]
                f = c2[0] if c2 else f
            if len(f.blocks) <= 12:
                self.constcache[s] = mk('const', s)
                sub = Engine(self.prog, self.opaque, 50, 20)
                try:
                    ps = sub.run(f)
                    rets = [p for p in ps if p.outcome == 'return']
                    if len(rets) == 1:
                        st = State()
                        st.store = rets[0].store
                        st.conds = {}
                        st.clog = []
                        st.events = []
                        st.frames = []
                        r = sub.snap(st, rets[0].ret)
                        if mentions(r, lambda x: x.op == 'call'):
                            r = None
                except (Incomplete, RecursionError, KeyError, AttributeError):
                    r = None
        if r is None and cands:
            r = mk('const', s)
        if cands or True:
            self.constcache[s] = r
        return r

    _cn = {}

    def cname(self, s):
        r = self._cn.get(s)
        if r is None:
            m = re.search(r"((?:\w+|\{closure#\d+\})(?:::\{closure#\d+\})*::promoted\[\d+\])$", s)
            r = self._cn[s] = (m.group(1) if m else s)
        return r

    # ---- snapshots --------------------------------------------------------
    def snap(self, st, v, depth=0):
        """resolve pointers inside a value to what they point to"""
        if depth > 30:
            return v
        o = v.op
        if o == 'ref':
            return self.snap(st, self.read(st, v.a[0], v.a[1]), depth + 1)
        if o in ('int', 'bool', 'const', 'at'):
            return v
        if o == 'optref':
            return self.snap(st, v.a[0], depth + 1)
        w = st.store.get(('O', v))
        if w is not None and w is not v:
            return self.snap(st, w, depth + 1)
        if o == 'sym':
            return v
        if v._d is None:
            v._d = self.has_ref(v)
        if not v._d and not st.store:
            return v
        if o == 'agg' and v.a[0].startswith(('[closure', '{closure')):
            if not v._d:
                return v
        if o == 'fld' and not v._d:
            return v
        if o in ('agg', 'upd', 'fld', 'f', 'iter', 'map', 'filter', 'filter_map', 'enumerate', 'rev', 'zip', 'take', 'skip',
                 'take_while', 'skip_while', 'chain', 'flat_map', 'flatten', 'scan', 'step_by', 'inspect', 'bin', 'not', 'is',
                 'map_while', 'item', 'idx'):
            ch = False
            na = []
            for x in v.a:
                if isinstance(x, T):
                    y = self.snap(st, x, depth + 1)
                    if y is not x:
                        ch = True
                    na.append(y)
                else:
                    na.append(x)
            if ch:
                if o == 'fld':
                    return self.proj(st, na[0], na[1])
                return mk(o, *na)
        return v

    def has_ref(self, v):
        return mentions(v, lambda x: x.op in ('ref', 'optref'))

    # refs with mutability, found inside a value
    def mutrefs(self, v):
        out = []
        for x in subterms(v):
            if x.op == 'ref' and x.a[2]:
                out.append(x)
        return out

    # ---- conditions -------------------------------------------------------
    def truth(self, st, c):
        """value of a boolean term under the path literals: True/False/None"""
        if c.op == 'bool':
            return c.a[0]
        if c.op == 'int':
            return c.a[0] != 0
        if c.op == 'not':
            t = self.truth(st, c.a[0])
            return None if t is None else not t
        if c.op == 'is':
            return self.is_variant(st, c.a[0], c.a[1])
        v = st.conds.get(c)
        return v

    def is_variant(self, st, x, var):
        vx = self.variant(x)
        if vx is not None:
            return vx == var
        k = mk('disc', x)
        v = st.conds.get(k)
        if v is None:
            return None
        if isinstance(v, frozenset):  # excluded variants
            return False if var in v else None
        return v == var

    def variant(self, x):
        if x.op == 'agg' and '::' in x.a[0]:
            return x.a[0].rsplit('::', 1)[1]
        if x.op == 'optref':
            return self.variant(x.a[0])
        if x.op == 'upd':
            return self.variant(x.a[0]) if not x.a[1].startswith('[') else None
        return None

    def discval(self, x):
        if x.op == 'optref':
            return self.discval(x.a[0])
        return x

    def assume(self, st, c, val):
        """add literal; returns False if contradictory"""
        while c.op == 'not':
            c = c.a[0]
            val = not val
        if c.op == 'bool':
            return c.a[0] == val
        if c.op == 'is':
            return self.assume_variant(st, c.a[0], c.a[1], val, tuple(c.a[2].split(',')) if len(c.a) > 2 else None)
        old = st.conds.get(c)
        if old is not None:
            return old == val
        st.conds[c] = val
        st.clog.append((c, val))
        return True

    ALL = {'Some': ('None', 'Some'), 'None': ('None', 'Some'), 'Ok': ('Ok', 'Err'), 'Err': ('Ok', 'Err'),
           'Continue': ('Continue', 'Break'), 'Break': ('Continue', 'Break'), 'Leaf': None, 'Branch': None}

    def assume_variant(self, st, x, var, val, allv=None):
        x = self.discval(x)
        vx = self.variant(x)
        if vx is not None:
            return (vx == var) == val
        k = mk('disc', x)
        cur = st.conds.get(k)
        allv = allv or self.ALL.get(var)
        if val:
            if cur is None or isinstance(cur, frozenset):
                if cur and var in cur:
                    return False
                st.conds[k] = var
                st.clog.append((k, var))
                return True
            return cur == var
        if cur is None or isinstance(cur, frozenset):
            ex = frozenset((cur or frozenset()) | {var})
            if allv:
                left = [v for v in allv if v not in ex]
                if not left:
                    return False
                if len(left) == 1:
                    st.conds[k] = left[0]
                    st.clog.append((k, left[0]))
                    return True
            st.conds[k] = ex
            return True
        return cur != var

    # ---- binary ops -------------------------------------------------------
    def binop(self, op, a, b):
        if op in ('CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'):
            r = self.binop(op[7:], a, b)
            return agg('()', [('0', r), ('1', FALSE)])
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y,
                     'Ge': lambda: x >= y}[op]()
                return BOOL(r) if isinstance(r, bool) else INT(r)
            except (KeyError, ZeroDivisionError):
                pass
        if op == 'Ne':
            return self.neg(self.binop('Eq', a, b))
        if op == 'Gt':
            return self.binop('Lt', b, a)
        if op == 'Ge':
            return self.neg(self.binop('Lt', a, b))
        if op == 'Le':
            return self.neg(self.binop('Lt', b, a))
        if op == 'Eq':
            if a.op == 'bool':
                return b if a.a[0] else self.neg(b)
            if b.op == 'bool':
                return a if b.a[0] else self.neg(a)
            for x, y in ((a, b), (b, a)):
                if y.op == 'discr' and y.a[1]:
                    # discriminants compared (derived PartialEq): a variant test
                    nm = None
                    names = y.a[1].split(',')
                    if x.op == 'discr' and x.a[1] == y.a[1]:
                        nm = self.variant(x.a[0])
                    elif x.op == 'int' and 0 <= x.a[0] < len(names):
                        nm = names[x.a[0]]
                    if nm in names:
                        vy = self.variant(y.a[0])
                        return BOOL(vy == nm) if vy is not None else mk('is', y.a[0], nm, y.a[1])
            if b.id < a.id:
                a, b = b, a
        if op in ('BitAnd', 'BitOr', 'BitXor') and (a.op == 'bool' or b.op == 'bool'):
            k, o = (a, b) if a.op == 'bool' else (b, a)
            if op == 'BitAnd':
                return o if k.a[0] else FALSE
            if op == 'BitOr':
                return TRUE if k.a[0] else o
            return self.neg(o) if k.a[0] else o
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and b.id < a.id:
            a, b = b, a
        return mk('bin', op, a, b)

    def neg(self, a):
        if a.op == 'bool':
            return BOOL(not a.a[0])
        if a.op == 'not':
            return a.a[0]
        return mk('not', a)

    # ---- rvalues ----------------------------------------------------------
    def rvalue(self, st, fr, rv, site, destty):
        k = rv[0]
        if k == 'op':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            root, path, ty = self.place(st, fr, rv[2])
            # pointer to something already behind a pointer value held in the path
            base = self.root_get(st, root)
            i = 0
            for i, p in enumerate(path):
                nb = self.proj(st, base, p)
                if nb.op == 'ref' and i + 1 < len(path):
                    return mk('ref', nb.a[0], nb.a[1] + path[i + 1:], rv[1])
                base = nb
            if root[0] == 'O' and not path:
                return root[1]
            return mk('ref', root, path, rv[1])
        if k == 'len':
            v = self.place_read(st, fr, rv[1])
            return mk('call', 'len', None, self.snap(st, v))
        if k == 'disc':
            root, path, ty = self.place(st, fr, rv[1])
            v = self.read(st, root, path)
            while v.op == 'ref':
                v = self.read(st, v.a[0], v.a[1])
            return mk('discr', self.discval(v), self.variants(ty))
        if k == 'bin':
            return self.binop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k == 'un':
            x = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if self.is_bool(st, fr, rv[2]):
                    return self.neg(x)
                return mk('bnot', x)
            return mk('neg', x)
        if k == 'cast':
            x = self.operand(st, fr, rv[1])
            kind = rv[3]
            if kind.startswith('IntToInt'):
                src = self.optype(fr, rv[1])
                dst = rv[2].strip()
                if x.op == 'int':
                    if dst in WIDEN and 0 <= x.a[0] < (1 << WIDEN[dst]):
                        return x
                    if dst.startswith('i'):
                        return x
                if src in WIDEN and dst in WIDEN and WIDEN[dst] >= WIDEN[src]:
                    return x
                if src == dst:
                    return x
                return mk('cast', dst, x)
            return x
        if k == 'repeat':
            return mk('call', 'from_elem', None, self.operand(st, fr, rv[1]), mk('const', rv[2]))
        if k == 'agg':
            return self.aggregate(st, fr, rv, destty)
        raise ValueError(rv)

    def is_bool(self, st, fr, op):
        return self.optype(fr, op) == 'bool'

    def optype(self, fr, op):
        if op[0] == 'const':
            m = re.fullmatch(r"-?\d+_([ui](?:\d+|size))", op[1].strip())
            if m:
                return m.group(1)
            if op[1].strip() in ('true', 'false'):
                return 'bool'
            return '?'
        pl = op[1]
        if not pl[2]:
            return fr.fn.locals.get(pl[1], '?').strip()
        for pr in reversed(pl[2]):
            if pr[0] == 'f':
                return pr[2]
            break
        ty = fr.fn.locals.get(pl[1], '?')
        for pr in pl[2]:
            if pr[0] == '*':
                ty = deref_ty(ty)
            elif pr[0] == 'f':
                ty = pr[2]
            elif pr[0] in ('i', 'ci'):
                ty = self.elem_ty(ty)
        return ty.strip()

    def variants(self, ty):
        h = type_head(ty)
        if h in EXT_ENUM:
            return ','.join(EXT_ENUM[h])
        vs = self.prog.enums.get(h)
        if vs:
            return ','.join(v for v, _ in vs)
        return ''

    def aggregate(self, st, fr, rv, destty):
        name, fields = rv[1], rv[2]
        vals = [(n, self.operand(st, fr, o)) for n, o in fields]
        if name in ('()', '[]'):
            if name == '()' and not vals:
                return UNIT
            return agg(name, vals)
        if name.startswith(('[', '{')):
            return agg(name, [(str(i), v) for i, (n, v) in enumerate(vals)])
        b = strip_generics(name)
        segs = b.split('::')
        h = type_head(destty)
        if len(segs) >= 2:
            e = self.prog.enums.get(segs[-2])
            if e is not None and any(v == segs[-1] for v, _ in e):
                return agg(segs[-2] + '::' + segs[-1], vals)
            if segs[-2] in EXT_ENUM and segs[-1] in EXT_ENUM[segs[-2]]:
                return agg(segs[-2] + '::' + segs[-1], vals)
        e = self.prog.enums.get(h)
        if e is not None and any(v == segs[-1] for v, _ in e):
            return agg(h + '::' + segs[-1], vals)
        if h in EXT_ENUM and segs[-1] in EXT_ENUM[h]:
            return agg(h + '::' + segs[-1], vals)
        return agg(segs[-1], vals)

    # ---- frames -----------------------------------------------------------
    def push(self, st, fn, args, uid, dest, target, post):
        fr = Frame(fn, uid, dest, target, post)
        for i, a in zip(fn.args, args):
            st.store[('L', uid, i)] = a
        st.frames.append(fr)
        return fr

    def heads(self, fn):
        h = self.loopheads.get(fn)
        if h is None:
            h = set()
            color = {}
            stack = [(0, iter(self.succ(fn, 0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 1:
                        h.add(s)
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succ(fn, s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self.loopheads[fn] = h
        return h

    def succ(self, fn, b):
        blk = fn.blocks.get(b)
        if blk is None:
            return []
        t = blk[1]
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == 'drop':
            return [t[2]]
        if t[0] == 'call':
            return [t[4]] if t[4] is not None else []
        if t[0] == 'assert':
            return [t[4]]
        return []

    # ---- exploration ------------------------------------------------------
    def explore(self, st, base):
        """run until the frame stack is `base` deep again; returns list of Paths.  For base>0 the
        returned Path.ret carries the value of the popped frame."""
        done = []
        work = [st]
        while work:
            if len(done) + len(work) > self.maxpaths or time.time() - self.t0 > self.maxtime:
                raise Incomplete('too many paths (%d done)' % len(done))
            s = work.pop()
            self.step_path(s, base, work, done)
        return done

    def enter(self, st, fr, block):
        """move to a block; returns False when the path ended (back edge), recording it"""
        fr.block = block
        fr.si = 0

    def step_path(self, st, base, work, done):
        while True:
            fr = st.frames[-1]
            b = fr.block
            if fr.si == 0:
                # loop head?
                if b in self.heads(fr.fn):
                    key = (fr.uid, fr.fn.name, b)
                    hit = None
                    for (k, snapst) in fr.loops:
                        if k == b:
                            hit = snapst
                    if hit is not None:
                        upd = self.loop_diff(key, hit, st, fr)
                        done.append(Path('loop', None, st, self, key, upd))
                        return
                    hs = self.H.get(key, ())
                    for (root, path) in sorted(hs, key=repr):
                        try:
                            old = self.read(st, root, path)
                        except KeyError:
                            continue
                        if old.op == 'uninit':
                            continue
                        ph = mk('phi', key, ('%s' % (root[2] if root[0] == 'L' else show(root[1])),) + path, self.snap_iter(st, old))
                        self.write(st, root, path, ph, log=False)
                    fr.loops = fr.loops + ((b, dict(st.store)),)
                    st.events.append(Ev('loop', str(b), (), None, None, fr.fn, extra=key))
            blk = fr.fn.blocks.get(b)
            if blk is None:
                done.append(Path('diverge', None, st, self))
                return
            stmts, term = blk
            for stm in stmts:
                if stm[0] == 'assign':
                    destty = self.place_ty(fr, stm[1])
                    v = self.rvalue(st, fr, stm[2], stm[3], destty)
                    self.place_write(st, fr, stm[1], v, stm[3])
                elif stm[0] == 'setdisc':
                    root, path, ty = self.place(st, fr, stm[1])
                    vs = self.variants(ty).split(',')
                    n = int(stm[2])
                    if type_head(ty).startswith(('[', '{')):
                        self.write(st, root, path + ('state',), INT(n), stm[3], fr.fn, log=False)
                    elif n < len(vs) and vs[n]:
                        self.write(st, root, path, agg(type_head(ty) + '::' + vs[n], []), stm[3], fr.fn)
            k = term[0]
            if k == 'goto':
                fr.block = term[1]
                fr.si = 0
                continue
            if k == 'return':
                ret = self.root_get(st, ('L', fr.uid, 0))
                if ret.op == 'uninit':
                    ret = UNIT
                if not self.finish(st, ret, base, work, done):
                    return
                continue
            if k == 'switch':
                if not self.do_switch(st, fr, term, work):
                    return
                continue
            if k == 'drop':
                if self.do_drop(st, fr, term):
                    continue
                continue
            if k == 'assert':
                c = self.operand(st, fr, term[1])
                st.events.append(Ev('assert', term[3][:60], (self.snap(st, c),), None, term[5], fr.fn))
                fr.block = term[4]
                fr.si = 0
                continue
            if k == 'call':
                r = self.do_call(st, fr, term, work, done, base)
                if not r:
                    return
                continue
            # unreachable / resume
            done.append(Path('unreachable' if k == 'unreachable' else 'unwind', None, st, self))
            if k == 'unreachable':
                done.pop()
            return

    def place_ty(self, fr, pl):
        return self.optype(fr, ('use', pl))

    def finish(self, st, ret, base, work, done):
        """pop the top frame with value ret.  Returns False if the path is complete."""
        fr = st.frames.pop()
        outs = [(st, ret)]
        if fr.post is not None:
            r = fr.post(st, ret)
            outs = r if isinstance(r, list) else [(st, r)]
        # drop the locals of the frame that nobody can point to any more (keep: refs may escape)
        cont = False
        for i, (s2, v) in enumerate(outs):
            if len(s2.frames) == base:
                done.append(Path('return', v, s2, self))
                continue
            caller = s2.frames[-1]
            if fr.target is None:
                done.append(Path('panic', None, s2, self))
                continue
            if fr.dest is not None:
                self.place_write(s2, caller, fr.dest, v, None)
            caller.block = fr.target
            caller.si = 0
            if s2 is st:
                cont = True
            else:
                work.append(s2)
        return cont

    def do_switch(self, st, fr, term, work):
        v = self.operand(st, fr, term[1])
        cases, other = term[2], term[3]
        if v.op == 'int' or v.op == 'bool':
            n = int(v.a[0])
            for val, b in cases:
                if val == n:
                    fr.block = b
                    fr.si = 0
                    return True
            fr.block = other
            fr.si = 0
            return True
        alts = []  # (list of (cond, val)), block
        if v.op == 'discr':
            x = v.a[0]
            if x.op in ('int',):
                pass
            names = v.a[1].split(',') if v.a[1] else []
            seen = []
            for val, b in cases:
                nm = names[val] if 0 <= val < len(names) else str(val)
                seen.append(nm)
                alts.append((('v', x, nm, True, names), b))
            left = [n for n in names if n not in seen]
            if other is not None and self.reachable_block(fr.fn, other) and (left or not names):
                if len(left) == 1:
                    alts.append((('v', x, left[0], True, names), other))
                else:
                    alts.append((('nv', x, seen, names), other))
        elif self.boolish(v) or (len(cases) == 1 and cases[0][0] == 0 and self.optype(fr, term[1]) == 'bool'):
            v = self.snap(st, v)
            for val, b in cases:
                alts.append((('b', v, bool(val)), b))
            if other is not None:
                seen = set(bool(val) for val, _ in cases)
                for val in (True, False):
                    if val not in seen:
                        alts.append((('b', v, val), other))
        else:
            v = self.snap(st, v)
            seen = []
            for val, b in cases:
                alts.append((('eq', v, val, True), b))
                seen.append(val)
            if other is not None:
                alts.append((('neq', v, seen), other))
        live = []
        for c, b in alts:
            s2 = st.fork()
            if self.assume_alt(s2, c):
                live.append((s2, b))
        for s2, b in live:
            f2 = s2.frames[-1]
            f2.block = b
            f2.si = 0
        for s2, b in live[1:]:
            work.append(s2)
        if not live:
            return False
        # continue with the first by replacing st in place
        s0 = live[0][0]
        st.store, st.conds, st.clog, st.events, st.frames = s0.store, s0.conds, s0.clog, s0.events, s0.frames
        return True

    def reachable_block(self, fn, b):
        blk = fn.blocks.get(b)
        return blk is not None and blk[1][0] != 'unreachable'

    def boolish(self, v):
        if v.op in ('is', 'not'):
            return True
        if v.op == 'bin' and v.a[0] in ('Eq', 'Lt'):
            return True
        return False

    def assume_alt(self, st, c):
        if c[0] == 'b':
            return self.assume(st, c[1], c[2])
        if c[0] == 'v':
            return self.assume_variant(st, c[1], c[2], True, tuple(c[4]) if c[4] else None)
        if c[0] == 'nv':
            for nm in c[2]:
                if not self.assume_variant(st, c[1], nm, False, tuple(c[3]) if c[3] else None):
                    return False
            return True
        if c[0] == 'eq':
            e = self.binop('Eq', c[1], INT(c[2]))
            return self.truth_ok(st, e, True)
        if c[0] == 'neq':
            for n in c[2]:
                if not self.truth_ok(st, self.binop('Eq', c[1], INT(n)), False):
                    return False
            return True
        return True

    def truth_ok(self, st, e, val):
        if e.op == 'bool':
            return e.a[0] == val
        return self.assume(st, e, val)

    # ---- loops ------------------------------------------------------------
    def loop_diff(self, key, old, st, fr):
        upd = {}
        hs = self.H.setdefault(key, set())
        for root, nv in st.store.items():
            ov = old.get(root)
            if ov is None:
                if root[0] == 'O':
                    ov = root[1]
                else:
                    continue
            if ov is nv:
                continue
            for path, n in self.vdiff(ov, nv, ()):
                loc = (root, path)
                upd[loc] = n
                if not any(r == root and path[:len(p)] == p for (r, p) in hs):
                    # temporaries that were never initialised before the loop are irrelevant
                    if ov.op == 'uninit':
                        continue
                    hs.add(loc)
                    self.changed = True
        return upd

    def vdiff(self, o, n, path):
        if o is n:
            return []
        if n.op == 'upd':
            chain = []
            cur = n
            while cur.op == 'upd':
                chain.append((cur.a[1], cur.a[2]))
                cur = cur.a[0]
                if cur is o:
                    break
            if cur is o:
                out = []
                seen = set()
                for p, v in chain:
                    if p in seen:
                        continue
                    seen.add(p)
                    if p.startswith('['):
                        return [(path, n)]
                    out.extend(self.vdiff(self.proj(None, o, p) if o.op != 'ref' else mk('fld', o, p), v, path + (p,)))
                return out
            # both updated
            if o.op == 'upd':
                ob = o
                while ob.op == 'upd':
                    ob = ob.a[0]
                if ob is cur:
                    fields = set(p for p, _ in chain)
                    x = o
                    while x.op == 'upd':
                        fields.add(x.a[1])
                        x = x.a[0]
                    if not any(f.startswith('[') for f in fields):
                        out = []
                        for p in sorted(fields):
                            ov, nv2 = self.proj(None, o, p), self.proj(None, n, p)
                            out.extend(self.vdiff(ov, nv2, path + (p,)))
                        return out
        if n.op == 'agg' and o.op == 'agg' and n.a[0] == o.a[0] and len(n.a) == len(o.a) and '::' not in n.a[0]:
            out = []
            for f, g in zip(o.a[1:], n.a[1:]):
                out.extend(self.vdiff(f.a[1], g.a[1], path + (f.a[0],)))
            return out
        return [(path, n)]

    def snap_iter(self, st, v):
        try:
            return self.snap(st, v)
        except RecursionError:
            return v

    # ---- drops ------------------------------------------------------------
    def do_drop(self, st, fr, term):
        root, path, ty = self.place(st, fr, term[1])
        v = self.read(st, root, path)
        h = type_head(ty)
        fns = self.prog.find('<%s as Drop>::drop' % h)
        if fns and v.op != 'uninit' and not ty.strip().startswith('&'):
            fn = fns[0]
            uid = fr.uid + ((fr.block, 'drop'),)
            if len(uid) < self.maxdepth:
                self.inlined.add(fn.key)
                self.push(st, fn, [mk('ref', root, path, True)], uid, None, term[2], None)
                return True
        if v.op not in ('uninit', 'int', 'bool'):
            st.events.append(Ev('drop', h, (self.snap(st, v),), None, term[3], fr.fn))
        fr.block = term[2]
        fr.si = 0
        return True

    # ---- calls ------------------------------------------------------------
    def ret(self, st, fr, term, v):
        """store call result and continue"""
        dest, tgt = term[1], term[4]
        if tgt is None:
            return False
        self.place_write(st, fr, dest, v, term[5])
        fr.block = tgt
        fr.si = 0
        return True

    def do_call(self, st, fr, term, work, done, base):
        _, dest, ctext, ops, tgt, site = term
        args = [self.operand(st, fr, o) for o in ops]
        if ctext.startswith(('move ', 'copy ')) or re.match(r"^_\d+$", ctext):
            fv = self.operand(st, fr, mir.parse_operand(ctext if not ctext.startswith('_') else 'move ' + ctext))
            c = parse_callee('fnptr')
            return self.invoke_term(st, fr, term, fv, args, None, work, done)
        c = parse_callee(ctext)
        # diverging calls (panic machinery)
        if tgt is None:
            st.events.append(Ev('panic', c.canon, tuple(self.snap(st, a) for a in args), None, site, fr.fn))
            if not self.callable_local(c, fr, args):
                done.append(Path('panic', None, st, self, site=site))
                return False
        return self.call(st, fr, term, c, args, work, done)

    def callable_local(self, c, fr, args):
        return self.resolve(c, fr) is not None

    def call(self, st, fr, term, c, args, work, done):
        site = term[5]
        m = c.method
        model = MODELS.get(c.canon) or MODELS.get('*::' + m)
        local = None
        if c.canon not in self.opaque:
            local = self.resolve(c, fr, args)
        if local is not None and (local.key in self.opaque or self.opaque_fn(local)):
            name = self.opaque_name(local)
            return self.opaque_call(st, fr, term, c, args, name)
        if local is not None and self.inline:
            active = [f.fn for f in st.frames]
            if local in active or len(st.frames) >= self.maxdepth:
                return self.opaque_call(st, fr, term, c, args, 'rec:' + short(local))
            self.inlined.add(local.key)
            uid = fr.uid + (fr.block,)
            if term[4] is None:
                self.push(st, local, args, uid, None, None, None)
                return True
            self.push(st, local, args, uid, term[1], term[4], None)
            return True
        if model is not None:
            r = model(self, st, fr, term, c, args, work, done)
            if r is not None:
                return r
        return self.opaque_call(st, fr, term, c, args, c.canon)

    OPAQUE_FILES = ('prom.rs',)

    def opaque_fn(self, fn):
        return bool(fn.file) and fn.file.endswith(self.OPAQUE_FILES)

    def opaque_name(self, fn):
        return short(fn)

    def resolve(self, c, fr, args=None):
        prog = self.prog
        if c.trait is not None:
            h = c.selfhead
            if c.selfty and re.match(r"^(&\s*)*(mut )?(<|[A-Z]\w?::)", c.selfty.strip()):
                h = None     # an associated type: the implementation is the user's choice
            cands = []
            heads = [h, h.lstrip('&')] if h else []
            for hh in heads:
                cands = [f for f in prog.by_method.get((hh, c.method), []) if f.trait == c.trait]
                if cands:
                    break
            if not cands and c.trait in ('Into', 'TryInto'):
                # <A as Into<B>>::into  ->  <B as From<A>>::from
                mm = re.search(r" as (?:[\w:]+::)?(?:Into|TryInto)<(.*)>>::", c.text)
                if mm:
                    tgt = type_head(mm.group(1))
                    meth = 'from' if c.trait == 'Into' else 'try_from'
                    tr = 'From' if c.trait == 'Into' else 'TryFrom'
                    cs = [f for f in prog.by_method.get((tgt, meth), []) if f.trait == tr]
                    cs = [f for f in cs if type_head(f.locals[f.args[0]]) == type_head(c.selfty)]
                    if len(cs) == 1:
                        return cs[0]
                return None
            if len(cands) > 1:
                # discriminate on the type parameter of the trait / argument type
                mm = re.search(r" as (?:[\w:]+::)?%s<(.*)>>::" % re.escape(c.trait), c.text)
                if mm:
                    want = type_head(split_top(mm.group(1))[0])
                    cs = [f for f in cands if f.args and type_head(f.locals[f.args[0]]) == want]
                    if len(cs) == 1:
                        return cs[0]
                same = [f for f in cands if f.crate == fr.fn.crate]
                if len(same) == 1:
                    return same[0]
                files = [f for f in cands if f.file == fr.fn.file]
                if len(files) == 1:
                    return files[0]
                return None
            if cands:
                return cands[0]
            # trait default method of a local trait
            ds = [f for f in prog.by_free.get(c.method, []) if f.traitdefault and f.trait == c.trait]
            if ds:
                # an abstract Self may override it; a type parameter keeps the call opaque
                if h and (h.lstrip('&') in ('Self', 'T', 'Q', 'A', 'B', 'V', 'W', 'KeySeq', 'SummarySeq') or 'KeySeq' in (c.selfty or '') or 'SummarySeq' in (c.selfty or '')):
                    if c.trait in ('CompactSeq', 'Query', 'TreeVisitor', 'Summarizable', 'ReadOnlyStore', 'BlockWriter'):
                        return None
                return ds[0]
            return None
        if c.selfhead is not None:
            cands = [f for f in prog.by_method.get((c.selfhead, c.method), []) if f.trait is None]
            if not cands:
                cands = [f for f in prog.by_method.get((c.selfhead, c.method), [])]
                if cands and c.path is None:
                    cands = [f for f in cands if f.trait == c.trait] or cands
            if len(cands) > 1:
                same = [f for f in cands if f.file == fr.fn.file]
                if len(same) == 1:
                    return same[0]
                # path prefix
                return same[0] if same else cands[0]
            return cands[0] if cands else None
        # free function
        cands = [f for f in prog.by_free.get(c.method, []) if not f.traitdefault]
        if not cands:
            return None
        p = c.path
        best = [f for f in cands if ('::' + f.crate + '::' + f.name).endswith('::' + p) or f.name.endswith(p)]
        if not best:
            return None
        if '::' not in p:
            # an unqualified name is a unique trimmed path
            same = [f for f in best if f.file == fr.fn.file]
            if len(same) == 1:
                return same[0]
        return best[0] if len(best) >= 1 else None

    # -- opaque external / uninterpreted call
    def opaque_call(self, st, fr, term, c, args, name, uid=None, force_mut=False):
        site = term[5]
        snaps = [self.snap(st, a) for a in args]
        muts = []
        if c is None or c.method not in ACCESSOR or force_mut:
            for i, a in enumerate(args):
                for r in self.mutrefs(a):
                    muts.append((i, r))
                # an opaque pointer param passed where &mut is expected
                if a.op != 'ref' and self.ptr_is_mut(fr, term, i):
                    if a.op in ('sym', 'fld', 'obj', 'call') or True:
                        muts.append((i, mk('ref', ('O', a), (), True)))
        u = None
        if muts or name.split('::')[-1] in IMPURE:
            u = uid or (fr.uid, fr.block)
        res = mk('call', name, u, *snaps)
        ev = Ev('call', name, tuple(snaps), res, site, fr.fn, raw=tuple(args), extra=c)
        st.events.append(ev)
        seen = set()
        for i, r in muts:
            if r in seen:
                continue
            seen.add(r)
            old = self.snap(st, self.read(st, r.a[0], r.a[1]))
            others = [s for j, s in enumerate(snaps) if j != i]
            nv = mk('mut', name, u, i, old, *others)
            self.write(st, r.a[0], r.a[1], nv, site, fr.fn, log=False)
        if term[4] is None:
            return False
        return self.ret(st, fr, term, res)

    def ptr_is_mut(self, fr, term, i):
        if term[0] != 'call':
            return False
        op = term[3][i] if i < len(term[3]) else None
        if op is None:
            return False
        ty = self.optype(fr, op)
        return ty.startswith('&mut') or bool(re.match(r"&'\w+ mut ", ty)) or ty.startswith(('Pin<&mut', 'std::pin::Pin<&mut'))

    # -- closures
    def closure_fn(self, v):
        if v.op == 'agg' and v.a[0].startswith(('[closure', '{closure', '[async', '{async')):
            return self.prog.by_closure.get(v.a[0])
        if v.op == 'const':
            m = re.search(r"[\[{]closure@[^\]}]*[\]}]", v.a[0])
            if m:
                return self.prog.by_closure.get(m.group(0))
        return None

    def strip_ptr(self, st, v):
        while v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
        return v

    def invoke_term(self, st, fr, term, f, args, post, work, done, site_tag='c'):
        """call the callable value f with args; result (after post) goes to term's destination"""
        fv = self.strip_ptr(st, f)
        w = st.store.get(('O', fv))
        if w is not None:
            fv = w
        fn = self.closure_fn(fv)
        uid = fr.uid + ((fr.block, site_tag),)
        if fn is not None and len(st.frames) < self.maxdepth and fn not in [x.fn for x in st.frames]:
            selfty = fn.locals[fn.args[0]]
            if selfty.strip().startswith('&'):
                if f.op == 'ref':
                    a0 = f
                else:
                    root = ('L', uid, 'clo')
                    st.store[root] = fv
                    a0 = mk('ref', root, (), True)
            else:
                a0 = fv
            self.inlined.add(fn.key)
            self.push(st, fn, [a0] + args, uid, term[1], term[4], post)
            return True
        if fv.op == 'const':
            c = parse_callee(re.sub(r"^fn\(.*\{(.*)\}$", r"\1", fv.a[0]))
            # enum/tuple constructors
            v = self.ctor(c, args)
            if v is None:
                loc = self.resolve(c, fr)
                if loc is not None and loc.key not in self.opaque and not self.opaque_fn(loc) and loc not in [x.fn for x in st.frames] and len(st.frames) < self.maxdepth:
                    self.inlined.add(loc.key)
                    self.push(st, loc, args, uid, term[1], term[4], post)
                    return True
                if c.canon in TRANSPARENT_VAL:
                    v = self.snap(st, args[0]) if args else UNIT
                elif c.canon in TRANSPARENT_REF:
                    v = args[0]
                else:
                    snaps = [self.snap(st, a) for a in args]
                    v = mk('call', c.canon, None, *snaps)
                    st.events.append(Ev('call', c.canon, tuple(snaps), v, term[5], fr.fn, raw=tuple(args), extra=c))
            return self.post_ret(st, fr, term, v, post, work)
        v = self.ctor_of(fv, args)
        if v is not None:
            return self.post_ret(st, fr, term, v, post, work)
        snaps = [self.snap(st, a) for a in args]
        v = mk('call', 'apply', (fr.uid, fr.block), self.snap(st, fv), *snaps)
        st.events.append(Ev('call', 'apply', tuple([self.snap(st, fv)] + snaps), v, term[5], fr.fn, raw=tuple([f] + args)))
        for a in args:
            for r in self.mutrefs(a):
                old = self.snap(st, self.read(st, r.a[0], r.a[1]))
                self.write(st, r.a[0], r.a[1], mk('mut', 'apply', (fr.uid, fr.block), 0, old), term[5], fr.fn, log=False)
        return self.post_ret(st, fr, term, v, post, work)

    def post_ret(self, st, fr, term, v, post, work):
        if post is None:
            return self.ret(st, fr, term, v)
        r = post(st, v)
        if not isinstance(r, list):
            return self.ret(st, fr, term, r)
        ok = False
        for s2, v2 in r:
            f2 = s2.frames[-1]
            self.ret(s2, f2, term, v2)
            if s2 is st:
                ok = True
            else:
                work.append(s2)
        return ok

    def ctor_of(self, fv, args):
        """a tuple constructor used as a function value"""
        if fv.op == 'agg' and len(fv.a) == 1 and args and re.fullmatch(r"\w+::\w+|[A-Z]\w*", fv.a[0]):
            return self.ctor(parse_callee(fv.a[0]), args) or (agg(fv.a[0], [(str(i), a) for i, a in enumerate(args)]) if '::' in fv.a[0] else None)
        return None

    def ctor(self, c, args):
        nm = c.canon
        for e, vs in EXT_ENUM.items():
            for v in vs:
                if nm == v or nm == e + '::' + v:
                    return agg(e + '::' + v, [(str(i), a) for i, a in enumerate(args)])
        if c.path and '::' in c.path:
            h = c.path.split('::')[-2]
            for (v, fl) in self.prog.enums.get(h, []):
                if v == c.method:
                    return agg(h + '::' + v, [(str(i), a) for i, a in enumerate(args)])
        if c.path:
            h = c.path.split('::')[-1]
            if h in self.prog.structs and h[:1].isupper():
                fs = self.prog.structs[h]
                return agg(h, [(fs[i][0] if i < len(fs) else str(i), a) for i, a in enumerate(args)])
        return None

    # -- fork helper
    def fork_variant(self, st, x, pos, neg):
        """returns (state_if_pos or None, state_if_neg or None)"""
        x = self.discval(x)
        t = self.is_variant(st, x, pos)
        if t is True:
            return st, None
        if t is False:
            return None, st
        s2 = st.fork()
        a = self.assume_variant(st, x, pos, True)
        b = self.assume_variant(s2, x, pos, False)
        return (st if a else None), (s2 if b else None)

    # -- lambda summaries for iterator consumers
    def lam(self, st, clo, nargs, fr, term):
        d = self.lamdepth
        l = self.lam0(st, clo, nargs, fr, term)
        LAM_LEVEL[l] = d
        return l

    def lam0(self, st, clo, nargs, fr, term):
        fv = self.strip_ptr(st, clo)
        fn = self.closure_fn(fv)
        d = self.lamdepth
        bound = [mk('bound', d, i) for i in range(nargs)]
        if fn is None:
            if fv.op == 'const':
                c = parse_callee(fv.a[0])
                v = self.ctor(c, bound)
                if v is not None:
                    return mk('lam', mk('case', mk('conds'), v))
                loc = self.resolve(c, fr)
                if loc is None:
                    if c.canon in TRANSPARENT_VAL or c.canon in TRANSPARENT_REF:
                        return mk('lam', mk('case', mk('conds'), bound[0]))
                    return mk('lam', mk('case', mk('conds'), mk('call', c.canon, None, *bound)))
                fn = loc
                if loc.key in self.opaque:
                    return mk('lam', mk('case', mk('conds'), mk('call', short(loc), None, *bound)))
            else:
                v = self.ctor_of(fv, bound)
                return mk('lam', mk('case', mk('conds'), v if v is not None else mk('call', 'apply', None, self.snap(st, fv), *bound)))
        if fn in [x.fn for x in st.frames]:
            return mk('lam', mk('case', mk('conds'), mk('call', 'rec:' + short(fn), None, *bound)))
        if fn.is_closure:
            # closures whose parameter is a tuple get it as one argument
            pass
        s2 = st.fork()
        uid = fr.uid + ((fr.block, 'lam%d' % d, fn.name[-30:]),)
        argv = bound[:len(fn.args) - (1 if fn.is_closure else 0)]
        if fn.is_closure:
            selfty = fn.locals[fn.args[0]]
            if selfty.strip().startswith('&'):
                if clo.op == 'ref':
                    a0 = clo
                else:
                    root = ('L', uid, 'clo')
                    s2.store[root] = fv
                    a0 = mk('ref', root, (), True)
            else:
                a0 = fv
            argv = [a0] + argv
        self.inlined.add(fn.key)
        nc0 = len(st.clog)
        ne0 = len(st.events)
        self.lamdepth += 1
        base = len(s2.frames)
        self.push(s2, fn, argv, uid, None, 0, None)
        try:
            paths = self.explore(s2, base)
        finally:
            self.lamdepth -= 1
        cases = []
        news = {}
        effects = []
        for p in paths:
            tmp = State()
            tmp.store = p.store
            tmp.conds = p.conds
            tmp.clog = []
            tmp.events = []
            tmp.frames = []
            lits = p.clog[nc0:]
            cs = mk('conds', *[mk('lit', self.lit_term(c), v if not isinstance(v, frozenset) else ','.join(sorted(v))) for c, v in lits])
            if p.outcome == 'return':
                cases.append(mk('case', cs, self.snap(tmp, p.ret)))
            elif p.outcome == 'loop':
                cases.append(mk('case', cs, mk('const', 'loop')))
            else:
                cases.append(mk('case', cs, mk('const', 'panic')))
            for e in p.events[ne0:]:
                if e.kind in ('call', 'write', 'panic', 'drop', 'loop'):
                    st.events.append(Ev(e.kind, e.name, e.args, e.res, e.site, e.fn, lam=True, extra=e.extra, raw=e.raw))
            wr = {}
            effects.append((cs, p.outcome, cases[-1].a[1], wr))
            for root, nv in p.store.items():
                if root[0] == 'L' and root[1][:len(uid)] == uid:
                    continue
                ov = st.store.get(root)
                if ov is None and root[0] == 'O':
                    ov = root[1]
                if ov is None or ov is nv:
                    continue
                for path, n in self.vdiff(ov, nv, ()):
                    news.setdefault((root, path), []).append(n)
                    wr[(root, path)] = self.snap(tmp, n)
        for (root, path), ns in news.items():
            old = self.read(st, root, path)
            tmpv = []
            for n in ns:
                n = self.snap(st, n)
                if n not in tmpv:
                    tmpv.append(n)
            st.store[root] = self.update(st, self.root_get(st, root), path, mk('lammut', old, *tmpv))
        uniq = []
        for cse in cases:
            cse = shift_captured(cse, d)
            if cse not in uniq:
                uniq.append(cse)
        lam = mk('lam', *uniq)
        if any(w for _, _, _, w in effects):
            st.events.append(Ev('lam', fn.key, (), lam, None, fn, extra=effects))
        return lam

    def lit_term(self, c):
        return c

    # snapshot of an iterator chain, closures replaced by their summaries
    def iter_snap(self, st, it, fr, term, depth=0):
        it0 = it
        it = self.strip_ptr(st, it)
        o = it.op
        if o in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'flat_map', 'inspect', 'map_while'):
            src = self.iter_snap(st, it.a[0], fr, term)
            return mk(o, src, self.lam(st, it.a[1], 1, fr, term))
        if o == 'scan':
            src = self.iter_snap(st, it.a[0], fr, term)
            return mk(o, src, self.snap(st, it.a[1]), self.lam(st, it.a[2], 2, fr, term))
        if o in ('enumerate', 'rev', 'iter', 'flatten'):
            if o == 'iter':
                return self.snap(st, it)
            return mk(o, self.iter_snap(st, it.a[0], fr, term))
        if o in ('zip', 'chain', 'take', 'skip', 'step_by'):
            return mk(o, *[self.iter_snap(st, x, fr, term) for x in it.a])
        return self.snap(st, it)


IMPURE = {'get', 'put', 'now', 'lock', 'load', 'store', 'fetch_max', 'fetch_min', 'fetch_add', 'next', 'recv', 'send', 'spawn',
          'put_block', 'get_block', 'join', 'start_timer', 'elapsed', 'exchange_malloc', 'decompress_to_buffer', 'new_uninit'}


def short(fn):
    """Type::method or free name"""
    if fn.impl:
        if fn.trait:
            return '<%s as %s>::%s' % (fn.selfty, fn.trait, fn.method)
        return '%s::%s' % (fn.selfty, fn.method)
    if fn.is_closure:
        return fn.key.split('::', 1)[-1] if '::' in fn.key else fn.key
    if fn.traitdefault:
        return '%s::%s' % (fn.trait, fn.method)
    return fn.method


# --------------------------------------------------------------------------
# models of std functions
# --------------------------------------------------------------------------
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


@model(*TRANSPARENT_REF)
def m_transparent_ref(E, st, fr, term, c, args, work, done):
    if c.canon == 'IntoIterator::into_iter':
        return m_into_iter(E, st, fr, term, c, args, work, done)
    if not args:
        return None
    return E.ret(st, fr, term, args[0])


@model('RangeBounds::start_bound', 'RangeBounds::end_bound')
def m_range_bound(E, st, fr, term, c, args, work, done):
    v = E.snap(st, args[0])
    h = v.a[0].split('::')[-1] if v.op == 'agg' else ''
    if h not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
        return None
    s, e = agg_get(v, 'start'), agg_get(v, 'end')
    if c.canon.endswith('start_bound'):
        t = agg('Bound::Included', [('0', s)]) if s is not None else agg('Bound::Unbounded', [])
    else:
        t = agg('Bound::Excluded', [('0', e)]) if e is not None else agg('Bound::Unbounded', [])
    return E.ret(st, fr, term, t)


@model(*TRANSPARENT_VAL)
def m_transparent_val(E, st, fr, term, c, args, work, done):
    if len(args) != 1:
        return None
    if c.canon in ('From::from', 'Into::into') and 'Error' in (c.selfty or '') and not args:
        return None
    if c.canon in ('Into::into', 'From::from', 'Box::new', 'Arc::new', 'Box::pin', 'Mutex::new', 'RefCell::new', 'Iterator::cloned', 'Iterator::copied',
                   'Iterator::fuse', 'Iterator::peekable', 'IntoFuture::into_future'):
        v = args[0]
        if v.op == 'ref' and c.canon in ('Into::into', 'From::from'):
            v = E.snap(st, v)
        return E.ret(st, fr, term, v)
    v = args[0]
    # clone of a reference-to-place: value it points to (one level is enough for refs to values)
    if v.op == 'ref':
        w = E.read(st, v.a[0], v.a[1])
        if w.op == 'ref' and c.canon == 'Clone::clone':
            return E.ret(st, fr, term, E.snap(st, w) if not c.text.startswith('<&') else w)
        if w.op == 'agg' and w.a[0].startswith('[closure'):
            return E.ret(st, fr, term, w)
        return E.ret(st, fr, term, E.shallow(st, w) if hasattr(E, 'shallow') else E.snap(st, w))
    if v.op == 'optref':
        return E.ret(st, fr, term, E.snap(st, v))
    if v in E.mutslices and E.snap(st, v) is v:
        return E.ret(st, fr, term, mk('old', v))  # a copy of what is still there from the caller, not the place
    return E.ret(st, fr, term, E.snap(st, v) if v.op != 'iter' else v)


ITER_OPS = ('iter', 'map', 'filter', 'filter_map', 'enumerate', 'rev', 'zip', 'take', 'skip', 'take_while', 'skip_while', 'chain',
            'flat_map', 'flatten', 'scan', 'step_by', 'inspect', 'map_while')


def m_into_iter(E, st, fr, term, c, args, work, done):
    v = args[0]
    w = E.strip_ptr(st, v)
    if w.op in ITER_OPS:
        return E.ret(st, fr, term, v if v.op == 'ref' else w)
    ty = c.selfty or ''
    h = type_head(ty)
    if h in ('Vec', '[]', 'SmallVec', 'VecSet', 'BTreeSet', 'BTreeMap', 'HashMap', 'HashSet', 'VecDeque', 'Option', 'TagSet'):
        return E.ret(st, fr, term, mk('iter', v))
    return E.ret(st, fr, term, v)


@model(*[x for x in ITER_SRC if x != 'IntoIterator::into_iter'])
def m_iter(E, st, fr, term, c, args, work, done):
    if len(args) != 1:
        return None
    return E.ret(st, fr, term, mk('iter', args[0]))


for _n, _o in LAZY.items():
    def _mkl(o):
        def f(E, st, fr, term, c, args, work, done):
            if c.trait != 'Iterator' and c.trait != 'DoubleEndedIterator':
                return None
            return E.ret(st, fr, term, mk(o, *args))
        return f
    MODELS['Iterator::' + _n] = _mkl(_o)


@model(*['Iterator::' + x for x in CONSUMERS] + ['FromIterator::from_iter', 'DoubleEndedIterator::rposition', 'DoubleEndedIterator::rfind'])
def m_consume(E, st, fr, term, c, args, work, done):
    name = c.method
    if name in ('from_iter',):
        name = 'collect'
    snaps = []
    it = args[0]
    w = E.strip_ptr(st, it)
    its = E.iter_snap(st, it, fr, term)
    fr = st.frames[-1]
    extra = []
    if name in ('any', 'all', 'position', 'find', 'for_each', 'find_map', 'rposition', 'min_by_key', 'max_by_key', 'partition'):
        extra = [E.lam(st, args[1], 1, fr, term)]
    elif name in ('fold', 'try_fold'):
        extra = [E.snap(st, args[1]), E.lam(st, args[2], 2, fr, term)]
    elif name == 'reduce':
        extra = [E.lam(st, args[1], 2, fr, term)]
    else:
        extra = [E.snap(st, a) for a in args[1:]]
    mutated = it.op == 'ref' and it.a[2]
    u = (fr.uid, fr.block) if mutated else None
    if name == 'collect':
        ty = E.place_ty(fr, term[1])
        if type_head(ty) in ('Option', 'Result'):
            name = 'collect_' + type_head(ty)
    res = mk('call', name, u, its, *extra)
    if name == 'all':
        # all(p) == !any(!p)
        res = E.neg(mk('call', 'any', u, its, neg_lam(E, extra[0])))
    st.events.append(Ev('call', c.canon, tuple([its] + extra), res, term[5], fr.fn, raw=tuple(args), extra=c))
    if mutated:
        E.write(st, it.a[0], it.a[1], mk('mut', c.canon, u, 0, E.snap(st, w)), term[5], fr.fn, log=False)
    return E.ret(st, fr, term, res)


def neg_lam(E, lam):
    if lam.op != 'lam':
        return mk('neglam', lam)
    return rebuild(lam, [mk('case', x.a[0], E.neg(x.a[1])) if isinstance(x, T) and x.op == 'case' else x for x in lam.a])


@model('Extend::extend', 'Vec::extend_from_slice')
def m_extend(E, st, fr, term, c, args, work, done):
    its = E.iter_snap(st, args[1], fr, term)
    fr = st.frames[-1]
    root, path = E.deref(args[0])
    old = E.snap(st, E.read(st, root, path))
    u = (fr.uid, fr.block)
    nv = mk('mut', 'extend', u, 0, old, its)
    st.events.append(Ev('call', 'extend', (old, its), nv, term[5], fr.fn, raw=tuple(args), extra=c))
    E.write(st, root, path, nv, term[5], fr.fn, log=False)
    return E.ret(st, fr, term, UNIT)


# next() on lazily mapped iterators ------------------------------------------------
@model('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(E, st, fr, term, c, args, work, done):
    p = args[0]
    it = E.strip_ptr(st, p)
    back = c.method == 'next_back'
    root, path = E.deref(p)
    return next_on(E, st, fr, term, it, root, path, back, None, work, done, 0)


def phi_base(it):
    """iterator structure below phis / next-mutations"""
    seen = 0
    while seen < 50:
        seen += 1
        if it.op == 'phi':
            it = it.a[2]
        elif it.op == 'mut' and it.a[0] in ('Iterator::next', 'DoubleEndedIterator::next_back'):
            it = it.a[3]
        else:
            break
    return it


def next_on(E, st, fr, term, it, root, path, back, post, work, done, depth):
    base = phi_base(it)
    u = (fr.uid, fr.block, depth)
    name = 'DoubleEndedIterator::next_back' if back else 'Iterator::next'
    if base.op in ('map', 'filter', 'enumerate', 'zip', 'filter_map') and depth < 4:
        src = base.a[0]
        ph = it if it.op == 'phi' or it.op == 'mut' else None
        item = mk('call', name, u, E.snap(st, mk('iter0', it) if False else strip_clo(it)))
    inner = base
    clos = []
    # peel adaptors
    while inner.op in ('map', 'enumerate', 'rev', 'filter', 'filter_map', 'zip', 'inspect') and len(clos) < 6:
        clos.append((inner.op, inner.a[1] if len(inner.a) > 1 else None))
        inner = E.strip_ptr(st, inner.a[0])
        inner = phi_base(inner)
    src = E.snap(st, inner)
    src = strip_clo(src)
    if sum(1 for o, _ in clos if o == 'rev') % 2:
        name = 'DoubleEndedIterator::next_back' if not back else 'Iterator::next'
    res = mk('call', name, u, src)
    # mutate the iterator variable
    E.write(st, root, path, mk('mut', name, u, 0, it), term[5], fr.fn, log=False)
    st.events.append(Ev('call', name, (src,), res, term[5], fr.fn, raw=(it,)))
    if not clos:
        if it.op == 'ref':
            pass
        return E.post_ret(st, fr, term, res, post, work)
    pos, neg = E.fork_variant(st, res, 'Some', 'None')
    ok = False
    if neg is not None:
        f2 = neg.frames[-1]
        E.ret(neg, f2, term, NONE)
        if neg is st:
            ok = True
        else:
            work.append(neg)
    if pos is None:
        return ok
    f2 = pos.frames[-1]
    item = mk('fld', res, 'Some.0')
    vals = list(reversed(clos))
    r = apply_adaptors(E, pos, f2, term, item, vals, u, work, done)
    if pos is st:
        return r
    if r:
        work.append(pos)
    return ok


def apply_adaptors(E, st, fr, term, item, adaptors, u, work, done):
    i = 0
    idx = 'idx'     # counter from the front of the underlying list; behind a `rev` it counts from the back
    while i < len(adaptors):
        op, arg = adaptors[i]
        if op == 'rev':
            idx = 'ridx' if idx == 'idx' else 'idx'
        elif op == 'enumerate':
            item = agg('()', [('0', mk(idx, item)), ('1', item)])
        elif op == 'zip':
            other = E.strip_ptr(st, arg)
            ob = phi_base(other)
            osn = strip_clo(E.snap(st, ob))
            item = agg('()', [('0', item), ('1', mk('zipitem', osn, mk(idx, item)))])
        elif op == 'map':
            rest = adaptors[i + 1:]

            def post(s, v, rest=rest, idx=idx):
                return finish_adapt(E, s, v, rest, term, idx)
            return E.invoke_term(st, fr, term, arg, [item], post, work, done, 'map%d' % i)
        elif op in ('filter', 'filter_map', 'inspect'):
            # element satisfies the predicate; the skipped ones are invisible
            if op == 'filter':
                lam = E.lam(st, arg, 1, fr, term)
                fr = st.frames[-1]
                st.conds[mk('filtered', lam, item)] = True
                st.clog.append((mk('filtered', lam, item), True))
            elif op == 'filter_map':
                lam = E.lam(st, arg, 1, fr, term)
                fr = st.frames[-1]
                item = mk('fld', mk('applam', lam, item), 'Some.0')
        i += 1
    return E.ret(st, fr, term, Some(item))


def finish_adapt(E, s, v, rest, term, idx='idx'):
    for op, arg in rest:
        if op == 'rev':
            idx = 'ridx' if idx == 'idx' else 'idx'
        elif op == 'enumerate':
            v = agg('()', [('0', mk(idx, v)), ('1', v)])
        elif op == 'zip':
            other = E.strip_ptr(s, arg)
            v = agg('()', [('0', v), ('1', mk('zipitem', strip_clo(E.snap(s, phi_base(other))), mk(idx, v)))])
    return Some(v)


def strip_clo(t):
    return t


# Option / Result ---------------------------------------------------------------
@model('Option::is_some', 'Result::is_ok')
def m_is_pos(E, st, fr, term, c, args, work, done):
    x = E.discval(E.snap1(st, args[0]))
    var = 'Some' if c.method == 'is_some' else 'Ok'
    v = E.variant(x)
    if v is not None:
        return E.ret(st, fr, term, BOOL(v == var))
    return E.ret(st, fr, term, mk('is', x, var))


@model('Option::is_none', 'Result::is_err')
def m_is_neg(E, st, fr, term, c, args, work, done):
    x = E.discval(E.snap1(st, args[0]))
    var = 'Some' if c.method == 'is_none' else 'Ok'
    v = E.variant(x)
    if v is not None:
        return E.ret(st, fr, term, BOOL(v != var))
    return E.ret(st, fr, term, mk('not', mk('is', x, var)))


def _snap1(self, st, v):
    """value behind (possibly several) pointers, inner pointers kept"""
    n = 0
    while n < 10:
        n += 1
        if v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
            continue
        w = st.store.get(('O', v))
        if w is not None and w is not v:
            v = w
            continue
        break
    return v


Engine.snap1 = _snap1


@model('Try::branch')
def m_branch(E, st, fr, term, c, args, work, done):
    x = args[0]
    isopt = type_head(c.selfty or '') == 'Option'
    posv, negv = ('Some', 'None') if isopt else ('Ok', 'Err')
    pos, neg = E.fork_variant(st, x, posv, negv)
    cont = False
    for s, isp in ((pos, True), (neg, False)):
        if s is None:
            continue
        f2 = s.frames[-1]
        if isp:
            v = agg('ControlFlow::Continue', [('0', E.proj(s, x, posv + '.0'))])
        else:
            e = NONE if isopt else Err(E.proj(s, x, 'Err.0'))
            v = agg('ControlFlow::Break', [('0', e)])
        E.ret(s, f2, term, v)
        if s is st:
            cont = True
        else:
            work.append(s)
    return cont


@model('FromResidual::from_residual')
def m_residual(E, st, fr, term, c, args, work, done):
    x = args[0]
    h = type_head(c.selfty or '')
    if h == 'Option':
        return E.ret(st, fr, term, NONE)
    if x.op == 'agg' and x.a[0] == 'Result::Err':
        return E.ret(st, fr, term, x)
    return E.ret(st, fr, term, Err(E.proj(st, x, 'Err.0')))


@model('Try::from_output')
def m_from_output(E, st, fr, term, c, args, work, done):
    h = type_head(c.selfty or '')
    return E.ret(st, fr, term, Some(args[0]) if h == 'Option' else Ok(args[0]))


def _payload(E, st, x, var):
    return E.proj(st, x, var + '.0')


def _combinator(E, st, fr, term, args, work, done, posv, negv, on_pos, on_neg):
    """fork on the variant of args[0] and run the handlers (s, frame) -> bool"""
    x = args[0]
    x1 = x
    if x.op == 'ref':
        x1 = E.read(st, x.a[0], x.a[1])
    pos, neg = E.fork_variant(st, x1, posv, negv)
    cont = False
    for s, h in ((pos, on_pos), (neg, on_neg)):
        if s is None:
            continue
        f2 = s.frames[-1]
        r = h(s, f2, x1)
        if r:
            if s is st:
                cont = True
            else:
                work.append(s)
    return cont


def VAR(c):
    if c.selfhead == 'Option' or type_head(c.selfty or '') == 'Option':
        return 'Some', 'None'
    return 'Ok', 'Err'


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def m_unwrap(E, st, fr, term, c, args, work, done):
    pv, nv = VAR(c)
    x = args[0]
    t = E.is_variant(st, E.discval(x), pv)
    if t is not True:
        st.events.append(Ev('unwrap', c.canon, (E.snap(st, x),), None, term[5], fr.fn))
    if t is False:
        done.append(Path('panic', None, st, E, site=term[5]))
        return False
    E.assume_variant(st, E.discval(x), pv, True)
    return E.ret(st, fr, term, E.proj(st, x, pv + '.0'))


@model('bool::then', 'bool::then_some')
def m_then(E, st, fr, term, c, args, work, done):
    s2 = st.fork()
    a, b = E.truth_ok(st, args[0], True), E.truth_ok(s2, args[0], False)
    cont = False
    if a:
        if c.method == 'then_some':
            cont = E.ret(st, st.frames[-1], term, Some(args[1]))
        else:
            cont = E.invoke_term(st, st.frames[-1], term, args[1], [], lambda s, v: Some(v), work, done)
    if b and E.ret(s2, s2.frames[-1], term, NONE):
        work.append(s2)
    return cont


@model('Result::unwrap_err', 'Result::expect_err')
def m_unwrap_err(E, st, fr, term, c, args, work, done):
    return E.ret(st, fr, term, E.proj(st, args[0], 'Err.0'))


@model('Option::map', 'Result::map', 'Result::map_err', 'Option::and_then', 'Result::and_then', 'Option::unwrap_or_else',
       'Result::unwrap_or_else', 'Option::or_else', 'Result::or_else', 'Option::map_or', 'Option::map_or_else', 'Result::map_or',
       'Option::ok_or_else', 'Option::filter', 'Option::is_some_and', 'Result::is_ok_and', 'Option::is_none_or')
def m_comb(E, st, fr, term, c, args, work, done):
    pv, nv = VAR(c)
    m = c.method
    wrap = Some if pv == 'Some' else Ok

    def negval(s, x):
        return NONE if pv == 'Some' else Err(E.proj(s, x, 'Err.0'))

    def posval(s, x):
        return E.proj(s, x, pv + '.0')
    if m == 'map':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [posval(s, x)], lambda s2, v: wrap(v), work, done),
                           lambda s, f, x: E.ret(s, f, term, negval(s, x)))
    if m == 'map_err':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, Ok(posval(s, x))),
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [E.proj(s, x, 'Err.0')], lambda s2, v: Err(v), work, done))
    if m == 'and_then':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [posval(s, x)], None, work, done),
                           lambda s, f, x: E.ret(s, f, term, negval(s, x)))
    if m in ('is_some_and', 'is_ok_and', 'is_none_or'):
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [posval(s, x)], None, work, done),
                           lambda s, f, x: E.ret(s, f, term, BOOL(m == 'is_none_or')))
    if m == 'unwrap_or_else':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, posval(s, x)),
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [] if pv == 'Some' else [E.proj(s, x, 'Err.0')], None, work, done))
    if m == 'or_else':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, wrap(posval(s, x))),
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [] if pv == 'Some' else [E.proj(s, x, 'Err.0')], None, work, done))
    if m == 'map_or':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.invoke_term(s, f, term, args[2], [posval(s, x)], None, work, done),
                           lambda s, f, x: E.ret(s, f, term, args[1]))
    if m == 'map_or_else':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.invoke_term(s, f, term, args[2], [posval(s, x)], None, work, done, 'c1'),
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [] if pv == 'Some' else [E.proj(s, x, 'Err.0')], None, work, done, 'c0'))
    if m == 'ok_or_else':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, Ok(posval(s, x))),
                           lambda s, f, x: E.invoke_term(s, f, term, args[1], [], lambda s2, v: Err(v), work, done))
    if m == 'filter':
        def onp(s, f, x):
            def post(s2, b):
                t = E.truth(s2, b)
                if t is True:
                    return Some(posval(s2, x))
                if t is False:
                    return NONE
                s3 = s2.fork()
                out = []
                if E.assume(s2, b, True):
                    out.append((s2, Some(posval(s2, x))))
                if E.assume(s3, b, False):
                    out.append((s3, NONE))
                return out
            return E.invoke_term(s, f, term, args[1], [posval(s, x)], post, work, done)
        return _combinator(E, st, fr, term, args, work, done, pv, nv, onp, lambda s, f, x: E.ret(s, f, term, NONE))
    return None


@model('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_default', 'Result::unwrap_or_default', 'Option::ok_or',
       'Result::ok', 'Result::err', 'Option::or', 'Option::xor_')
def m_comb2(E, st, fr, term, c, args, work, done):
    pv, nv = VAR(c)
    m = c.method

    def posval(s, x):
        return E.proj(s, x, pv + '.0')
    if m == 'unwrap_or':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, posval(s, x)), lambda s, f, x: E.ret(s, f, term, args[1]))
    if m == 'unwrap_or_default':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, posval(s, x)),
                           lambda s, f, x: E.ret(s, f, term, default_of(E.place_ty(f, term[1]))))
    if m == 'ok_or':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, Ok(posval(s, x))), lambda s, f, x: E.ret(s, f, term, Err(args[1])))
    if m == 'ok':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, Some(posval(s, x))), lambda s, f, x: (s.events.append(Ev('errdrop', 'Result::ok', (E.snap(s, x),), None, term[5], f.fn)), E.ret(s, f, term, NONE))[1])
    if m == 'err':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, NONE), lambda s, f, x: E.ret(s, f, term, Some(E.proj(s, x, 'Err.0'))))
    if m == 'or':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: E.ret(s, f, term, Some(posval(s, x))), lambda s, f, x: E.ret(s, f, term, args[1]))
    return None


def _fork2(E, s, f, work, y, pos, neg, on_pos, on_neg):
    """second fork inside a combinator handler"""
    r = False
    for s2, h in zip(E.fork_variant(s, y, pos, neg), (on_pos, on_neg)):
        if s2 is None:
            continue
        k = h(s2, s2.frames[-1])
        if k and s2 is s:
            r = True
        elif k:
            work.append(s2)
    return r


@model('Option::transpose', 'Result::transpose', 'Option::flatten', 'Option::and', 'Result::and', 'Option::zip')
def m_comb3(E, st, fr, term, c, args, work, done):
    pv, nv = VAR(c)
    m = c.method
    pay = lambda s, x, v: E.proj(s, x, v + '.0')
    if m == 'transpose' and pv == 'Some':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: _fork2(E, s, f, work, pay(s, x, 'Some'), 'Ok', 'Err',
                                                  lambda s2, f2: E.ret(s2, f2, term, Ok(Some(pay(s2, pay(s2, x, 'Some'), 'Ok')))),
                                                  lambda s2, f2: E.ret(s2, f2, term, Err(pay(s2, pay(s2, x, 'Some'), 'Err')))),
                           lambda s, f, x: E.ret(s, f, term, Ok(NONE)))
    if m == 'transpose':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: _fork2(E, s, f, work, pay(s, x, 'Ok'), 'Some', 'None',
                                                  lambda s2, f2: E.ret(s2, f2, term, Some(Ok(pay(s2, pay(s2, x, 'Ok'), 'Some')))),
                                                  lambda s2, f2: E.ret(s2, f2, term, NONE)),
                           lambda s, f, x: E.ret(s, f, term, Some(Err(pay(s, x, 'Err')))))
    if m == 'flatten':
        return _combinator(E, st, fr, term, args, work, done, pv, nv, lambda s, f, x: E.ret(s, f, term, pay(s, x, 'Some')), lambda s, f, x: E.ret(s, f, term, NONE))
    if m == 'and':
        return _combinator(E, st, fr, term, args, work, done, pv, nv, lambda s, f, x: E.ret(s, f, term, args[1]),
                           lambda s, f, x: E.ret(s, f, term, NONE if pv == 'Some' else Err(pay(s, x, 'Err'))))
    if m == 'zip':
        return _combinator(E, st, fr, term, args, work, done, pv, nv,
                           lambda s, f, x: _fork2(E, s, f, work, args[1], 'Some', 'None',
                                                  lambda s2, f2: E.ret(s2, f2, term, Some(agg('()', [('0', pay(s2, x, 'Some')), ('1', pay(s2, args[1], 'Some'))]))),
                                                  lambda s2, f2: E.ret(s2, f2, term, NONE)),
                           lambda s, f, x: E.ret(s, f, term, NONE))
    return None


def default_of(ty):
    h = type_head(ty)
    if re.fullmatch(r"[ui](\d+|size)", ty.strip()):
        return INT(0)
    if h == 'bool':
        return FALSE
    if h == 'Option':
        return NONE
    if h in ('Vec', 'SmallVec', 'BTreeSet', 'BTreeMap', 'VecSet', 'HashSet'):
        return mk('call', 'empty', None)
    return mk('call', 'default', None, mk('const', h))


@model('Default::default', 'Vec::new', 'BTreeSet::new', 'BTreeMap::new', 'SmallVec::new', 'Vec::with_capacity', 'SmallVec::with_capacity', 'VecSet::empty')
def m_default(E, st, fr, term, c, args, work, done):
    if c.trait == 'Default':
        ty = c.selfty or '?'
        h = type_head(ty)
        if h in ('String',) or re.fullmatch(r"[ui](\d+|size)", ty.strip()) or h in ('bool', 'Option', 'Vec', 'SmallVec', 'BTreeSet', 'BTreeMap', 'VecSet'):
            return E.ret(st, fr, term, default_of(ty))
        return None
    return E.ret(st, fr, term, mk('call', 'empty', None))


@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut', 'Result::as_ref', 'Result::as_mut')
def m_optref(E, st, fr, term, c, args, work, done):
    p = args[0]
    var = 'Ok' if c.selfhead == 'Result' else 'Some'
    if p.op == 'ref':
        root, path = p.a[0], p.a[1]
    else:
        root, path = ('O', p), ()
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
        v = E.read(st, root, path)
    if v.op == 'agg':
        if E.variant(v) == var:
            return E.ret(st, fr, term, agg(v.a[0], [('0', mk('ref', root, path + (var + '.0',), c.method.endswith('mut')))]))
        return E.ret(st, fr, term, v)
    if var == 'Ok':
        return E.ret(st, fr, term, v)
    return E.ret(st, fr, term, mk('optref', v, mk('ref', root, path + ('Some.0',), c.method.endswith('mut'))))


@model('Option::take', 'mem::take', 'mem::replace', 'Option::replace', 'Option::insert', 'Option::get_or_insert_with_')
def m_take(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
        v = E.read(st, root, path)
    if c.method == 'take' and c.selfhead == 'Option':
        E.write(st, root, path, NONE, term[5], fr.fn)
        return E.ret(st, fr, term, v)
    if c.canon == 'mem::take':
        E.write(st, root, path, default_of(E.place_ty(fr, term[1])), term[5], fr.fn)
        return E.ret(st, fr, term, v)
    if c.canon == 'mem::replace':
        E.write(st, root, path, args[1], term[5], fr.fn)
        return E.ret(st, fr, term, v)
    if c.method == 'replace':
        E.write(st, root, path, Some(args[1]), term[5], fr.fn)
        return E.ret(st, fr, term, v)
    if c.method == 'insert':
        E.write(st, root, path, Some(args[1]), term[5], fr.fn)
        return E.ret(st, fr, term, mk('ref', root, path + ('Some.0',), True))
    return None


@model('mem::drop', 'drop')
def m_drop(E, st, fr, term, c, args, work, done):
    st.events.append(Ev('drop', 'mem::drop', (E.snap(st, args[0]),), None, term[5], fr.fn))
    return E.ret(st, fr, term, UNIT)


@model('IndexMut::index_mut', 'Index::index')
def m_index(E, st, fr, term, c, args, work, done):
    i = args[1]
    isr = E.snap(st, i)
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
        v = E.read(st, root, path)
    st.events.append(Ev('index', c.canon, (E.snap(st, v), isr), None, term[5], fr.fn))
    if 'Range' in c.text or (isr.op == 'agg' and isr.a[0].startswith('Range')):
        if c.method == 'index':
            return E.ret(st, fr, term, mk('call', 'slice', None, E.snap(st, v), isr))
        return E.ret(st, fr, term, mk('ref', root, path + ('[r%d]' % isr.id,), True))
    E._idx['[%d]' % isr.id] = isr
    return E.ret(st, fr, term, mk('ref', root, path + ('[%d]' % isr.id,), c.method == 'index_mut'))


@model('slice::last_mut', 'slice::last', 'slice::first', 'slice::first_mut', 'slice::get_mut', 'slice::get')
def m_last(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
        v = E.read(st, root, path)
    nm = c.method.replace('_mut', '')
    sn = E.snap(st, v)
    if nm == 'get':
        isr = E.snap(st, args[1])
        key = '[%d]' % isr.id
        E._idx[key] = isr
        call = mk('call', 'slice::get', None, sn, isr)
    else:
        key = '[%s]' % nm
        call = mk('call', 'slice::' + nm, None, sn)
    st.events.append(Ev('call', c.canon, tuple(E.snap(st, a) for a in args), call, term[5], fr.fn, raw=tuple(args), extra=c))
    return E.ret(st, fr, term, mk('optref', call, mk('ref', root, path + (key,), c.method.endswith('_mut'))))


@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_call_closure(E, st, fr, term, c, args, work, done):
    tup = args[1]
    a = []
    if tup.op == 'agg':
        a = [f.a[1] for f in tup.a[1:]]
    else:
        a = [E.proj(st, tup, '0')]
    return E.invoke_term(st, fr, term, args[0], a, None, work, done)


@model('LocalKey::with')
def m_localkey(E, st, fr, term, c, args, work, done):
    obj = mk('call', 'thread_local', None, E.snap(st, args[0]))
    return E.invoke_term(st, fr, term, args[1], [mk('ref', ('O', obj), (), True)], None, work, done)


@model('PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_cmp(E, st, fr, term, c, args, work, done):
    if c.selfhead in ('Level', 'LevelFilter') and c.method == 'le':
        return E.ret(st, fr, term, FALSE)
    a, b = E.snap(st, args[0]), E.snap(st, args[1])
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.method]
    va, vb = E.variant(a), E.variant(b)
    if op in ('Eq', 'Ne') and va is not None and vb is not None and len(a.a) == 1 and len(b.a) == 1:
        return E.ret(st, fr, term, BOOL((va == vb) == (op == 'Eq')))
    # comparison with a field-less enum value is a variant test
    if op in ('Eq', 'Ne') and vb is not None and len(b.a) == 1:
        r = mk('is', a, vb)
        t = E.is_variant(st, a, vb)
        if t is not None:
            r = BOOL(t)
        return E.ret(st, fr, term, r if op == 'Eq' else E.neg(r))
    return E.ret(st, fr, term, E.binop(op, a, b))


@model('MacroCallsite::is_enabled', 'Span::is_disabled')
def m_false(E, st, fr, term, c, args, work, done):
    return E.ret(st, fr, term, FALSE)


@model('Vec::len', 'slice::len', 'SmallVec::len', 'Box::len', 'str::len', 'String::len')
def m_len(E, st, fr, term, c, args, work, done):
    return E.ret(st, fr, term, mk('call', 'len', None, E.snap(st, args[0])))


@model('Vec::is_empty', 'slice::is_empty', 'SmallVec::is_empty', 'str::is_empty', 'String::is_empty')
def m_isempty(E, st, fr, term, c, args, work, done):
    return E.ret(st, fr, term, mk('call', 'is_empty', None, E.snap(st, args[0])))


@model('Ord::min', 'cmp::min', 'Ord::max', 'cmp::max')
def m_minmax(E, st, fr, term, c, args, work, done):
    a, b = E.snap(st, args[0]), E.snap(st, args[1])
    if a.op == 'int' and b.op == 'int':
        return E.ret(st, fr, term, INT(min(a.a[0], b.a[0]) if c.method == 'min' else max(a.a[0], b.a[0])))
    if b.id < a.id:
        a, b = b, a
    return E.ret(st, fr, term, mk('call', c.method, None, a, b))


@model('BitOrAssign::bitor_assign', 'BitAndAssign::bitand_assign', 'AddAssign::add_assign', 'SubAssign::sub_assign')
def m_opassign(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    op = {'bitor_assign': 'BitOr', 'bitand_assign': 'BitAnd', 'add_assign': 'Add', 'sub_assign': 'Sub'}[c.method]
    E.write(st, root, path, E.binop(op, E.snap(st, v), E.snap(st, args[1])), term[5], fr.fn)
    return E.ret(st, fr, term, UNIT)


@model('Add::add', 'Sub::sub', 'Mul::mul')
def m_arith(E, st, fr, term, c, args, work, done):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[c.method]
    return E.ret(st, fr, term, E.binop(op, E.snap(st, args[0]), E.snap(st, args[1])))


@model('num::checked_add', 'u64::checked_add', 'usize::checked_add', 'u32::checked_add', 'u64::checked_sub', 'usize::checked_sub',
       'u64::saturating_add', 'u64::saturating_sub', 'u64::wrapping_add', 'u64::wrapping_sub', 'usize::saturating_sub', 'usize::saturating_add',
       'usize::wrapping_add', 'i32::max_value', 'u32::max_value', 'u64::max_value')
def m_num(E, st, fr, term, c, args, work, done):
    if c.method == 'max_value':
        t = c.selfhead or 'u64'
        bits = int(re.sub(r"\D", '', t) or 64)
        return E.ret(st, fr, term, INT((1 << (bits - (1 if t.startswith('i') else 0))) - 1))
    a, b = E.snap(st, args[0]), E.snap(st, args[1])
    if c.method.endswith('add') and b.id < a.id:
        a, b = b, a
    return E.ret(st, fr, term, mk('call', c.method, None, a, b))


@model('Not::not')
def m_not(E, st, fr, term, c, args, work, done):
    return E.ret(st, fr, term, E.neg(E.snap(st, args[0])))


@model('anyhow::Ok', 'Ok')
def m_ok(E, st, fr, term, c, args, work, done):
    return E.ret(st, fr, term, Ok(args[0]))


@model('Vec::push', 'SmallVec::push', 'VecDeque::push_back')
def m_push(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
        v = E.read(st, root, path)
    val = E.snap(st, args[1])
    old = E.snap(st, v)
    nv = mk('mut', 'push', None, 0, old, val)
    st.events.append(Ev('call', 'push', (old, val), UNIT, term[5], fr.fn, raw=tuple(args), extra=c))
    E.write(st, root, path, nv, term[5], fr.fn, log=False)
    return E.ret(st, fr, term, UNIT)


@model('Vec::pop', 'SmallVec::pop')
def m_pop(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
        v = E.read(st, root, path)
    old = E.snap(st, v)
    res = mk('call', 'slice::last', None, old)
    st.events.append(Ev('call', 'pop', (old,), res, term[5], fr.fn, raw=tuple(args), extra=c))
    E.write(st, root, path, mk('mut', 'pop', None, 0, old), term[5], fr.fn, log=False)
    # the popped element keeps updates made through last_mut()
    el = None
    if v.op == 'upd' and v.a[1] == '[last]':
        el = v.a[2]
    pos, neg = E.fork_variant(st, res, 'Some', 'None')
    cont = False
    for s, isp in ((pos, True), (neg, False)):
        if s is None:
            continue
        f2 = s.frames[-1]
        E.ret(s, f2, term, Some(el if el is not None else E.proj(s, old, '[last]')) if isp else NONE)
        if s is st:
            cont = True
        else:
            work.append(s)
    return cont


@model('Vec::clear', 'SmallVec::clear')
def m_clear(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.read(st, root, path)
    if v.op == 'ref':
        root, path = v.a[0], v.a[1]
    st.events.append(Ev('call', 'clear', (E.snap(st, v),), UNIT, term[5], fr.fn, raw=tuple(args), extra=c))
    E.write(st, root, path, mk('call', 'empty', None), term[5], fr.fn, log=False)
    return E.ret(st, fr, term, UNIT)


@model('Peekable::peek')
def m_peek(E, st, fr, term, c, args, work, done):
    root, path = E.deref(args[0])
    v = E.snap(st, E.read(st, root, path))
    return E.ret(st, fr, term, mk('call', 'peek', None, v))
