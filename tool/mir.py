"""Parser for rustc's textual MIR (`-Zunpretty=mir`), plus source-derived tables
(impl headers, struct field names, enum variants).

Everything here is structure only: no property knowledge."""
import os
import re

CMT = re.compile(r"\s*// (?:scope \d+ at|in scope \d+ at|return place in scope|mir::Constant|\+ (?:span|literal|user_ty|val)).*$")
SITE = re.compile(r"// (?:scope \d+ at|in scope \d+ at|return place in scope \d+ at) (\S+?):(\d+):\d+: \d+:\d+")


# --------------------------------------------------------------------------
# bracket aware scanning
# --------------------------------------------------------------------------
def skip_string(s, i):
    """s[i] == '"'; return index after the closing quote."""
    i += 1
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            i += 2
            continue
        if c == '"':
            return i + 1
        i += 1
    return n


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def scan_top(s, i, stops):
    """advance from i until a char in `stops` at bracket depth 0; returns index (or len)."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == '\\' and "'" in s[i + 2:i + 12])):
            # char literal
            j = s.index("'", i + 2 if s[i + 1] != '\\' else i + 3) if s[i + 1] == '\\' else i + 2
            i = j + 1
            continue
        if depth == 0 and c in stops:
            return i
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
            if depth < 0:
                return i
        i += 1
    return n


def split_top(s, sep=','):
    out = []
    i = 0
    n = len(s)
    while i < n:
        j = scan_top(s, i, sep)
        part = s[i:j].strip()
        if part:
            out.append(part)
        if j < n and s[j] != sep:
            # unbalanced: bail
            break
        i = j + 1
    return out


# --------------------------------------------------------------------------
# places / operands / rvalues
# --------------------------------------------------------------------------
# place: ('place', local:int, [proj...]); proj: ('*',) ('f', n, type) ('v', variant) ('i', local) ('ci', text)
class P:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ':
            self.i += 1

    def place(self):
        self.ws()
        s = self.s
        if s[self.i] == '_':
            m = re.compile(r"_(\d+)").match(s, self.i)
            if not m:
                raise ValueError('place? ' + s[self.i:self.i + 80])
            self.i = m.end()
            pl = ('place', int(m.group(1)), ())
        elif s[self.i] == '(':
            self.i += 1
            if s[self.i] == '*':
                self.i += 1
                inner = self.place()
                assert s[self.i] == ')', s[self.i - 10:self.i + 40]
                self.i += 1
                pl = (inner[0], inner[1], inner[2] + (('*',),))
            else:
                inner = self.place()
                if s.startswith(' as ', self.i):
                    j = scan_top(s, self.i + 4, ')')
                    v = s[self.i + 4:j]
                    self.i = j + 1
                    pl = (inner[0], inner[1], inner[2] + (('v', v),))
                elif s[self.i] == '.':
                    m = re.compile(r"\.(\d+): ").match(s, self.i)
                    j = scan_top(s, m.end(), ')')
                    ty = s[m.end():j]
                    self.i = j + 1
                    pl = (inner[0], inner[1], inner[2] + (('f', int(m.group(1)), ty),))
                else:
                    raise ValueError('place? ' + s)
        else:
            raise ValueError('place? ' + s[self.i:self.i + 80])
        while self.i < len(s) and s[self.i] == '[':
            j = s.index(']', self.i)
            idx = s[self.i + 1:j]
            self.i = j + 1
            m = re.fullmatch(r"_(\d+)", idx)
            if m:
                pr = ('i', int(m.group(1)))
            else:
                pr = ('ci', idx)
            pl = (pl[0], pl[1], pl[2] + (pr,))
        return pl


def parse_place(s):
    p = P(s)
    pl = p.place()
    if p.i != len(s.rstrip()):
        raise ValueError('trailing in place: ' + s)
    return pl


def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('use', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('use', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r"(_\d|\(+(\*|_\d))", s):
        try:
            return ('use', parse_place(s))
        except ValueError:
            pass
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le',
          'Ne', 'Ge', 'Gt', 'Offset', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}
UNOPS = {'Not', 'Neg'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&/*tls*/') or s.startswith('&/*'):
        return ('op', ('const', s))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:]))
    if s.startswith('&raw '):
        m = re.match(r"&raw (mut|const) (.*)$", s)
        return ('ref', m.group(1) == 'mut', parse_place(m.group(2)))
    if s.startswith('&'):
        t = s[1:]
        if t.startswith('(fake) '):
            t = t[7:]
        return ('ref', False, parse_place(t))
    if s.startswith('deref_copy '):
        return ('op', ('use', parse_place(s[11:])))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('discriminant('):
        return ('disc', parse_place(s[13:-1]))
    m = re.match(r"([A-Z][A-Za-z]+)\(", s)
    if m and s.endswith(')'):
        if m.group(1) in BINOPS:
            a, b = split_top(s[m.end():-1])
            return ('bin', m.group(1), parse_operand(a), parse_operand(b))
        if m.group(1) in UNOPS:
            return ('un', m.group(1), parse_operand(s[m.end():-1]))
        if m.group(1) in ('ShallowInitBox',):
            return ('op', parse_operand(split_top(s[m.end():-1])[0]))
        if m.group(1) in ('SizeOf', 'AlignOf'):
            return ('op', ('const', s))
    # cast: OPERAND as TYPE (Kind)
    m = re.match(r"^(.*) as (.*) \((\w+(?:\(.*\))?)\)$", s)
    if m and re.match(r"(move |const |copy |_\d|\()", s):
        opnd = m.group(1)
        # need the split at the top level
        j = 0
        parts = None
        idx = find_top_as(s)
        if idx is not None:
            opnd = s[:idx]
            rest = s[idx + 4:]
            k = rest.rindex(' (')
            return ('cast', parse_operand(opnd), rest[:k], rest[k + 2:-1])
    if re.match(r"(move |const |copy )", s) or re.match(r"(_\d|\(+(\*|_\d))", s):
        try:
            return ('op', parse_operand(s))
        except (ValueError, AssertionError):
            pass
    if s.startswith('('):
        return ('agg', '()', [(str(i), parse_operand(x)) for i, x in enumerate(split_top(s[1:-1]))])
    if s.startswith('[closure@') or s.startswith('[async ') or s.startswith('[generator@') or s.startswith('{closure@') or s.startswith('[static generator'):
        j = s.index(']')
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for part in split_top(rest[1:-1].strip()):
                k = part.index(':')
                caps.append((part[:k].strip(), parse_operand(part[k + 1:])))
        return ('agg', name, caps)
    if s.startswith('['):
        body = s[1:-1]
        j = scan_top(body, 0, ';')
        if j < len(body) and body[j] == ';':
            return ('repeat', parse_operand(body[:j]), body[j + 1:].strip())
        return ('agg', '[]', [(str(i), parse_operand(x)) for i, x in enumerate(split_top(body))])
    # adt aggregates
    if s.endswith('}'):
        j = scan_top(s, 0, '{')
        name = s[:j].strip()
        fields = []
        for part in split_top(s[j + 1:-1].strip()):
            k = part.index(':')
            fields.append((part[:k].strip(), parse_operand(part[k + 1:])))
        return ('agg', name, fields)
    if s.endswith(')'):
        j = scan_top(s, 0, '(')
        if j < len(s) and s[j] == '(':
            name = s[:j].strip()
            return ('agg', name, [(str(i), parse_operand(x)) for i, x in enumerate(split_top(s[j + 1:-1]))])
    return ('agg', s, [])


def find_top_as(s):
    i = 0
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        elif depth == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return None


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
class Fn:
    __slots__ = ('name', 'args', 'ret', 'locals', 'debug', 'blocks', 'crate', 'file', 'line', 'impl', 'method',
                 'selfty', 'trait', 'is_closure', 'key', 'parent', '_raw', 'const_ty', 'traitdefault')

    def __init__(self, name):
        self.name = name
        self.args = []
        self.ret = '()'
        self.locals = {}
        self.debug = {}
        self.blocks = {}
        self.crate = None
        self.file = None
        self.line = None
        self.impl = None
        self.method = None
        self.selfty = None
        self.trait = None
        self.is_closure = False
        self.key = None
        self.parent = None
        self.const_ty = None
        self.traitdefault = False

    @property
    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        return '<Fn %s>' % self.key


# a block: (stmts, term); stmt: ('assign', place, rvalue, site) | ('setdisc', place, n, site)
# term: ('goto',b) ('switch', operand, [(val,b)], otherwise) ('return',) ('unreachable',) ('drop', place, b)
#       ('call', place, callee, args, target|None, site) ('assert', operand, expected, msg, b, site) ('resume',)
def parse_term(t, site):
    if t.startswith('goto -> '):
        return ('goto', int(t[10:]))
    if t.startswith('switchInt('):
        j = scan_top(t, 10, ')')
        op = parse_operand(t[10:j])
        tg = t[j + 1:]
        tg = tg[tg.index('[') + 1:tg.rindex(']')]
        cases = []
        other = None
        for part in tg.split(', '):
            k, b = part.split(': bb')
            if k == 'otherwise':
                other = int(b)
            else:
                cases.append((int(k), int(b)))
        return ('switch', op, cases, other, site)
    if t == 'return':
        return ('return',)
    if t in ('unreachable', 'resume', 'abort', 'terminate', 'generator_drop'):
        return (t if t == 'unreachable' else 'resume',)
    if t.startswith('drop('):
        j = scan_top(t, 5, ')')
        pl = parse_place(t[5:j])
        m = re.search(r"-> (?:bb(\d+)|\[return: bb(\d+))", t[j:])
        return ('drop', pl, int(m.group(1) or m.group(2)), site)
    if t.startswith('assert('):
        j = scan_top(t, 7, ')')
        args = split_top(t[7:j])
        c = args[0]
        exp = True
        if c.startswith('!'):
            exp = False
            c = c[1:]
        m = re.search(r"-> (?:bb(\d+)|\[success: bb(\d+))", t[j:])
        return ('assert', parse_operand(c), exp, args[1] if len(args) > 1 else '', int(m.group(1) or m.group(2)), site)
    raise ValueError('terminator? ' + t)


CALLTAIL = re.compile(r" -> (?:bb(\d+)|\[return: bb(\d+)(?:, unwind[^\]]*)?\]|unwind(?::)? ?\S.*|\[unwind[^\]]*\])$")


CONST_ = re.compile(r"\bconst _(?!\w)")
SPAN = re.compile(r"// scope \d+ at ([^:]+\.rs):(\d+):(\d+): (\d+):(\d+)")
UPATH = re.compile(r"(?<![\w:])(?:[A-Za-z_]\w*::)*[A-Z][A-Z0-9_]*(?![\w(!]|::)")


def name_consts(lines, root):
    """rustc prints a named constant as `const _`.  Its path is in the comment that follows (non-scalar types) or can be
    read off the source expression the statement's span names (scalars)."""
    cache = {}
    for i, line in enumerate(lines):
        if 'const _' not in line or line.lstrip().startswith('//'):
            continue
        code, sep, cmt = line.partition('// scope')
        n = len(CONST_.findall(code))
        if not n:
            continue
        names = []
        j = i + 1
        while j < len(lines) and lines[j].lstrip().startswith('//'):
            m = re.search(r"Unevaluated\((.*), \[.*\], (None|Some\((.*)\))\)", lines[j])
            if m:
                names.append(m.group(1) + ('::' + m.group(3) if m.group(3) else ''))
            j += 1
        if len(names) != n:
            names = [None] * n
            m = SPAN.search(line)
            if m and root:
                f = m.group(1)
                if f not in cache:
                    p = f if os.path.isabs(f) else os.path.join(root, f)
                    try:
                        with open(p, encoding='utf-8', errors='replace') as fh:
                            cache[f] = fh.read().split('\n')
                    except OSError:
                        cache[f] = []
                l1, c1, l2, c2 = (int(x) for x in m.groups()[1:])
                src = cache[f][l1 - 1:l2]
                if src:
                    src[-1] = src[-1][:c2 - 1]
                    src[0] = src[0][c1 - 1:]
                    text = strip_comments('\n'.join(src))
                    c = UPATH.findall(text)
                    if len(c) == n:
                        names = c
                    elif n == 1 and text.rstrip().endswith(')'):
                        names = [call_arg(code, text)]
            if not any(names) and n == 1 and 'from_elem' in code and root:
                names = [vec_len(lines, i, root)]
        if any(names):
            it = iter(names)

            def sub(m):
                x = next(it)
                return 'const ' + x if x else m.group(0)
            lines[i] = CONST_.sub(sub, code) + sep + cmt


def vec_len(lines, i, root):
    """constant length of the only `vec![x; LEN]` of a function (the span of the call is inside the macro)"""
    a = b = i
    while a > 0 and lines[a] != '}':
        a -= 1
    while b < len(lines) - 1 and lines[b] != '}':
        b += 1
    where = {}
    for ln in lines[a:b]:
        m = SPAN.search(ln)
        if m and not m.group(1).startswith('/'):
            lo, hi = where.get(m.group(1), (1 << 30, 0))
            where[m.group(1)] = min(lo, int(m.group(2))), max(hi, int(m.group(4)))
    hits = []
    for f, (lo, hi) in where.items():
        try:
            with open(os.path.join(root, f), encoding='utf-8', errors='replace') as fh:
                src = fh.read().split('\n')[lo - 1:hi]
        except OSError:
            return None
        hits += re.findall(r"vec!\s*[\[({][^;\])}]*;\s*([^\])}]*?)\s*[\])}]", strip_comments('\n'.join(src)))
    if len(hits) == 1:
        m = UPATH.fullmatch(hits[0])
        return m.group(0) if m else None
    return None


def call_arg(code, text):
    """the source argument at the position of `const _` in a MIR call"""
    a = code.find('(', code.find('=') + 1)
    depth = 0
    # arguments of the last parenthesised group of the source call
    t = text.rstrip()
    k = len(t) - 1
    while k >= 0:
        if t[k] in ')]}':
            depth += 1
        elif t[k] in '([{':
            depth -= 1
            if depth == 0:
                break
        k -= 1
    if k < 0 or a < 0:
        return None
    margs = split_top(code[a + 1:scan_top(code, a + 1, ')')])
    sargs = split_top(t[k + 1:-1])
    for r in range(1, min(len(margs), len(sargs)) + 1):
        if CONST_.search(margs[-r]):
            m = UPATH.fullmatch(sargs[-r].strip())
            return m.group(0) if m else None
    return None


def parse_file(path, crate, root):
    fns = []
    cur = None
    block = None
    stmts = None
    with open(path, encoding='utf-8', errors='replace') as f:
        lines = f.read().split('\n')
    name_consts(lines, root)
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        i += 1
        if cur is None:
            if line.startswith('fn '):
                j = line.find('(_1:')
                if j < 0:
                    j = line.find('() ->')
                if j < 0:
                    j = line.find('(')
                cur = Fn(line[3:j])
                k = scan_top(line, j + 1, ')')
                for a in split_top(line[j + 1:k]):
                    q = a.index(':')
                    num = int(a[1:q])
                    cur.args.append(num)
                    cur.locals[num] = a[q + 1:].strip()
                m = re.match(r"\) -> (.*) \{$", line[k:])
                cur.ret = m.group(1) if m else '()'
                cur.locals[0] = cur.ret
                cur.crate = crate
            elif re.match(r"(const|static|promoted\[\d+\] in) ", line) or line.startswith('static mut '):
                m = re.match(r"(?:const|static mut|static|(promoted\[\d+\]) in) (.*): (.*) = \{$", line)
                if m:
                    nm = m.group(2)
                    if m.group(1):
                        nm = nm + '::' + m.group(1)
                    # type part may have been split greedily; name has no ': ' except in impl spans
                    cur = Fn(nm)
                    cur.ret = m.group(3)
                    cur.const_ty = m.group(3)
                    cur.locals[0] = cur.ret
                    cur.crate = crate
            continue
        if line == '}':
            fns.append(cur)
            cur = None
            continue
        st = line.strip()
        if not st or st.startswith('//'):
            continue
        if block is None:
            m = re.match(r"^    bb(\d+)(?: \(cleanup\))?: \{", line)
            if m:
                block = int(m.group(1))
                cleanup = '(cleanup)' in line
                stmts = []
                continue
            m = re.match(r"^\s*let (?:mut )?_(\d+): (.*)$", line)
            if m:
                ty = CMT.sub('', m.group(2)).rstrip()
                if ty.endswith(';'):
                    ty = ty[:-1]
                cur.locals[int(m.group(1))] = ty
                continue
            m = re.match(r"^\s*debug (\S+) => (.*)$", line)
            if m:
                v = CMT.sub('', m.group(2)).rstrip().rstrip(';')
                cur.debug.setdefault(m.group(1), []).append(v)
                if cur.line is None:
                    ms = SITE.search(line)
                    if ms:
                        cur.file, cur.line = ms.group(1), int(ms.group(2))
                continue
            continue
        # inside a block
        if re.match(r"^    \}", line):
            block = None
            continue
        ms = SITE.search(line)
        site = (ms.group(1), int(ms.group(2))) if ms else None
        if site and cur.line is None:
            cur.file, cur.line = site
        t = CMT.sub('', st).rstrip()
        # statements spanning lines (strings with newlines) – join until ';'
        while not t.endswith(';') and i < n:
            nxt = lines[i]
            i += 1
            if nxt.strip().startswith('// '):
                continue
            ms2 = SITE.search(nxt)
            if ms2 and not site:
                site = (ms2.group(1), int(ms2.group(2)))
            t = t + '\n' + CMT.sub('', nxt).rstrip()
        t = t[:-1]
        if t.startswith(('StorageLive', 'StorageDead', 'FakeRead', 'AscribeUserType', 'Retag', 'nop', 'ConstEval',
                         'Coverage', 'Deinit', 'PlaceMention', 'assume', 'intrinsic', 'copy_nonoverlapping')):
            continue
        if cleanup:
            # unwinding edges are not followed
            cur.blocks[block] = (stmts, ('resume',))
            continue
        if t.startswith(('goto ', 'switchInt(', 'drop(', 'assert(', 'unreachable', 'resume', 'abort', 'terminate',
                         'generator_drop')) or t == 'return':
            cur.blocks[block] = (stmts, parse_term(t, site))
            continue
        if t.startswith('discriminant('):
            j = scan_top(t, 13, ')')
            stmts.append(('setdisc', parse_place(t[13:j]), t[j + 1:].split('=')[1].strip(), site))
            continue
        k = find_assign(t)
        if k is None:
            raise ValueError('stmt? ' + t[:200])
        lhs, rhs = t[:k], t[k + 3:]
        m = CALLTAIL.search(rhs)
        if m and not rhs.startswith('['):
            body = rhs[:m.start()]
            j = scan_top(body, 0, '(')
            callee = body[:j]
            args = [parse_operand(a) for a in split_top(body[j + 1:-1])]
            tgt = m.group(1) or m.group(2)
            cur.blocks[block] = (stmts, ('call', parse_place(lhs), callee, args, int(tgt) if tgt else None, site))
            continue
        stmts.append(('assign', parse_place(lhs), parse_rvalue(rhs), site))
    return fns


def find_assign(t):
    i = scan_top_assign(t)
    return i


def scan_top_assign(t):
    depth = 0
    i = 0
    n = len(t)
    while i < n:
        c = t[i]
        if c == '"':
            i = skip_string(t, i)
            continue
        if c == '-' and i + 1 < n and t[i + 1] == '>':
            i += 2
            continue
        if depth == 0 and t.startswith(' = ', i):
            return i
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        i += 1
    return None


# --------------------------------------------------------------------------
# type helpers
# --------------------------------------------------------------------------
def strip_generics(s):
    """remove every <...> group (turbofish and type arguments)"""
    out = []
    i = 0
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            if depth == 0:
                out.append('->')
            i += 2
            continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    while '::::' in r:
        r = r.replace('::::', '::')
    return r.rstrip(':') if r.endswith('::') else r


def type_head(ty):
    """last path segment of the outermost type constructor, references stripped."""
    ty = ty.strip()
    while True:
        if ty.startswith('&'):
            ty = ty[1:].lstrip()
            m = re.match(r"'[A-Za-z_]\w*\s*", ty)
            if m:
                ty = ty[m.end():]
            continue
        if ty.startswith('mut '):
            ty = ty[4:]
            continue
        if ty.startswith('dyn '):
            ty = ty[4:]
            continue
        if ty.startswith('for<'):
            j = scan_top(ty, 4, '>')
            ty = ty[j + 1:].strip()
            continue
        break
    if ty.startswith('[closure') or ty.startswith('[async') or ty.startswith('{closure'):
        return ty[:ty.index(']') + 1] if ']' in ty else ty
    if ty.startswith('['):
        return '[]'
    if ty.startswith('('):
        return '()'
    if ty.startswith('<'):
        # <T as Trait>::Assoc
        j = scan_top(ty, 1, '>')
        return ty[j + 1:].split('::')[-1].strip() or ty
    if ty.startswith('impl '):
        return 'impl'
    b = strip_generics(ty)
    b = b.split(' ')[0]
    return b.split('::')[-1]


def deref_ty(ty):
    ty = ty.strip()
    if ty.startswith('&'):
        ty = ty[1:].lstrip()
        m = re.match(r"'[A-Za-z_]\w*\s*", ty)
        if m:
            ty = ty[m.end():]
        if ty.startswith('mut '):
            ty = ty[4:]
        return ty
    if ty.startswith('*const ') or ty.startswith('*mut '):
        return ty.split(' ', 1)[1]
    h = strip_generics(ty)
    if h.split('::')[-1] == 'Box':
        j = ty.index('<')
        return ty[j + 1:-1]
    return ty


# --------------------------------------------------------------------------
# source tables
# --------------------------------------------------------------------------
def strip_comments(src):
    out = []
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if c == '/' and src[i:i + 2] == '//':
            j = src.find('\n', i)
            if j < 0:
                j = n
            out.append(' ' * (j - i))
            i = j
            continue
        if c == '/' and src[i:i + 2] == '/*':
            depth = 1
            j = i + 2
            while j < n and depth:
                if src[j:j + 2] == '/*':
                    depth += 1
                    j += 2
                elif src[j:j + 2] == '*/':
                    depth -= 1
                    j += 2
                else:
                    j += 1
            out.append(''.join(ch if ch == '\n' else ' ' for ch in src[i:j]))
            i = j
            continue
        if c == '"':
            j = skip_string(src, i)
            out.append(src[i:j])
            i = j
            continue
        if c == "'" and i + 2 < n:
            if src[i + 1] == '\\':
                j = src.find("'", i + 3 if src[i + 2] in "'\\" else i + 2)
                if 0 < j - i < 14:
                    out.append(src[i:j + 1])
                    i = j + 1
                    continue
            elif src[i + 2] == "'":
                out.append(src[i:i + 3])
                i += 3
                continue
        out.append(c)
        i += 1
    return ''.join(out)


def load_sources(root, dirs):
    files = {}
    for d in dirs:
        for dp, dn, fn in os.walk(os.path.join(root, d)):
            for x in sorted(fn):
                if x.endswith('.rs'):
                    p = os.path.join(dp, x)
                    rel = os.path.relpath(p, root)
                    with open(p, encoding='utf-8', errors='replace') as f:
                        files[rel] = strip_comments(f.read())
    return files


def source_tables(files):
    """structs: name -> [fields]; enums: name -> [(variant, [fields])]"""
    structs = {}
    enums = {}
    for rel, src in files.items():
        for m in re.finditer(r"\bstruct\s+(\w+)\s*", src):
            name = m.group(1)
            i = m.end()
            if i < len(src) and src[i] == '<':
                i = scan_top(src, i + 1, '>') + 1
            j = scan_top(src, i, '{(;')
            if j >= len(src):
                continue
            if src[j] == ';':
                structs.setdefault(name, [])
                continue
            close = '}' if src[j] == '{' else ')'
            k = scan_top(src, j + 1, close)
            body = src[j + 1:k]
            fields = []
            for idx, part in enumerate(split_top(body)):
                part = re.sub(r"#\[[^\]]*\]", '', part).strip()
                part = re.sub(r"^pub(\([^)]*\))?\s+", '', part)
                if close == '}':
                    if ':' in part:
                        q = part.index(':')
                        fields.append((part[:q].strip(), part[q + 1:].strip()))
                else:
                    fields.append((str(idx), part))
            structs.setdefault(name, fields)
        for m in re.finditer(r"\benum\s+(\w+)\s*", src):
            name = m.group(1)
            i = m.end()
            if i < len(src) and src[i] == '<':
                i = scan_top(src, i + 1, '>') + 1
            j = scan_top(src, i, '{')
            if j >= len(src):
                continue
            k = scan_top(src, j + 1, '}')
            vs = []
            for part in split_top(src[j + 1:k]):
                while True:
                    part = part.strip()
                    if part.startswith('#['):
                        e = scan_top(part, 2, ']')
                        part = part[e + 1:]
                    else:
                        break
                mm = re.match(r"(\w+)\s*", part)
                if not mm:
                    continue
                v = mm.group(1)
                rest = part[mm.end():].strip()
                fl = []
                if rest.startswith('{'):
                    for p2 in split_top(rest[1:-1]):
                        if ':' in p2:
                            fl.append(p2[:p2.index(':')].strip())
                elif rest.startswith('('):
                    fl = [str(x) for x in range(len(split_top(rest[1:-1])))]
                vs.append((v, fl))
            enums.setdefault(name, vs)
    return structs, enums


def impl_header(files, rel, line, col, eline, ecol):
    src = files.get(rel)
    if src is None:
        return None
    lines = src.split('\n')
    txt = '\n'.join(lines[line - 1:])[col - 1:]
    if not re.match(r"(unsafe\s+)?impl\b", txt):
        # derive: the trait's name, applied to the item that follows
        m = re.match(r"\w+", txt)
        tr = m.group(0) if m else '?'
        m2 = re.search(r"\b(?:struct|enum)\s+(\w+)", txt)
        return (tr, m2.group(1) if m2 else '?', True)
    txt = re.sub(r"^(unsafe\s+)?impl\b", '', txt).lstrip()
    if txt.startswith('<'):
        j = scan_top(txt, 1, '>')
        txt = txt[j + 1:].lstrip()
    j = scan_top(txt, 0, '{')
    hdr = ' '.join(txt[:j].split())
    w = re.search(r"\bwhere\b", hdr)
    if w:
        hdr = hdr[:w.start()].strip()
    k = find_top_for(hdr)
    if k is not None:
        return (hdr[:k].strip(), hdr[k + 5:].strip(), False)
    return (None, hdr, False)


def find_top_for(h):
    depth = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c == '-' and h[i:i + 2] == '->':
            i += 2
            continue
        if c in '<([':
            depth += 1
        elif c in '>)]':
            depth -= 1
        elif depth == 0 and h.startswith(' for ', i):
            return i
        i += 1
    return None


IMPL = re.compile(r"<impl at (\S+?):(\d+):(\d+): (\d+):(\d+)>")


class Program:
    def __init__(self, root, mirfiles, srcdirs):
        self.root = root
        self.files = load_sources(root, srcdirs)
        self.structs, self.enums = source_tables(self.files)
        self.fns = []
        self.by_closure = {}
        self.by_method = {}
        self.by_free = {}
        self.consts = {}
        for crate, path in mirfiles:
            for fn in parse_file(path, crate, root):
                self.add(fn)

    def add(self, fn):
        if fn.const_ty is not None:
            self.consts[fn.crate + '::' + fn.name] = fn
            return
        name = fn.name
        last = scan_last(name)
        fn.method = last
        fn.is_closure = '{closure#' in last or '{async' in last or last.startswith('{')
        if fn.is_closure and fn.args:
            m = re.search(r"[\[{](?:closure|async block|async fn body|generator|static generator)@[^\]}]*[\]}]", fn.locals[fn.args[0]])
            if m:
                self.by_closure.setdefault(m.group(0), fn)
        m = None
        for m in IMPL.finditer(name):
            pass
        pfx = name[:-len(last)].rstrip(':')
        if m and pfx.endswith('>') and m.end() == len(pfx):
            h = impl_header(self.files, m.group(1), *[int(x) for x in m.groups()[1:]])
            fn.file = m.group(1)
            if h:
                fn.trait = type_head(h[0]) if h[0] else None
                fn.selfty = type_head(h[1])
                if h[1].strip().startswith('&'):
                    fn.selfty = '&' + fn.selfty
            fn.impl = True
            k = (fn.selfty, last)
            self.by_method.setdefault(k, []).append(fn)
        else:
            if not fn.is_closure:
                # free fn or trait default method
                self.by_free.setdefault(last, []).append(fn)
                seg = pfx.split('::')[-1] if pfx else ''
                if seg[:1].isupper():
                    fn.trait = seg
                    fn.traitdefault = True
        fn.key = self.mkkey(fn)
        self.fns.append(fn)

    def mkkey(self, fn):
        def sub(m):
            h = impl_header(self.files, m.group(1), *[int(x) for x in m.groups()[1:]])
            if not h:
                return '<impl>'
            if h[0]:
                return '<%s as %s>' % (type_head(h[1]), type_head(h[0]))
            return type_head(h[1])
        nm = IMPL.sub(sub, fn.name)
        return nm

    # find functions by "Type::method", "<Type as Trait>::method", or free "mod::name"
    def find(self, spec):
        out = []
        m = re.match(r"<(.*) as (.*)>::(\w+)$", spec)
        if m:
            for f in self.by_method.get((m.group(1), m.group(3)), []):
                if f.trait == m.group(2):
                    out.append(f)
            return out
        if '::' in spec:
            a, b = spec.rsplit('::', 1)
            for f in self.by_method.get((a, b), []):
                if f.trait is None:
                    out.append(f)
            if out:
                return out
            for f in self.by_free.get(b, []):
                if f.name.endswith(spec) or (f.crate + '::' + f.name).endswith(spec):
                    out.append(f)
            return out
        return [f for f in self.by_free.get(spec, []) if not f.traitdefault]


def scan_last(name):
    """last path segment, bracket-aware"""
    depth = 0
    i = len(name) - 1
    while i > 0:
        c = name[i]
        if c in '>)]}' and not (c == '>' and name[i - 1] == '-'):
            depth += 1
        elif c in '<([{':
            depth -= 1
        elif depth == 0 and name[i - 1:i + 1] == '::':
            return name[i + 1:]
        i -= 1
    return name
