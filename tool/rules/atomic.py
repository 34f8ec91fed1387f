"""P13: failed operations and abandoned transactions leave the tree of a stream builder as it was."""
import os
import re
from common import *
from facts import *
from write import short, param
from append import node_fns, ret_ty, loaders, final_field, get_field, lineage
from purge import decoders, encoders


def is_pub(prog, f):
    """declared `pub` (not pub(crate)) in the source"""
    w = f.where
    if not w:
        return False
    m = re.match(r'(.*\.rs):(\d+)', str(w))
    src = prog.files.get(m.group(1)) if m else None
    if src is None:
        return False
    lines = src.split('\n')
    n = int(m.group(2)) - 1
    txt = '\n'.join(lines[max(0, n - 2):n + 3])
    return re.search(r'\bpub\s+(async\s+|unsafe\s+)*fn\s+%s\b' % re.escape(f.method or f.key.split('::')[-1]), txt) is not None


def ops(ck):
    prog = ck.prog
    out = []
    for f in all_fns(prog):
        if f.crate != 'banyan' or '{closure' in f.key or f.trait is not None:
            continue
        b = [i for i, a in enumerate(f.args) if re.search(r'&(\'\w+ )?mut (stream_builder::)?StreamBuilder<', f.locals[a])]
        if b and mir.type_head(ret_ty(f)) == 'Result' and is_pub(prog, f):
            out.append((f, b[0]))
    return out


def P13(ck):
    """every public operation on a stream builder: on each path that returns an error the root field of the builder is the
    one it had on entry (explicit restore and Drop of StreamTransaction included); StreamTransaction restores the root
    captured when it was started unless committed, and commit keeps the current root."""
    prog = ck.prog
    heavy = node_fns(prog) + loaders(prog) + decoders(prog) + encoders(prog) + prog.find('Forest::collect0') + prog.find('Transaction::simplify_roots')
    n = 0
    for f, b in ops(ck):
        n += 1
        tree = param(f, b)
        old = mk('fld', tree, 'root')
        ps = ck.run(f, opaque=[h for h in heavy if h.key != f.key])
        for p in ps:
            if p.outcome != 'return' or not maybe_err(p.ret):
                continue
            new = final_field(p, tree, 'root')
            ok = restored(new, old, p)
            ck.ob('error.root', ok, f.key, '%s returns an error after it has changed the root to %s' % (short(f), show(new)[:120]), f.where)
    ck.ob('ops', n >= 6, 'count', 'only %d public operations on a stream builder found' % n)
    # ---- transactions
    for f in ck.find('StreamBuilder::transaction'):
        b = param(f, 0)
        for p in ck.run(f):
            if p.outcome != 'return':
                continue
            r = p.ret
            rs = [x.a[1] for x in r.a[1:]] if r.op == 'agg' else []
            ok = r.op == 'agg' and any(captured(x, mk('fld', b, 'root')) for x in rs)
            ck.ob('tx.capture', ok, f.key, '%s does not capture the current root' % short(f), f.where)
            ck.ob('tx.start', final_field(p, b, 'root') is mk('fld', b, 'root'), f.key, '%s changes the root' % short(f), f.where)
    fld = [n for n, t in struct_fields(prog, 'StreamTransaction') if 'Option<' in t and 'Index<' in t]
    bld = [n for n, t in struct_fields(prog, 'StreamTransaction') if 'StreamBuilder<' in t]
    if ck.ob('tx.fields', len(fld) == 1 and len(bld) == 1, 'StreamTransaction', 'the saved root of StreamTransaction was not found'):
        for f in ck.find('<StreamTransaction as Drop>::drop'):
            s = param(f, 0)
            saved = mk('fld', s, fld[0])
            bl = mk('fld', s, bld[0])
            k = 0
            for p in ck.run(f):
                if p.outcome != 'return':
                    continue
                some = [v for c, v in p.clog if c.op == 'disc' and origin(c.a[0]) is saved]
                root = root_of(p, s, bl)
                if some[:1] == ['Some']:
                    k += 1
                    ck.ob('tx.restore', root is mk('fld', saved, 'Some.0'), f.key, 'dropping an open transaction leaves the root as %s instead of restoring the saved one' % show(root)[:100], f.where)
                elif some[:1] == ['None']:
                    k += 1
                    ck.ob('tx.keep', root is mk('fld', bl, 'root'), f.key, 'dropping a committed transaction changes the root', f.where)
                else:
                    ck.ob('tx.restore', False, f.key, 'dropping a transaction does not distinguish open from committed', f.where)
            ck.ob('tx.cases', k >= 2, f.key, 'Drop of StreamTransaction does not handle both cases')
        for f in ck.find('StreamTransaction::commit'):
            s = param(f, 0)
            bl = mk('fld', s, bld[0])
            for p in ck.run(f):
                if p.outcome != 'return':
                    continue
                root = root_of(p, s, bl)
                ck.ob('tx.commit', root is mk('fld', bl, 'root'), f.key, 'commit does not keep the root that was built: %s' % show(root)[:100], f.where)
    ck.floor('error.root', 10)
    ck.floor('tx.restore', 1)
    ck.floor('tx.commit', 1)
    ck.floor('tx.capture', 1)


def maybe_err(r):
    if is_err(r):
        return True
    return not is_ok(r)


def restored(new, old, p):
    if new is old:
        return True
    # a clone of the old root, put back variant by variant
    if new.op == 'agg' and new.a[0] == 'Option::Some' and agg_get(new, '0') is mk('fld', old, 'Some.0'):
        return True
    if new.op == 'agg' and new.a[0] == 'Option::None':
        return any(c.op == 'disc' and c.a[0] is old and v == 'None' for c, v in p.clog)
    return False


def captured(t, root):
    return t.op == 'agg' and t.a[0] == 'Option::Some' and agg_get(t, '0') is root or t is root


def root_of(p, s, bl):
    """root of the builder behind the transaction s at the end of the path"""
    for key in (('O', bl), ('O', mk('deref', bl))):
        o = p.store.get(key)
        if o is not None:
            return get_field(flow.erase(o), 'root')
    return mk('fld', bl, 'root')
