"""Big switches as tables: value expressions over ranges of the switch operand."""
import re
import z3


def runs(ks):
    """maximal arithmetic runs (first, last, stride) with stride 1 or 2"""
    ks = sorted(ks)
    out = []
    i = 0
    n = len(ks)
    while i < n:
        j = i
        while j + 1 < n and ks[j + 1] == ks[j] + 1:
            j += 1
        if j == i:
            while j + 1 < n and ks[j + 1] == ks[j] + 2 and not (j + 2 < n and ks[j + 2] == ks[j + 1] + 1):
                j += 1
            out.append((ks[i], ks[j], 2 if j > i else 1))
        else:
            out.append((ks[i], ks[j], 1))
        i = j + 1
    return out


def member(v, ks):
    n = v.size()
    es = []
    for a, b, s in runs(ks):
        if a == b:
            es.append(v == z3.BitVecVal(a, n))
            continue
        c = [z3.ULE(z3.BitVecVal(a, n), v), z3.ULE(v, z3.BitVecVal(b, n))]
        if s == 2:
            c.append(z3.Extract(0, 0, v) == z3.BitVecVal(a & 1, 1))
        es.append(z3.And(*c))
    if not es:
        return z3.BoolVal(False)
    return es[0] if len(es) == 1 else z3.Or(*es)


def lookup(v, d, n, default=None):
    """the value of the table d (int -> int, n bits) at v, which is one of its keys (else `default`)"""
    m = (1 << n) - 1
    by = {}
    for k, c in d.items():
        by.setdefault(c & m, []).append(k)
    w = v if v.size() == n else (z3.Extract(n - 1, 0, v) if v.size() > n else z3.ZeroExt(n - v.size(), v))
    if len(by) <= 40:
        items = [(z3.BitVecVal(c, n), ks) for c, ks in sorted(by.items(), key=lambda x: (len(x[1]), x[0]))]
    else:
        by = {}
        for k, c in d.items():
            by.setdefault((c - k) & m, []).append(k)
        items = [(w + z3.BitVecVal(c, n), ks) for c, ks in sorted(by.items(), key=lambda x: (len(x[1]), x[0]))]
    if default is None:
        e, items = items[-1][0], items[:-1]
    else:
        e = default
    for x, ks in reversed(items):
        e = z3.If(member(v, ks), x, e)
    return e


def groups(f, labels):
    """labels whose blocks do the same -> representative"""
    cache = getattr(f, '_swgroups', None)
    if cache is None:
        cache = f._swgroups = {}
    key = tuple(labels)
    if key in cache:
        return cache[key]
    code = {}
    allocas = {}
    for lab in f.blocks:
        for ins in f.instrs(lab):
            if ins.op == 'alloca':
                allocas[ins.dst] = str((ins.ty, ins.a))
    uses = {}
    text = {}
    want = set(labels)
    for lab in f.blocks:
        for ins in f.instrs(lab):
            if ins.op in ('phi', 'switch'):
                continue
            s = '%s|%s|%s|%s' % (ins.dst, ins.op, ins.ty, ins.a)
            for r in re.findall(r"\('loc', '([^']*)'\)", s):
                if r in allocas:
                    uses.setdefault(r, set()).add(lab)
            if lab in want:
                text.setdefault(lab, []).append(s)
    out = {}
    for lab in labels:
        ins = f.instrs(lab)
        if len(ins) == 1 and ins[0].op == 'br':
            out[lab] = ('br', ins[0].a[0])
            continue
        t = '\n'.join(text.get(lab, []))
        names = {}

        def sub(m):
            r = m.group(1)
            if r in allocas and uses.get(r) == {lab}:
                return names.setdefault(r, "('A', %d, %s)" % (len(names), allocas[r]))
            return m.group(0)
        t = re.sub(r"\('loc', '([^']*)'\)", sub, t)
        if any(i.op == 'phi' for i in ins) or any(i.dst is not None for i in ins) or any(i.op in ('cbr', 'switch', 'ret') for i in ins):
            out[lab] = ('own', lab)
            continue
        # the successor must not tell them apart
        tgt = ins[-1].a[0] if ins[-1].op == 'br' else None
        if tgt is None or any(i.op == 'phi' for i in f.instrs(tgt)):
            out[lab] = ('own', lab)
            continue
        out[lab] = ('same', t)
    cache[key] = out
    return out
