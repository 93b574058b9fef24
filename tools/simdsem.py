"""Byte-lane dependence semantics of vector IR and intrinsics: which source bytes each result byte depends on."""
from absint import *

def width(m, fr, t):
    return t.get('size', 1)
def union(vs, m):
    t = EMPTY
    for v in vs:
        if not isinstance(v, bool): t = t | taint_of(v, m.S)
    return t
def tovec(m, v, n):
    if isinstance(v, Vec):
        l = list(v.l)
        if len(l) < n: l += [(EMPTY, None)] * (n - len(l))
        return l[:n]
    t = taint_of(v, m.S) if not isinstance(v, bool) else EMPTY
    return [(t, None)] * n
def elem_lanes(vs, n, es):
    """combine vectors element-wise: every byte of an element depends on all bytes of that element of each operand"""
    out = []
    for e in range(0, n, es):
        t = EMPTY
        for l in vs:
            for b in range(e, e + es):
                if b < len(l): t = t | l[b][0]
        out += [(t, None)] * es
    return out
def esize(m, fr, t):
    e = fr.fn.mod.types[t['e']]
    return max(1, e.get('size', 1))
def isbool(m, fr, t): return t['k'] == 'vec' and fr.fn.mod.types[t['e']].get('w') == 1

def binop(m, fr, st, i, op, a, b, t):
    n = t['size']
    if t['k'] != 'vec': return m.fresh(t, op, union([a, b], m))
    if isbool(m, fr, t):
        return Vec([(union([a, b], m), None)] * max(1, n))
    la, lb = tovec(m, a, n), tovec(m, b, n)
    if op in ('and', 'or', 'xor'):
        out = []
        for x, y in zip(la, lb):
            c = None
            if x[1] is not None and y[1] is not None: c = {'and': x[1] & y[1], 'or': x[1] | y[1], 'xor': x[1] ^ y[1]}[op]
            elif op == 'and' and (x[1] == 0 or y[1] == 0): out.append((EMPTY, 0)); continue
            out.append((x[0] | y[0], c))
        return Vec(out)
    es = esize(m, fr, t)
    if op in ('shl', 'lshr', 'ashr') and all(y[1] is not None for y in lb):
        out = []
        for e in range(0, n, es):
            sh = sum(lb[e + j][1] << (8 * j) for j in range(es))
            if sh % 8 == 0 and op != 'ashr':
                s = sh // 8
                for j in range(es):
                    k = j + s if op == 'lshr' else j - s
                    out.append(la[e + k] if 0 <= k < es else (EMPTY, 0))
            else: out += elem_lanes([la[e:e + es]], es, es)
        return Vec(out)
    return Vec(elem_lanes([la, lb], n, es))
def lanewise(m, fr, st, i, vs, t):
    n = t.get('size', 1)
    if t['k'] != 'vec': return m.fresh(t, i['op'], union(vs, m))
    if i['op'] in ('icmp', 'fcmp') or isbool(m, fr, t):
        # <N x i1>: one taint per element, kept as a Vec of N lanes
        cnt = t['n']
        src = [v for v in vs if isinstance(v, Vec)]
        if src and len(src[0].l) % cnt == 0:
            es = len(src[0].l) // cnt
            out = []
            for e in range(cnt):
                tt = EMPTY
                for v in src:
                    for b in range(e * es, (e + 1) * es):
                        if b < len(v.l): tt = tt | v.l[b][0]
                out.append((tt, None))
            return Vec(out)
        return Vec([(union(vs, m), None)] * cnt)
    if i['op'] == 'select' and isinstance(vs[0], Vec):
        cnt = t['n']; es = max(1, n // cnt)
        a, b = tovec(m, vs[1], n), tovec(m, vs[2], n)
        out = []
        for j in range(n):
            c = vs[0].l[j // es][0] if j // es < len(vs[0].l) else EMPTY
            cv = vs[0].l[j // es][1] if j // es < len(vs[0].l) else None
            if cv is not None: out.append(a[j] if cv else b[j]); continue
            if a[j] == b[j]: out.append(a[j]); continue
            out.append((a[j][0] | b[j][0] | c, None))
        return Vec(out)
    return Vec(elem_lanes([tovec(m, v, n) for v in vs], n, esize(m, fr, t)))
def ext(m, fr, st, i, a, t):
    if t['k'] != 'vec': return m.fresh(t, 'ext', taint_of(a, m.S))
    n = t['size']; cnt = t['n']; es = n // cnt
    if isinstance(a, Vec) and len(a.l) == cnt and es > 1 or (isinstance(a, Vec) and len(a.l) == cnt and i['op'] == 'sext'):
        # from <cnt x i8> or <cnt x i1>
        boolean = fr.fn.mod.types[fr.fn.mod.types[i['oty'][0]]['e']].get('w') == 1
        out = []
        for e in range(cnt):
            x = a.l[e]
            if boolean or i['op'] == 'sext': out += [(x[0], None)] * es
            else: out += [x] + [(EMPTY, 0)] * (es - 1)
        return Vec(out)
    if isinstance(a, Vec) and len(a.l) % cnt == 0:
        se = len(a.l) // cnt; out = []
        for e in range(cnt):
            l = list(a.l[e * se:(e + 1) * se])
            if i['op'] == 'trunc': out += l[:es]
            elif i['op'] == 'zext': out += l + [(EMPTY, 0)] * (es - se)
            else: out += l + [(l[-1][0], None)] * (es - se)
        return Vec(out)
    return Vec([(taint_of(a, m.S), None)] * n)
def op(m, fr, st, i):
    S = m.S
    if i['op'] == 'shufflevector':
        a = m.val(fr, st, i['ops'][0]); b = m.val(fr, st, i['ops'][1])
        t = m.ty(fr, i['ty']); st_ = m.ty(fr, i['oty'][0])
        bits = isbool(m, fr, t)
        es = 1 if bits else esize(m, fr, t)
        na = st_['n']
        la = tovec(m, a, na * es); lb = tovec(m, b, na * es)
        out = []
        for k in i['mask']:
            if k < 0: out += [(EMPTY, None)] * es
            elif k < na: out += la[k * es:(k + 1) * es]
            else: out += lb[(k - na) * es:(k - na + 1) * es]
        return Vec(out)
    if i['op'] == 'insertelement':
        a = m.val(fr, st, i['ops'][0]); v = m.val(fr, st, i['ops'][1]); x = m.val(fr, st, i['ops'][2])
        t = m.ty(fr, i['ty']); es = esize(m, fr, t); n = t['size']
        if isbool(m, fr, t): return Vec([(union([a, v], m), None)] * t['n'])
        l = tovec(m, a, n)
        c = x.p.cval() if isinstance(x, Int) else None
        if c is None: return Vec([(q[0] | taint_of(v, S), None) for q in l])
        if isinstance(v, Int) and v.p.cval() is not None:
            k = v.p.cval() & ((1 << (8 * es)) - 1)
            e = [(EMPTY, (k >> (8 * j)) & 255) for j in range(es)]
        elif isinstance(v, Vec): e = list(v.l)[:es]
        elif isinstance(v, Cat): e = list(m.retype(v, dict(k='vec', size=es)).l)
        else: e = [(taint_of(v, S), None)] * es
        l[c * es:(c + 1) * es] = e
        return Vec(l)
    if i['op'] == 'extractelement':
        a = m.val(fr, st, i['ops'][0]); x = m.val(fr, st, i['ops'][1])
        t = m.ty(fr, i['ty']); vt = m.ty(fr, i['oty'][0]); es = max(1, t.get('size', 1))
        c = x.p.cval() if isinstance(x, Int) else None
        if isinstance(a, Vec) and c is not None and len(a.l) >= (c + 1) * es:
            part = Vec(a.l[c * es:(c + 1) * es])
            if t['k'] == 'int' and t['w'] > 1: return m.retype(part, t)
            return m.fresh(t, 'elem', taint_of(part, S))
        return m.fresh(t, 'elem', taint_of(a, S))

def intrinsic(m, fr, st, i, n, args, t):
    """returns outcomes"""
    S = m.S
    def R(v): return m.ret(st, v)
    size = t.get('size', 0)
    vecs = [a for a in args if isinstance(a, Vec)]
    if n.startswith(('llvm.x86.sse2.storeu', 'llvm.x86.avx.storeu')):
        m.write(fr, st, i, args[0], args[1], len(args[1].l)); return R(None)
    if n.startswith('llvm.masked.store') or n.startswith('llvm.masked.load'):
        raise Undecided('masked vector memory access at %s' % fr.fn.where(i))
    if t['k'] == 'vec':
        es = esize(m, fr, t)
        if 'packus' in n or 'packss' in n:
            a, b = args[0].l, args[1].l
            ses = 2 if 'wb' in n else 4
            out = []
            for lane in range(0, size, 16):
                for src in (a, b):
                    for e in range(lane, lane + 16, ses):
                        tt = EMPTY
                        for q in src[e:e + ses]: tt = tt | q[0]
                        out += [(tt, None)] * (ses // 2)
            return R(Vec(out))
        if 'pshuf.b' in n:
            a, k = args[0].l, args[1].l
            out = []
            for j in range(size):
                c = k[j][1]; base = j - j % 16
                if c is None:
                    tt = k[j][0]
                    for q in a[base:base + 16]: tt = tt | q[0]
                    out.append((tt, None))
                elif c & 0x80: out.append((EMPTY, 0))
                else: out.append(a[base + (c & 15)])
            return R(Vec(out))
        if n.startswith('llvm.aarch64.neon.tbl1.'):
            a, k = args[0].l, args[1].l; out = []
            for j in range(size):
                c = k[j][1]
                if c is None: out.append((union(args, m), None))
                else: out.append(a[c] if c < len(a) else (EMPTY, 0))
            return R(Vec(out))
        if 'psad.bw' in n:
            a, b = args[0].l, args[1].l
            out = []
            for e in range(0, size, 8):
                tt = EMPTY
                for q in a[e:e + 8]: tt = tt | q[0]
                for q in b[e:e + 8]: tt = tt | q[0]
                out += [(tt, None)] * 2 + [(EMPTY, 0)] * 6
            return R(Vec(out))
        if any(x in n for x in ('.psll', '.psrl', '.psra')) and isinstance(args[0], Vec):
            c = args[1].p.cval() if isinstance(args[1], Int) else None
            if c is None and isinstance(args[1], Vec) and all(q[1] is not None for q in args[1].l[:8]): c = sum(q[1] << (8 * j) for j, q in enumerate(args[1].l[:8]))
            a = args[0].l; out = []
            for e in range(0, size, es):
                if c is not None and c % 8 == 0 and '.psra' not in n:
                    for j in range(es):
                        k = j + c // 8 if '.psrl' in n else j - c // 8
                        out.append(a[e + k] if 0 <= k < es else (EMPTY, 0))
                else: out += elem_lanes([a[e:e + es]], es, es)
            return R(Vec(out))
        # element-wise default for two or one operand arithmetic of the same shape
        lanewise_names = ('padd', 'psub', 'pmax', 'pmin', 'pavg', 'pabs', 'pcmp', 'umax', 'umin', 'smax', 'smin', 'uadd.sat', 'usub.sat', 'sadd.sat', 'ssub.sat', 'pmull', 'pmulh', 'abs.', 'ctpop', 'pternlog', 'uabd', 'sabd', 'umaxp_')
        if any(x in n for x in lanewise_names) and vecs and all(len(v.l) == size for v in vecs):
            return R(Vec(elem_lanes([v.l for v in vecs], size, es)))
        if any(x in n for x in ('permvar', 'avx2.permd', 'avx2.permps')) and len(args) >= 2:
            a, k = args[0].l, args[1].l; out = []
            for e in range(0, size, es):
                c = sum(k[e + q][1] << (8 * q) for q in range(es)) if all(k[e + q][1] is not None for q in range(es)) else None
                if c is None: out += [(union(args, m), None)] * es
                else:
                    x = c % (size // es); out += a[x * es:(x + 1) * es]
            return R(Vec(out))
        tt = union(args, m)
        return R(Vec([(tt, None)] * size))
    tt = union(args, m)
    return R(m.fresh(t, n, tt) if t['k'] != 'void' else None)
