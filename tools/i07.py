"""I07: a convenience form of an image operation calls the full form with the region, the output and the parameters its signature promises.

Every defined function of the operation that is not its full form is analysed by the abstract interpreter; calls of the full form are
recorded (with the state of the images at that moment) instead of entered, and compared with the expected call, derived from the
signatures: matching images in order, explicit coordinates or the whole image, a freshly generated output of the promised size and
colour count, remaining parameters in order."""
import itertools, time, traceback
import ir
from absint import *
from imgmodel import *
from imgcheck import *
import imgcheck

# size of a generated output: 'same' as the input region, 'swap' width and height, 'given' by explicit parameters
OUTSIZE = {'Transpose': 'swap', 'Resize': 'given'}
class Side: pass
def shape(fn, op):
    """parameters of a form grouped by role"""
    ps = [p for p in parse_params(fn) if p[0] != 'this']
    s = Side(); s.ps = ps; s.images = []; s.rest = []; s.runs = {}
    i = 0
    while i < len(ps):
        if ps[i][0] == 'image':
            j = i + 1
            while j < len(ps) and ps[j][0] == 'u32': j += 1
            s.images.append((i, ps[i][2])); s.runs[i] = list(range(i + 1, j)); i = j
        else: s.rest.append(i); i += 1
    return s
def layout(s, op, full):
    """(coordinates per image position {idx: (x, y)}, {idx: (w, h)}, trailing numbers) or None"""
    xy = {}; wh = {}; extra = []
    ims = [i for i, _ in s.images]; runs = [s.runs[i] for i in ims]
    if op in ('BinaryDilate', 'BinaryErode'):
        extra = runs[0][-2:]; runs[0] = runs[0][:-2]
    if op == 'Resize':
        for k, i in enumerate(ims):
            r = runs[k]
            if len(r) == 4: xy[i] = r[:2]; wh[i] = r[2:]
            elif len(r) == 6: xy[i] = r[:2]; wh[i] = r[2:4]; wh['out'] = r[4:]
            elif len(r) == 2: wh['out'] = r
            elif r: return None
        return xy, wh, extra
    if all(not r for r in runs): return xy, wh, extra
    if not all(len(r) == 2 for r in runs[:-1]) or len(runs[-1]) not in (2, 4): return None
    for i, r in zip(ims, runs): xy[i] = r[:2]
    if len(runs[-1]) == 4:
        for i in ims: wh[i] = runs[-1][2:]
        if op == 'Transpose' and len(ims) == 2: wh[ims[1]] = runs[-1][2:][::-1]
    elif len(runs[-1]) == 2 and op not in ('SetPixel', 'GetPixel', 'Rotate'): return None
    if op == 'Rotate' and len(ims) > 0:
        u = [i for i in s.rest if s.ps[i][0] == 'u32']
        if len(u) == 2:
            for i in ims: wh[i] = u
            s.rest = [i for i in s.rest if i not in u]
    return xy, wh, extra
def analyse_form(mods, lay, fn, op, fulls):
    res = Result(); t0 = time.time()
    ns = fn.dem.split('(')[0].split('<')[0]
    s = shape(fn, op); lf = layout(s, op, False)
    if lf is None: raise Undecided('signature of the form is not understood')
    xy, wh, extra = lf
    ret_image = any('sret' in a and 'ImageTemplate' in str(fn.mod.types[a['sret']].get('name')) for a in fn.args)
    m = Machine(mods); mdl = Models(m, lay); m.resample = {}
    def stub(m_, fr, st, i, f2, base, args):
        p = base.split('::')
        if f2.name == fn.name or p[-1] != op or f2.name not in fulls: return None
        st2 = st.copy()
        args = list(args)
        if any('sret' in a for a in f2.args): args = args[1:]
        snap = {}
        for k, (q, a) in enumerate(zip([q for q in parse_params(f2) if q[0] != 'this'], args)):
            if q[0] == 'image': snap[k] = dict((x, mdl.get(fr, st, i, a, x)) for x in 'WHCD')
            if q[0] == 'vec': snap[k] = mdl.vget(st, a)
        t = m_.ty(fr, i['ty'])
        v = m_.fresh(t, 'delegated') if t['k'] != 'void' else None
        st2.log = st2.log + (Event('D', -1, ZERO, ZERO, (), (f2.name, tuple(args), snap, v), (fr.fn, i)),)
        return [Outcome('ret', st2, val=v), Outcome('throw', st.copy(), val='delegate')]
    m.contracts.insert(0, stub)
    n = len(s.images)
    st, args, info = imgmodel.setup(m, mdl, fn, [False] * n)
    m.params = {q: True for q in range(len(m.S.s))}
    sret = args[0] if any('sret' in a for a in fn.args) else None
    outs = m.call(fn, args, st)
    rets = [o for o in outs if o.kind == 'ret']; throws = [o for o in outs if o.kind == 'throw']
    here = fn.where(None); stats = dict(paths=len(rets), throws=len(throws), calls=0)
    spec = COLOUR.get('Histogram2' if op == 'Histogram' and n == 2 else op)
    for o in rets:
        st = o.st
        if not m.feasible(st): continue
        ds = [e for e in st.log if e.rw == 'D']
        if not ds: res.unknown('I07', here, 'a path does not call the full form'); continue
        if len(ds) > 1: res.unknown('I07', here, 'a path calls the full form more than once'); continue
        e = ds[0]; stats['calls'] += 1
        cn, cargs, snap, rv = e.val
        cf = m.funcs[cn]; cs = shape(cf, op); lc = layout(cs, op, True)
        if lc is None: res.unknown('I07', here, 'signature of the full form is not understood'); continue
        cxy, cwh, cextra = lc; loc = where(e)
        def same(a, b, what):
            """numbers equal on this path?"""
            a = m.norm(st, a); b = m.norm(st, b)
            if eqp(m, st, a, b): res.good('I07'); return
            if any(havoc(m, x) for x in (a - b).syms()): res.unknown('I07', loc, what); return
            for g in (a - b - 1, b - a - 1):
                # a counterexample makes them different
                res_goal = -(g) - 1
                ce = counterexample(m, st.facts, res_goal)
                if ce is not None and not m.lossy: res.fail('I07', loc, what, ce); return
            res.unknown('I07', loc, what)
        finfo = dict(enumerate(info))
        cin = [i for i, c in cs.images if c]; cout = [i for i, c in cs.images if not c]
        fin = [i for i, c in s.images if c]; fout = [i for i, c in s.images if not c]
        if len(cin) != len(fin): res.unknown('I07', loc, 'calls a form with other inputs'); continue
        pairs = list(zip(cin, fin))
        gen = None
        back = sret if ret_image else None
        if len(cout) == len(fout) == 1 and isinstance(cargs[cout[0]], Ptr) and cargs[cout[0]].o != finfo[fout[0]]['obj'] and cargs[cout[0]].o not in [finfo[q]['obj'] for q in fin]:
            gen = cout[0]; back = Ptr(finfo[fout[0]]['obj'], ZERO)        # a generated image is assigned to the output
        elif len(cout) == len(fout): pairs += list(zip(cout, fout))
        elif len(cout) == 1 and not fout and ret_image: gen = cout[0]
        else: res.unknown('I07', loc, 'calls a form with other outputs'); continue
        whole = {}
        def dims(i):
            if fin and i not in wh and op != 'Resize' and i != fin[0]:
                W, H = dims(fin[0])
                return (H, W) if OUTSIZE.get(op) == 'swap' else (W, H)
            if i in wh: return finfo[wh[i][0]]['sym'], finfo[wh[i][1]]['sym']
            return finfo[i]['W'], finfo[i]['H']
        for c, f in pairs:
            a = cargs[c]
            if not (isinstance(a, Ptr) and a.o == finfo[f]['obj'] and m.norm(st, a.p).cval() == 0):
                if isinstance(a, Ptr) and a.o is not None: res.settle(m, 'I07', loc, 'image %s is handed over in place of %s' % (m.objs[a.o].label, finfo[f]['name']), st.facts, Poly.const(-1))
                else: res.unknown('I07', loc, 'image argument')
                continue
            res.good('I07')
            if c in cxy:
                for q, nm, k in ((0, 'x', 0), (1, 'y', 1)):
                    v = cargs[cxy[c][q]]
                    want = finfo[xy[f][q]]['sym'] if f in xy else ZERO
                    if isinstance(v, Int): same(m.U(st, v), want, 'start %s of %s' % (nm, finfo[f]['name']))
                    else: res.unknown('I07', loc, 'coordinate')
            if c in cwh:
                W, H = dims(f)
                for v, want, nm in ((cargs[cwh[c][0]], W, 'width'), (cargs[cwh[c][1]], H, 'height')):
                    if isinstance(v, Int): same(m.U(st, v), want, '%s of the region of %s' % (nm, finfo[f]['name']))
                    else: res.unknown('I07', loc, 'size')
        if gen is not None:
            W, H = dims(fin[0])
            if 'out' in wh: W, H = finfo[wh['out'][0]]['sym'], finfo[wh['out'][1]]['sym']
            elif OUTSIZE.get(op) == 'swap': W, H = H, W
            f = snap[gen]
            if 'out' in wh:          # an empty request is refused by the full form
                st = next((q for q in apply_valid(m, st, [('', 'ge', W - 1), ('', 'ge', H - 1)]) if m.feasible(q)), None)
                if st is None: continue
            if gen in cxy:
                for q in (0, 1):
                    v = cargs[cxy[gen][q]]
                    if isinstance(v, Int): same(m.U(st, v), ZERO, 'start of the generated output')
            if gen in cwh:
                for v, want in ((cargs[cwh[gen][0]], W), (cargs[cwh[gen][1]], H)):
                    if isinstance(v, Int): same(m.U(st, v), want, 'size of the region of the generated output')
            for k, want in (('W', W), ('H', H)):
                if isinstance(f[k], Int): same(m.U(st, f[k]), want, '%s of the generated output' % dict(W='width', H='height')[k])
                else: res.unknown('I07', loc, 'size of the generated output')
            if spec:
                c = spec[len(fin)]
                want = finfo[fin[0]]['C'] if c == EQ else Poly.const(c[0])
                if isinstance(f['C'], Int): same(m.U(st, f['C']), want, 'colour count of the generated output')
                else: res.unknown('I07', loc, 'colour count of the generated output')
            # the generated image is the one returned
            if back is not None:
                try:
                    d = mdl.get(None, st, None, back, 'D')
                    if isinstance(d, Ptr) and isinstance(f['D'], Ptr):
                        if d.o == f['D'].o: res.good('I07')
                        else: res.settle(m, 'I07', loc, 'the returned image is not the one handed to the full form', st.facts, Poly.const(-1))
                    else: res.unknown('I07', loc, 'returned image')
                except Exception: res.unknown('I07', loc, 'returned image')
        # remaining parameters
        crest = cextra + cs.rest; frest = extra + s.rest
        def kind(i): return 'vec' if i['kind'] == 'vec' else i['kind']
        fl = [(finfo[i]['kind'], i) for i in frest]
        fk = {}
        for k, i in fl: fk.setdefault(k, []).append(i)
        ck = {}
        for i in crest: ck.setdefault(cs.ps[i][0], []).append(i)
        for k, idx in ck.items():
            mine = fk.get(k, [])
            if k == 'vec' and not mine and sret is not None:      # the returned array
                if len(idx) == 1:
                    try:
                        b, _ = mdl.vget(st, sret); b2 = snap[idx[0]][0]
                        if isinstance(b, Ptr) and isinstance(b2, Ptr) and b.o == b2.o: res.good('I07')
                        else:
                            a = cargs[idx[0]]
                            if isinstance(a, Ptr) and a.o == sret.o: res.good('I07')
                            else: res.unknown('I07', loc, 'returned array')
                    except Exception: res.unknown('I07', loc, 'returned array')
                else: res.unknown('I07', loc, 'returned array')
                continue
            if len(mine) != len(idx): 
                if op != 'Rotate': res.unknown('I07', loc, 'other number of %s parameters' % k)
                continue
            for ci, fi in zip(idx, mine):
                a = cargs[ci]; p = finfo[fi]
                if k in ('u8', 'u16', 'u32', 'i32'):
                    if isinstance(a, Int): same(a.p, p['sym'], 'parameter %s' % p['name'])
                    else: res.unknown('I07', loc, 'parameter %s' % p['name'])
                elif k == 'bool':
                    if isinstance(a, Cond): ok = a == Cond('cmp', 'ne', Int(p['sym'], 8), Int(ZERO, 8))
                    else: ok = None
                    if ok: res.good('I07')
                    elif isinstance(a, bool): res.settle(m, 'I07', loc, 'parameter %s is fixed to %s' % (p['name'], a), st.facts, Poly.const(-1)) if m.norm(st, p['sym']).cval() is None else (res.good('I07') if m.norm(st, p['sym']).cval() == int(a) else res.settle(m, 'I07', loc, 'parameter %s is inverted' % p['name'], st.facts, Poly.const(-1)))
                    elif isinstance(a, Int): same(a.p, p['sym'], 'parameter %s' % p['name'])
                    elif isinstance(a, Cond) and a.k in ('cmp', 'not') and m.polys_of(st, a) is not None: 
                        res.settle(m, 'I07', loc, 'parameter %s is replaced' % p['name'], st.facts, Poly.const(-1))
                    else: res.unknown('I07', loc, 'parameter %s' % p['name'])
                elif k in ('f64', 'f32'):
                    v = args[(1 if sret is not None else 0) + fi]
                    if a is v: res.good('I07')
                    elif any(a is x for x in args): res.settle(m, 'I07', loc, 'parameter %s is replaced by another one' % p['name'], st.facts, Poly.const(-1))
                    else: res.unknown('I07', loc, 'parameter %s' % p['name'])
                elif k == 'vec':
                    if isinstance(a, Ptr) and a.o == p['obj'] and m.norm(st, a.p).cval() == 0: res.good('I07')
                    elif isinstance(a, Ptr): res.settle(m, 'I07', loc, 'array %s is replaced' % p['name'], st.facts, Poly.const(-1))
                    else: res.unknown('I07', loc, 'array %s' % p['name'])
        # a result that is returned by value
        if rv is not None and o.val is not None:
            ok = o.val is rv or (isinstance(o.val, Int) and isinstance(rv, Int) and eqp(m, st, o.val.p, rv.p))
            if ok: res.good('I07')
            else: res.unknown('I07', loc, 'returned value')
    # refusals before the full form is reached
    for o in throws:
        if o.val == 'delegate' or not spec or op in NO_CONVERSE or op in ('SetPixel', 'GetPixel', 'Rotate', 'Shift'): continue
        v = []
        fi = dict(enumerate(info)); ims = [i for i, _ in s.images]
        for k, i in enumerate(ims):
            im = fi[i]
            v.append(('', 'ge', Poly.const(LIM) - im['W'] * im['C']))
            if ret_image and k == 0 and 'out' not in wh:
                w = fi[wh[i][1 if OUTSIZE.get(op) == 'swap' else 0]]['sym'] if i in wh else im['H' if OUTSIZE.get(op) == 'swap' else 'W']
                c = spec[len(ims)] if len(spec) > len(ims) else EQ
                v.append(('', 'ge', Poly.const(LIM) - w * (im['C'] if c == EQ or c == ANY else Poly.const(c[0]))))
            if i in wh:
                x, y = [fi[q]['sym'] for q in xy[i]]; w, h = [fi[q]['sym'] for q in wh[i]]
                v += [('', 'ge', im['W'] - x - w), ('', 'ge', im['H'] - y - h), ('', 'ge', w - 1), ('', 'ge', h - 1)]
            elif k and op != 'Resize':
                j = fi[ims[0]]
                a, b = ('H', 'W') if op == 'Transpose' else ('W', 'H')
                v += [('', 'eq', im['W'] - j[a]), ('', 'eq', im['H'] - j[b])]
            c = spec[k] if k < len(spec) else ANY
            if c == EQ:
                if k: v.append(('', 'eq', im['C'] - fi[ims[0]]['C']))
                v.append(('', 'in', (im['C'], VALIDC)))
            else: v.append(('', 'in', (im['C'], c)))
        if 'out' in wh:
            w, h = [fi[q]['sym'] for q in wh['out']]; v += [('', 'ge', w - 1), ('', 'ge', h - 1), ('', 'ge', Poly.const(LIM) - w * fi[ims[0]]['C'])]
        if op in ('ExtractChannel', 'ReplaceChannel'):
            ch = [i['sym'] for i in info if i['kind'] == 'u8']
            if not ch: continue
            v.append(('', 'ge', fi[ims[-1 if op == 'ReplaceChannel' else 0]]['C'] - 1 - ch[0]))
        if any(i['kind'] == 'vec' for i in info): 
            vec = [i for i in info if i['kind'] == 'vec'][0]
            if op == 'LookupTable': v.append(('', 'eq', vec['n'] - 256))
            elif op == 'Accumulate': continue
        if op == 'Threshold' and len([i for i in info if i['kind'] == 'u8']) == 2: continue
        ok = True
        for q in apply_valid(m, o.st, v):
            if m.feasible(q):
                ok = False; res.settle(m, 'I07', str(o.val), 'refuses valid arguments', q.facts, Poly.const(-1)); break
        if ok: res.good('I07')
    stats['time'] = time.time() - t0
    return res, stats

def forms(cfg, mods):
    """(function, operation) of every form that is not the full one, and the names of the full ones"""
    full = set(); conv = []
    names = entry_names(cfg['hdr'])
    for md in mods:
        for f in list(md.functions.values()):
            b = ir.base_name(f.dem).split('::')
            if len(b) != 2 or b[0] not in cfg.get('full', ('Image_Function', 'Image_Function_Simd')) or b[1] not in names or '<' in f.dem.split('(')[0]: continue
            ps = [p for p in parse_params(f) if p[0] != 'this']
            if not any(p[0] == 'image' for p in ps): continue
            k = full_sig2(b[1], f, ps)
            if k == 'full': full.add(f.name)
            elif not f.decl and md is mods[0] and b[0] in cfg['ns']: conv.append((f, b[1]))
    return full, conv
POOL = dict(src=['function_pool.cpp', 'image_function_helper.cpp'], hdr='function_pool.h', ns=('Function_Pool',), full=('Function_Pool',), sets=(), flags=[])
DEVICE = dict(src=['penguinv/penguinv.cpp', 'image_function_helper.cpp'], hdr='penguinv/penguinv.h', ns=('penguinV',), full=('penguinV',), sets=(), flags=[])
CONFIGS = {'scalar': SCALAR, 'simd': SIMD, 'thread pool': POOL, 'device independent': DEVICE}
def full_sig2(op, f, ps):
    """full form: every image has its region, nothing is returned by sret"""
    if len(f.args) > len(ps): return 'conv'
    s = Side(); s = shape(f, op); l = layout(s, op, True)
    if op in ('SetPixel', 'GetPixel'): return 'full'
    if l is None: return 'other'
    xy, wh, _ = l
    return 'full' if all(i in xy and i in wh for i, _ in s.images) else 'conv'
def job(a):
    cfg, name, op, full = a
    f = imgcheck.MODS[0].functions[name]
    try:
        r, st = imgcheck.limited(analyse_form, imgcheck.MODS, imgcheck.LAY, f, op, full)
        return name, f.dem, op, None, dict(ok=r.ok, bad=r.bad, unk=r.unk, stats=st), None
    except Undecided as e: return name, f.dem, op, None, None, str(e)
    except Exception as e: return name, f.dem, op, None, None, 'internal: %r %s' % (e, traceback.format_exc()[-800:])
def run(cfg, want=None, procs=8):
    imgcheck.MODS = load(cfg); imgcheck.LAY = Layout(imgcheck.MODS)
    full, conv = forms(cfg, imgcheck.MODS)
    jobs = [(cfg, f.name, op, full) for f, op in conv if not want or want in f.dem]
    yield from imgcheck.collect(job, jobs, procs)
if __name__ == '__main__':
    import sys
    cfg = CONFIGS[sys.argv[1]]
    for name, dem, op, _, r, err in run(cfg, sys.argv[2] if len(sys.argv) > 2 else None):
        print(dem.replace('penguinV::ImageTemplate<unsigned char>', 'Image').replace('unsigned int', 'u32')[:110], err or '', r and (r['stats']['calls'], round(r['stats']['time'], 1)) or '', r and r['ok'] or '')
        for b in (r['bad'] if r else []): print('    BAD', b[0], b[1], b[2], str(b[3])[:150])
        for b in (r['unk'] if r else []): print('    UNK', b[0], b[1], b[2])
        sys.stdout.flush()
