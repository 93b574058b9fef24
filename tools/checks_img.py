"""I01..I07: abstract interpretation of the image functions (imgcheck.py, i07.py)."""
import ir, imgcheck, i07, imgmodel
ASSUME = ['an image buffer passed to a function satisfies the class invariant (row size >= width * colour count, rows allocated) and its byte size fits in 32 bits per row (width * colour count < 2^32)',
          'distinct image arguments do not share memory',
          'standard library, intrinsics and ImageTemplate accessors behave as their models in tools/imgmodel.py and tools/simdsem.py',
          'the analysed configuration is x86-64 (SSE, AVX2 and AVX-512 code paths); NEON code is not compiled here']
RULE = {
 'I01': 'per function: every load/store/memcpy/memset on every abstract path has an offset provably inside its object (reads) or its region (writes); loops summarised by induction variables, offsets are polynomials over the arguments',
 'I03': 'per output-producing function: the union of the write events of every path covers each byte of the destination region',
 'I04': 'per point-wise function: the byte stored at (row, column, channel) is computed only from source bytes at the specified position, vector lanes traced through shuffles',
 'I05': 'per function: every returning path implies the validity predicate of the operation, and every throwing path contradicts it',
 'I06': 'per reduction: read events partition the region (each byte once) and accumulations go to the cell of that byte',
 'I07': 'per convenience form: the call of the full form gets the images, coordinates, sizes, generated output and parameters that the signature promises'}
ENOUGH = 4      # violations after which the analysis stops
def image(which, msgs, floors):
    def check(rep, tier):
        rep.rule = RULE[msgs]; rep.assumptions = ASSUME
        for c in which:
            cfg = {'scalar': imgcheck.SCALAR, 'simd': imgcheck.SIMD}[c]
            dec = 0
            for name, dem, op, simd, r, err in imgcheck.run(cfg, only=msgs):
                if len(rep.bad) >= ENOUGH: break
                fn = ir.base_name(dem) + ('' if simd is None else ' [instruction set %s]' % simd)
                if err:
                    rep.unk('', fn, err.splitlines()[0][:200]); continue
                n = r['ok'].get(msgs, 0)
                bad = [b for b in r['bad'] if b[0] == msgs]; unk = [u for u in r['unk'] if u[0] == msgs]
                if n or bad or unk: rep.count('%s functions' % c)
                rep.count('paths', r['stats'].get('paths', 0)) if isinstance(r['stats'], dict) else None
                rep.good(n)
                for b in bad: rep.fail(b[1], fn, b[2], b[3])
                for u in unk: rep.unk(u[1], fn, u[2])
                if n and not unk: dec += 1
                if n and len(rep.samples) < 12: rep.samples.append('%s: %d obligations' % (fn, n))
            rep.floor('%s functions decided' % c, dec, floors[c])
    return check
def forms(rep, tier):
    rep.rule = RULE['I07']; rep.assumptions = ASSUME
    for c, least in (('scalar', 60), ('simd', 25), ('thread pool', 50), ('device independent', 50)):
        cfg = i07.CONFIGS[c]; dec = 0
        for name, dem, op, simd, r, err in i07.run(cfg):
            fn = dem.replace('penguinV::ImageTemplate<unsigned char>', 'Image').replace('unsigned int', 'u32')
            if err: rep.unk('', fn, err.splitlines()[0][:200]); continue
            rep.count('%s forms' % c); rep.count('full-form calls', r['stats']['calls'])
            rep.good(r['ok'].get('I07', 0))
            for b in r['bad']: rep.fail(b[1], fn, b[2], b[3])
            for u in r['unk']: rep.unk(u[1], fn, u[2])
            if not r['unk']: dec += 1
            if len(rep.samples) < 12: rep.samples.append('%s: %d calls compared' % (fn, r['stats']['calls']))
        rep.floor('%s forms decided' % c, dec, least)
CHECKS = {
 'I01': ('other', image(['scalar'], 'I01', dict(scalar=15))),
 'I02': ('other', image(['simd'], 'I01', dict(simd=20))),
 'I03': ('other', image(['scalar', 'simd'], 'I03', dict(scalar=12, simd=18))),
 'I04': ('other', image(['scalar', 'simd'], 'I04', dict(scalar=10, simd=16))),
 'I05': ('other', image(['scalar', 'simd'], 'I05', dict(scalar=15, simd=20))),
 'I06': ('other', image(['scalar', 'simd'], 'I06', dict(scalar=4, simd=4))),
 'I07': ('other', forms),
}
