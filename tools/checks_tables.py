"""T06, T07: splitting and combination in the multi-threaded image functions (poolcheck.py)."""
import ir, poolcheck, dispatchcheck
from absint import Undecided, Fn, Ptr
ASSUME = ['the thread pool runs every announced task exactly once with its own number and _wait returns after all of them (T03, T04, T05)',
          'the arguments are valid for the operation, with a fixed colour count; image sizes, region and offsets are symbolic',
          'the number of threads is enumerated: 1 to 4 (thorough: 1 to 6); projection profiles are analysed for the listed region sizes and colour counts',
          'the device independent function called for a part does its work on exactly the region it is given (I01 to I06, D01)']
RULE = {'T06': 'per pooled function, thread count and path: the recorded calls are of the operation of the same name, the regions handed out form a partition of the region (every part non-empty), '
               'every image is paired with its own offset of the same part (mirrored for flips, swapped for transposition), and the parameters are passed through',
        'T07': 'per pooled statistic, thread count and path, with the tasks run immediately and as late as the wait: the returned value is the combination of the results of all parts, '
               'no two tasks access the same memory when one of them writes it, and the function returns only after its tasks'}
def pooled(pid):
    def check(rep, tier):
        rep.rule = RULE[pid]; rep.assumptions = ASSUME; dec = {}
        for a, dem, r, err in poolcheck.run(tier, only='stats' if pid == 'T07' else None):
            fn = ir.base_name(dem) + (' %s' % dem[dem.index('('):] if False else '')
            if r is None: rep.unk('', fn, (err or '').splitlines()[0][:200]); continue
            if err: rep.unk('', fn, '%d threads: %s' % (a[2], err[:200]))
            n = r['ok'].get(pid, 0); bad = [b for b in r['bad'] if b[0] == pid]; unk = [u for u in r['unk'] if u[0] == pid]
            rep.count('analyses of a function for a thread count'); rep.count('paths', r['stats']['paths']); rep.count('parts', r['stats']['parts'])
            rep.good(n)
            for b in bad: rep.fail(b[1], fn, b[2], b[3])
            for u in unk: rep.unk(u[1], fn, u[2])
            if n and not unk and not err: dec[fn] = dec.get(fn, 0) + 1
            if n and len(rep.samples) < 12 and a[2] == 3: rep.samples.append('%s, %d threads: %d paths, %d parts, %d obligations' % (fn, a[2], r['stats']['paths'], r['stats']['parts'], n))
        rep.count('functions', len(dec))
        rep.floor('functions decided', len(dec), 12 if pid == 'T06' else 3)
    return check
def tables(rep, tier):
    D = dispatchcheck
    rep.rule = ('registration: every entry a library hands to setFunctionTable names the function of that library with the name of the entry; merging: for absent and existing entries, forced or not, '
                'each entry becomes the right one of the two; lookup: by the type asked for; dispatch: for all combinations of image types, registered functions and the conversion flag, each full form of '
                'penguinV:: calls exactly one entry, the one of its own name, with its own arguments in order, every image being of the type of the table, alive, and converted back if it is an output')
    rep.assumptions = ['the static objects of the library files are initialised at program start', 'registered conversions keep size and content (not part of this property)',
                       'two image types are enumerated per image; a container that may relocate its elements does so at every insertion', 'the CUDA sources are not compiled here']
    libs = {}; flds = None; scalar = {}
    for src, lib in D.LIBS:
        try: md, evs, prob = D.registration(src, [])
        except (Undecided, RuntimeError) as e: rep.unk(src, 'start-up code', str(e).splitlines()[0][:200]); continue
        if prob: rep.fail('src/' + src, 'start-up code', prob, ''); continue
        flds = flds or D.fields([md]); tabs = [e for e in evs if e[0] == 'table']; own = None
        for e in tabs:
            _, t, force, tab, w = e; ns = {}
            for f, v in tab.items():
                if isinstance(v, Fn):
                    b = ir.base_name(md.functions[v.n].dem); n = '::'.join(b.split('::')[:-1]); ns[n] = ns.get(n, 0) + 1
            own = max(ns, key=ns.get) if ns else None
            for f, v in tab.items():
                if isinstance(v, Fn):
                    g = md.functions[v.n]; b = ir.base_name(g.dem)
                    if b == '%s::%s' % (own, D.strip(f)): rep.good()
                    else: rep.fail(w, 'registration of the %s functions' % lib, 'entry %s is %s' % (f, b), '')
                    if lib == 'scalar': scalar[f] = (D.strip(f), ir.param_list(g.dem))
                elif isinstance(v, Ptr) and v.o is None:
                    if lib == 'scalar':
                        here = [g for g in md.functions.values() if not g.decl and ir.base_name(g.dem) == '%s::%s' % (own, D.strip(f))]
                        if here: rep.fail(w, 'registration of the scalar functions', 'entry %s is empty although the operation exists' % f, '')
                else: rep.unk(w, 'registration of the %s functions' % lib, 'entry %s' % f)
            libs[lib] = (t, force, {f for f, v in tab.items() if isinstance(v, Fn)}, w)
            rep.count('tables registered'); rep.samples.append('%s: %d entries of %s for type %s%s' % (src, len(libs[lib][2]), own, t, ', forced' if force else ''))
        if not tabs: rep.fail('src/' + src, 'start-up code', 'no table is registered', '')
        for e in evs:
            if e[0] != 'convert': continue
            nm = ir.base_name(md.functions[e[1].n].dem).split('::')[-1] if isinstance(e[1], Fn) else None; t = tabs[0][1] if tabs else None
            if nm is None: rep.unk(e[4], 'registration of the %s conversions' % lib, 'function')
            elif (nm.startswith('ConvertTo') and e[3] == t != e[2]) or (nm.startswith('ConvertFrom') and e[2] == t != e[3]): rep.good()
            else: rep.fail(e[4], 'registration of the %s conversions' % lib, '%s is registered for images of type %s to type %s' % (nm, e[2], e[3]), '')
    if 'scalar' in libs and 'simd' in libs:
        a, b = libs['scalar'], libs['simd']
        if a[0] != b[0]: rep.fail(b[3], 'registration', 'the vectorised functions are registered for type %s, the scalar ones for %s' % (b[0], a[0]), '')
        elif a[2] & b[2] and a[1] == b[1]: rep.fail(b[3], 'registration', 'which of the two functions of an operation is reachable depends on the order of the registrations', '')
        elif a[2] & b[2] and a[1]: rep.fail(a[3], 'registration', 'the scalar table replaces the vectorised one', '')
        else: rep.good()
    if 'opencl' in libs and 'scalar' in libs:
        if libs['opencl'][0] == libs['scalar'][0]: rep.fail(libs['opencl'][3], 'registration', 'the OpenCL functions are registered for the type of CPU images', '')
        else: rep.good()
    if not flds: rep.floor('functions of the device independent interface decided', 0, 25); return
    try:
        for label, res, w in D.merging():
            rep.count('merges')
            for f, ok, text in res:
                if ok: rep.good()
                else: rep.fail(w, 'ImageTypeManager::setFunctionTable', text, label)
    except Undecided as e: rep.unk('src/image_function_helper.cpp', 'ImageTypeManager::setFunctionTable', str(e))
    for nm, w, text in D.lookups(flds):
        rep.count('lookups')
        if text is None: rep.good()
        elif isinstance(text, tuple): rep.unk(w, 'ImageTypeManager::' + nm, text[1])
        else: rep.fail(w, 'ImageTypeManager::' + nm, text, '')
    n = 0
    for a, dem, r, err in D.dispatch(scalar, flds):
        fn = ir.base_name(dem)
        if r is None: rep.unk('', fn, err.splitlines()[0][:200]); continue
        if err: rep.unk('', fn, err[:200])
        rep.good(r['ok']); rep.count('combinations of image types, tables and flag', r['runs']); rep.count('paths', r['paths'])
        for w, what, label in r['bad']: rep.fail(w, fn, what, label)
        if not err: n += 1
    rep.count('functions', n); rep.floor('functions of the device independent interface decided', n, 25)
CHECKS = {'D01': ('other', tables), 'T06': ('other', pooled('T06')), 'T07': ('other', pooled('T07'))}
