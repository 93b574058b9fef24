"""D02: instruction sets (cpucheck.py for the selection, imgcheck.py for the vectorised functions of builds with fewer or other instruction sets)."""
import ir, imgcheck, cpucheck
from cpucheck import Stop
BUILDS = [('x86-64', ('sse', 'cpu'), 20), ('AVX2', ('avx', 'sse', 'cpu'), 40), ('NEON', ('neon', 'cpu'), 20), ('AVX-512', ('avx512',), 15)]
WORK = ('I01', 'I03', 'I04', 'I06')
def sets(rep, tier):
    rep.rule = ('selection: on every path of simd::actualSimdType that returns an instruction set, in every build, the facts of the path (bits of cpuid and XCR0 tested, leaf range, flags) establish every feature that the code '
                'reached for this value uses (intrinsics in the call closure for the constant value) and that the set is declared to have; the flag switched by its Enable function is tested; xgetbv only after OSXSAVE. '
                'work: for every value selectable in a build each vectorised function, interpreted abstractly, stays inside its regions, writes all of the output, at the right positions, and does not refuse valid arguments')
    rep.assumptions = ['cpuid reports what the processor supports; ssse3 is implied by avx2, sse2 by ssse3 (architecture manuals)', 'builds: x86-64, +SSSE3, +AVX2, skylake-avx512, AArch64 NEON; other compilers are not analysed (cpu_id_windows.h is not compiled)',
                       'intrinsics behave as their models in tools/simdsem.py', 'image buffers satisfy the class invariant (see I01)']
    built = {}
    for name, flags in cpucheck.CONFIGS:
        try: cpucheck.config(name, flags, rep); built[name] = 1
        except (Stop, ir.AnalysisError) as e: rep.unk('', 'actualSimdType', 'build for %s: %s' % (name, str(e).splitlines()[0][:300]))
        if name not in built:
            try: imgcheck.load(dict(imgcheck.SIMD, flags=flags)); built[name] = 1
            except ir.AnalysisError: pass
    rep.floor('builds that compile', len(built), 3)
    flags = dict(cpucheck.CONFIGS)
    for name, kinds, least in BUILDS:
        if rep.bad: break
        if name not in built: continue
        cfg = dict(imgcheck.SIMD, sets=kinds, flags=flags[name]); dec = 0
        for _, dem, op, simd, r, err in imgcheck.run(cfg):
            if len(rep.bad) >= 4: break
            if simd is None: continue
            fn = '%s [%s build, instruction set %s]' % (ir.base_name(dem), name, simd)
            if err: rep.unk('', fn, err.splitlines()[0][:200]); continue
            rep.good(sum(r['ok'].get(k, 0) for k in WORK)); rep.count('function and value, %s build' % name)
            use = lambda b: b[0] in WORK or (b[0] == 'I05' and b[2].startswith('refuses'))
            for b in r['bad']:
                if use(b): rep.fail(b[1], fn, b[2], b[3])
            u = [b for b in r['unk'] if use(b)]
            for b in u: rep.unk(b[1], fn, b[2])
            if not u: dec += 1
        rep.floor('functions decided in the %s build' % name, dec, 0 if len(rep.bad) >= 4 else least)
CHECKS = {'D02': ('other', sets)}
