"""O01: error codes of OpenCL calls, decided on the LLVM IR of the OpenCL host code (never executed).

Every function is enumerated path by path (each loop at most twice). The result of an OpenCL call is a symbol; a comparison with CL_SUCCESS makes it a fact of the path."""
import os, re
import ir
from cpucheck import Paths, Bit, UNK, Ptr, Stop, atom, const, cval, inv
class Err:
    __slots__ = ('id', 'name', 'where', 'fn')
    def __init__(self, id, name, where, fn): self.id = id; self.name = name; self.where = where; self.fn = fn
EXEMPT = re.compile(r'cl(Release|Retain)')
LOOP = 2
class ClPaths(Paths):
    def __init__(self, mod, inline, checkers=None):
        super().__init__(mod); self.errs = {}; self.inl = inline; self.checkers = checkers or {}
    def iserr(self, name): return name and re.match(r'cl[A-Z]\w+$', name) and not EXEMPT.match(name)
    def tuples(self, v): return v
    def step(self, fn, i, op, env, args, facts, mem, inst):
        V = lambda o: self.val(o, env, args)
        if op == 'icmp':
            a, b = V(i['ops'][0]), V(i['ops'][1])
            if isinstance(b, Err): a, b = b, a
            if isinstance(a, Err):
                k = cval(b) if isinstance(b, tuple) else None; x = atom('ok', a.id); pr = i['pred']
                if k is None: r = Bit(frozenset([(('seen', a.id), 1)]), frozenset([(('seen', a.id), 1)]), True)
                elif k == 0 and pr in ('eq', 'sge', 'ule') or k == 2 ** 32 - 1 and pr == 'sgt': r = x        # error codes are negative
                elif k == 0 and pr in ('ne', 'slt', 'ugt') or k == 2 ** 32 - 1 and pr == 'sle': r = inv(x)
                elif k and pr in ('eq', 'ne'): r = Bit(x.F, frozenset(), True); r = r if pr == 'eq' else inv(r)
                else: r = UNK
                env[i['id']] = (r,)
                return mem
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'select') and i.get('ops') and isinstance(V(i['ops'][0]), Err): env[i['id']] = V(i['ops'][0]); return mem
        if op in ('and', 'or', 'xor', 'add', 'sub'):
            a, b = V(i['ops'][0]), V(i['ops'][1])
            if isinstance(a, Err) or isinstance(b, Err): env[i['id']] = (UNK,) * 64; return mem
        return super().step(fn, i, op, env, args, facts, mem, inst)
    def eq(self, a, b):
        if isinstance(a, Err) or isinstance(b, Err):
            a = a if isinstance(a, Err) else b
            return Bit(frozenset([(('seen', a.id), 1)]), frozenset([(('seen', a.id), 1)]), True)
        return super().eq(a, b)
    def stored(self, g, v, facts, fn, i): pass
    def call(self, fn, i, env, args, facts, mem, depth, unk):
        V = lambda o: self.val(o, env, args)
        c = i.get('callee'); name = c[1] if c and c[0] == 'g' else None
        w = (self.width(i['ty']) or 1) if self.ty(i['ty'])['k'] == 'int' else 64
        if name and name.startswith('llvm.'): return [(facts, mem, (UNK,) * w, unk)]
        if self.iserr(name):
            key = (fn.name, i['id'], sum(1 for a, v in facts if a[0] == 'call' and a[1][:2] == (fn.name, i['id'])))
            e = Err(key, name, fn.where(i), fn.dem); self.errs[key] = e; mem = dict(mem)
            facts = facts | {(('call', key), 1)}
            for a in i['args'][:-1]:
                p = V(a)
                if isinstance(p, Ptr):
                    for k in [k for k in mem if k[0] == p.o]: del mem[k]
            if self.ty(i['ty'])['k'] == 'int': return [(facts, mem, e, unk)]
            p = V(i['args'][-1]) if i['args'] else None
            if isinstance(p, Ptr) and p.o is not None and p.off is not None: mem[(p.o, p.off)] = (4, e)
            elif isinstance(p, Ptr) and p.o is None: self.errs[key] = Err(key, name + ' (no error code requested)', fn.where(i), fn.dem)
            else: facts = facts | {(('seen', key), 1)}
            return [(facts, mem, (UNK,) * 64, unk)]
        f = self.mod.functions.get(name) if name else None
        vals = [V(a) for a in i['args']]
        errs = [v for v in vals if isinstance(v, Err)]
        if f is not None and not f.decl and (errs or self.inl(f)) and depth < 5:
            return [(a, b, v, u) for a, b, v, u in self.run(f, vals, facts, mem, depth + 1, unk)]
        if len(errs) == 1 and name in self.checkers:               # a function of another unit that takes just a code: its outcomes
            out = []
            for fs, v in self.checkers[name]:
                new = facts
                for a, x in fs:
                    if new is not None: new = self.add(new, frozenset([((a[0], errs[0].id), x)]))
                if new is not None: out.append((new, mem, errs[0] if isinstance(v, Err) else tuple(subst(b, errs[0].id) for b in v) if isinstance(v, tuple) else (UNK,) * w, unk))
            return out
        mem = dict(mem)
        for e in errs: facts = facts | {(('seen', e.id), 1)}       # handed to code outside: counts as examined
        for p in vals:
            if isinstance(p, Ptr):
                for k in [k for k in mem if k[0] == p.o]:
                    if isinstance(mem[k][1], Err): facts = facts | {(('seen', mem[k][1].id), 1)}
                    del mem[k]
        return [(facts, mem, (UNK,) * w, unk)]
    def run(self, fn, args, facts=frozenset(), mem=None, depth=0, unk=False):
        # loops: a block is entered at most LOOP times per path
        if depth > 8: raise Stop('calls nested too deeply at %s' % fn.dem)
        self.n += 1; inst = self.n
        work = [(0, None, 0, {}, facts, dict(mem or {}), unk, {})]
        seen = set()
        while work:
            b, pred, idx, env, facts, mem, unk, hops = work.pop()
            if idx == 0:
                n = hops.get(b, 0)
                if n >= LOOP: continue
                hops = dict(hops); hops[b] = n + 1
            ins = fn.blocks[b]
            if idx == 0 and pred is not None:
                new = {}
                for i in ins:
                    if i['op'] != 'phi': break
                    for pb, v in i['inc']:
                        if pb == pred: new[i['id']] = self.val(v, env, args)
                env = dict(env); env.update(new)
            k = idx
            while k < len(ins):
                i = ins[k]; op = i['op']; self.steps += 1
                if self.steps > 300000: raise Stop('too many paths')
                if op == 'phi': k += 1; continue
                if op == 'br':
                    if 'cond' in i:
                        c = self.val(i['cond'], env, args); c = c[0] if isinstance(c, tuple) else UNK
                        for bit, s in ((c, i['succ'][0]), (inv(c), i['succ'][1])):
                            if bit == 0: continue
                            f = facts if bit == 1 else self.add(facts, bit.T)
                            if f is not None: work.append((s, b, 0, env, f, mem, unk, hops))
                    else: work.append((i['succ'][0], b, 0, env, facts, mem, unk, hops))
                    break
                if op == 'switch':
                    v = self.val(i['cond'], env, args)
                    if isinstance(v, Err):
                        zero = [x[1] for x in i['cases'] if int(x[0][2]) == 0]
                        for s in zero or [i['def']]: work.append((s, b, 0, env, facts if not zero else facts | {(('ok', v.id), 1)}, mem, unk, hops))
                        bad = self.add(facts, frozenset([(('ok', v.id), 0)]))
                        for s in {x[1] for x in i['cases'] if int(x[0][2])} | ({i['def']} if zero else set()):
                            if bad is not None: work.append((s, b, 0, env, bad, mem, unk, hops))
                        break
                    for s in {x[1] for x in i['cases']} | {i['def']}: work.append((s, b, 0, env, facts, mem, unk, hops))
                    break
                if op == 'ret':
                    yield facts, mem, self.val(i['ops'][0], env, args) if i.get('ops') else None, unk
                    break
                if op in ('unreachable', 'resume'): break
                if op in ('call', 'invoke'):
                    outs = self.call(fn, i, env, args, facts, mem, depth, unk)
                    seen2 = set()
                    for f, m, v, u in outs:
                        e = dict(env); e[i['id']] = v
                        key = (f, v if isinstance(v, (Err, tuple)) else id(v))
                        if isinstance(v, tuple) and cval(v) is None: key = (f, tuple((x if isinstance(x, int) else (x.T, x.F)) for x in v))
                        if key in seen2: continue
                        seen2.add(key)
                        work.append((i['nd'], b, 0, e, f, m, u, hops) if op == 'invoke' else (b, pred, k + 1, e, f, m, u, hops))
                    break
                if op == 'select':
                    c, x, y = (self.val(o, env, args) for o in i['ops'][:3]); c = c[0] if isinstance(c, tuple) else UNK
                    if c in (0, 1): env = dict(env); env[i['id']] = x if c == 1 else y; k += 1; continue
                    for bit, v in ((c, x), (inv(c), y)):
                        f = self.add(facts, bit.T)
                        if f is not None:
                            e = dict(env); e[i['id']] = v; work.append((b, pred, k + 1, e, f, mem, unk, hops))
                    break
                env = dict(env); mem = self.step(fn, i, op, env, args, facts, mem, inst); k += 1
def subst(b, id):
    if isinstance(b, int): return b
    g = lambda fs: frozenset(((a[0], id), x) if a[0] in ('ok', 'seen') and a[1] == 'arg' else (a, x) for a, x in fs)
    return Bit(g(b.T), g(b.F), b.unk)
def checkers(mods):
    """functions of the OpenCL part with an error code as their only parameter -> [(facts about the code, constant returned)]"""
    out = {}
    for mod in mods:
        for f in mod.defined():
            if not ours(f) or len(f.args) != 1 or mod.types[f.args[0]['ty']].get('w') != 32: continue
            P = ClPaths(mod, lambda g: False); r = []
            try:
                for facts, mem, v, u in P.run(f, [Err('arg', '', '', '')]):
                    r.append(([(a, x) for a, x in facts if a[0] in ('ok', 'seen') and a[1] == 'arg'], v))
            except Stop: continue
            out[f.name] = r
    return out
PROBE = ('clGetPlatformIDs', 'clGetDeviceIDs')      # no platform or device is an answer, not a failure
def units():
    S = os.path.join(ir.REPO, 'src', 'opencl')
    return [os.path.join(S, x) for x in ('opencl_helper.cpp', 'opencl_device.cpp', 'image_function_opencl.cpp')] + [os.path.join(ir.VERIF, 'tools', 'tu', 'opencl_templates.cpp')]
def ours(f): return bool(f.file) and '/opencl/' in ir.relname(f.file) or bool(f.file) and ir.relname(f.file).startswith('src/opencl')
def check(rep, tier):
    rep.rule = ('every function of the OpenCL host code is enumerated path by path (exceptions end a path, each block at most twice per path): on each path that returns normally, every OpenCL call made must have had its error code compared, '
                'or the code must be what the function returns; a path on which a call is known to have failed may return normally only from a function that reports the failure by its result or continues with the next candidate')
    rep.assumptions = ['releasing functions (clRelease*, clRetain*) are not obligations', 'the code given to a function outside /repo counts as examined', 'library functions do not throw in a way that matters here']
    done = {}; mods = []
    for src in units():
        try: mods.append(ir.load(ir.compile_ir(src, [])))
        except ir.AnalysisError as e: rep.unk(src, '', str(e).splitlines()[0][:200])
    chk = checkers(mods); reported = set()
    for mod in mods:
        direct = {}
        for f in mod.defined():
            direct[f.name] = [i for b, i in f.instrs() if i['op'] in ('call', 'invoke') and 'callee' in i and i['callee'][0] == 'g' and re.match(r'cl[A-Z]\w+$', i['callee'][1]) and not EXEMPT.match(i['callee'][1])]
        def returns_code(f):
            return bool(direct.get(f.name)) and mod.types[f.ret].get('w') == 32 and len(f.blocks) < 12
        for f in mod.defined():
            if not direct[f.name] or not ours(f): continue
            key = (ir.relname(f.file), f.dem)
            if key in done: continue
            done[key] = 1
            P = ClPaths(mod, returns_code, chk); n = 0; miss = {}; swallow = {}
            releases = any(i['op'] in ('call', 'invoke') and i.get('callee', ('',))[0] == 'g' and i['callee'][1] == 'clReleaseContext' for b, i in f.instrs())
            try:
                for facts, mem, v, u in P.run(f, [(UNK,) * 64 for _ in f.args]):
                    n += 1
                    for a, x in facts:
                        if a[0] != 'call': continue
                        e = P.errs[a[1]]
                        if isinstance(v, Err) and v.id == e.id: continue
                        if (('ok', e.id), 0) in facts:
                            if e.name in PROBE or e.name == 'clCreateContext' and releases: continue
                            if isinstance(v, tuple) and cval(v) == 0 and mod.types[f.ret]['k'] != 'void': continue     # reported by the result
                            swallow.setdefault((e.where, e.name), 0)
                        elif (('ok', e.id), 1) in facts or (('seen', e.id), 1) in facts: continue
                        else: miss.setdefault((e.where, e.name), 0)
            except Stop as s: rep.unk(f.where(), ir.base_name(f.dem), str(s))
            rep.count('functions'); rep.count('paths', n); rep.count('OpenCL calls', len(direct[f.name]))
            for d, t in ((miss, 'the error code of %s is not examined on a path that returns normally'), (swallow, 'a path on which %s is known to have failed returns normally')):
                for w, nm in sorted(d):
                    if (w, nm, t) in reported: continue
                    reported.add((w, nm, t)); rep.fail(w, ir.base_name(f.dem), t % nm, '')
            rep.good(max(0, len(direct[f.name]) - len(miss) - len(swallow)))
            if n and len(rep.samples) < 12: rep.samples.append('%s: %d calls, %d paths' % (ir.base_name(f.dem), len(direct[f.name]), n))
    rep.count('functions that take an error code', len(chk))
    rep.floor('functions with OpenCL calls', len(done), 5)
CHECKS = {'O01': ('other', check)}
