"""Compiles translation units of /repo to LLVM IR, dumps them as JSON (tools/irdump.cpp) and loads them.

Nothing of /repo is executed: clang only produces IR, the analyses read it."""
import hashlib, json, os, pickle, re, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
CACHE = os.path.join(VERIF, '_cache')
CLANG = '/usr/lib/llvm-18/bin/clang++'
LLVM = '/usr/lib/llvm-18'
BASE = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-discard-value-names', '-I' + os.path.join(REPO, 'src')]

class AnalysisError(Exception):
    """The check cannot give an answer (missing anchor, source does not compile, ...)."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def dumper():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'irdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        r = sh(['/usr/bin/g++', '-std=c++17', '-O1', '-fno-rtti', '-I%s/include' % LLVM, src, '-o', tmp, '-L%s/lib' % LLVM, '-lLLVM-18',
                '-Wl,-rpath,%s/lib' % LLVM])
        if r.returncode: raise AnalysisError('cannot build irdump: ' + r.stderr.decode()[:2000])
        os.rename(tmp, exe)
    return exe

def env():
    e = dict(os.environ); e.pop('LD_LIBRARY_PATH', None)
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    return e

def compile_ir(src, flags=(), base=None, pipeline=None, keep=None, clang=CLANG):
    """JSON path of the IR of one source file (cached by preprocessed text, flags and dumper)."""
    if not os.path.exists(src): raise AnalysisError('source file %s is missing' % src)
    exe = dumper()
    base = BASE if base is None else base
    cmd = [clang] + list(base) + list(flags)
    pre = sh(cmd + ['-E', src], env=env())
    if pre.returncode: raise AnalysisError('cannot preprocess %s: %s' % (src, pre.stderr.decode()[:2000]))
    h = hashlib.sha256(b'\0'.join([pre.stdout, ' '.join(cmd).encode(), exe.encode(), (pipeline or '').encode(), (keep or '').encode()])).hexdigest()[:24]
    out = os.path.join(CACHE, h + '.json')
    if not os.path.exists(out):
        bc = os.path.join(CACHE, '%s.%d.bc' % (h, os.getpid()))
        r = sh(cmd + ['-emit-llvm', '-c', src, '-o', bc], env=env())
        if r.returncode: raise AnalysisError('cannot compile %s: %s' % (src, r.stderr.decode()[:3000]))
        tmp = out + '.%d' % os.getpid()
        r = sh([exe, bc, tmp] + ([pipeline] if pipeline else []) + ([keep] if keep else []), env=env())
        os.unlink(bc)
        if r.returncode: raise AnalysisError('irdump failed on %s: %s' % (src, r.stderr.decode()[:2000]))
        os.rename(tmp, out)
    return out

def compile_many(jobs):
    """jobs: list of (src, flags[, base[, pipeline]]) -> list of paths, in parallel."""
    from concurrent.futures import ThreadPoolExecutor
    dumper()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: compile_ir(*j), jobs))

class Function:
    def __init__(self, d, mod):
        self.mod = mod; self.d = d
        self.name = d['name']; self.dem = d['dem']; self.decl = d['decl']
        self.args = d['args']; self.ret = d['ret']
        self.blocks = d['blocks']; self.line = d.get('line'); self.file = d.get('file')
        self._cfg = None
    def cfg(self):
        if self._cfg is None: self._cfg = CFG(self)
        return self._cfg
    def instrs(self):
        for b, ins in enumerate(self.blocks):
            for i in ins: yield b, i
    def where(self, ins=None):
        f = (ins or {}).get('fl') or self.file or self.mod.source
        l = (ins or {}).get('ln') or self.line or 0
        return '%s:%s' % (relname(f), l)
    def short(self):
        return short(self.dem)
    @property
    def byid(self):
        m = self.__dict__.get('_byid')
        if m is None:
            m = {i['id']: i for _, i in self.instrs()}; self.__dict__['_byid'] = m
        return m

def relname(f):
    f = os.path.normpath(f) if f else '?'
    if f.startswith(REPO + '/'): f = f[len(REPO) + 1:]
    return f

def short(dem):
    """Demangled name without the parameter list and template noise."""
    d = 0; out = []
    s = dem
    # strip the trailing parameter list: find the last top-level '('
    depth = 0; cut = None
    for i, c in enumerate(s):
        if c in '<': depth += 1
        elif c == '>' : depth -= 1
        elif c == '(' and depth == 0:
            if s[i:].startswith('(anonymous namespace)'): continue
            if s[max(0, i - 8):i] == 'operator': continue
            cut = i; break
    if cut is not None: s = s[:cut]
    return s.strip()

def base_name(dem):
    """penguinV::ImageTemplate<unsigned char>::resize(...) -> penguinV::ImageTemplate::resize (no template args, no return type)."""
    s = short(dem)
    out = []; depth = 0; i = 0
    s = s.replace('operator<<', 'operator@LL').replace('operator<', 'operator@L').replace('operator>>', 'operator@GG').replace('operator->', 'operator@A').replace('operator>', 'operator@G')
    for c in s:
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif depth == 0: out.append(c)
    s = ''.join(out).replace('(anonymous namespace)', '{anon}')
    if 'operator' in s:
        pre, _, post = s.partition('operator')
        pre = pre.split(' ')[-1]
        s = pre + 'operator' + post
    else:
        s = s.split(' ')[-1]
    return s

def param_list(dem):
    """Top-level parameter type strings of a demangled function name."""
    depth = 0; start = None
    for i, c in enumerate(dem):
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0:
            if dem[i:].startswith('(anonymous namespace)'): continue
            if dem[max(0, i - 8):i] == 'operator': continue
            start = i; break
    if start is None: return []
    depth = 0; out = []; cur = ''
    for c in dem[start + 1:]:
        if c in '<([': depth += 1
        if c in '>)]':
            if depth == 0: break
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return [] if out == ['void'] else out

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.source = d['source']; self.types = d['types']
        self.globals = {g['name']: g for g in d['globals']}
        self.records = {}
        for r in d['records']: self.records.setdefault(r['name'], r)
        self.functions = {}
        for f in d['functions']: self.functions[f['name']] = Function(f, self)
        for a, t in (x for x in d['aliases'] if len(x) == 2):
            if t in self.functions: self.functions.setdefault(a, self.functions[t])
        self.path = path
    def tsize(self, t): return self.types[t].get('size', 0)
    def defined(self): return [f for f in self.functions.values() if not f.decl]
    def by_base(self, name): return [f for f in self.functions.values() if base_name(f.dem) == name]

def load(path): return Module(path)

TERM = ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume')

class CFG:
    """Control-flow graph: successors, predecessors, dominators, post-dominators (normal edges), natural loops."""
    def __init__(self, fn):
        n = len(fn.blocks); self.fn = fn; self.n = n
        self.succ = [[] for _ in range(n)]; self.nsucc = [[] for _ in range(n)]
        for b, ins in enumerate(fn.blocks):
            t = ins[-1]; op = t['op']
            if op == 'br': s = t['succ']
            elif op == 'switch': s = [t['def']] + [c[1] for c in t['cases']]
            elif op == 'invoke': s = [t['nd'], t['ud']]
            else: s = []
            self.succ[b] = list(dict.fromkeys(s))
            self.nsucc[b] = [t['nd']] if op == 'invoke' else self.succ[b]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]: self.pred[s].append(b)
        self.idom = dominators(n, 0, self.succ, self.pred)
        # post-dominators over normal edges, ignoring blocks that cannot return
        live = self._returning()
        ex = n
        ps = [[] for _ in range(n + 1)]; pp = [[] for _ in range(n + 1)]
        for b in range(n):
            if b not in live: continue
            ss = [s for s in self.nsucc[b] if s in live]
            if fn.blocks[b][-1]['op'] == 'ret': ss = [ex]
            for s in ss:
                ps[s].append(b); pp[b].append(s)
        self.ipdom = dominators(n + 1, ex, ps, pp)
        self.live = live
        self.loops = self._loops()
        self.header = {l.header: l for l in self.loops}
        self.inner = [None] * n
        for l in sorted(self.loops, key=lambda l: -len(l.body)):
            for b in l.body: self.inner[b] = l
    def _returning(self):
        live = set(b for b in range(self.n) if self.fn.blocks[b][-1]['op'] == 'ret')
        work = list(live); npred = [[] for _ in range(self.n)]
        for b in range(self.n):
            for s in self.nsucc[b]: npred[s].append(b)
        while work:
            b = work.pop()
            for p in npred[b]:
                if p not in live: live.add(p); work.append(p)
        return live
    def dominates(self, a, b):
        while b is not None:
            if a == b: return True
            b = self.idom[b] if self.idom[b] != b else None
        return False
    def _loops(self):
        loops = {}
        for b in range(self.n):
            if self.idom[b] is None and b != 0: continue
            for s in self.nsucc[b]:
                if self.dominates(s, b):
                    l = loops.setdefault(s, Loop(s)); l.latches.append(b)
                    work = [b]; l.body.add(s)
                    while work:
                        x = work.pop()
                        if x in l.body: continue
                        l.body.add(x)
                        work += [p for p in self.pred[x] if self.idom[p] is not None or p == 0]
        return list(loops.values())

class Loop:
    def __init__(self, h): self.header = h; self.latches = []; self.body = set()

def dominators(n, root, succ, pred):
    order = []; seen = [False] * n
    st = [(root, iter(succ[root]))]; seen[root] = True
    while st:
        b, it = st[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True; st.append((s, iter(succ[s]))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = [None] * n; idom[root] = root
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == root: continue
            new = None
            for p in pred[b]:
                if idom[p] is None: continue
                if new is None: new = p
                else:
                    a, c = p, new
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    new = a
            if new is not None and idom[b] != new: idom[b] = new; ch = True
    return idom
