"""Path exploration of fully inlined functions with a finite symbolic store: the basis of the lock, wait and ownership typestate analyses.

Each function is explored over its control-flow graph (normal and exceptional edges). A state is (block, SSA bindings, local memory, client state);
states are memoised, loop-header values are opaque unless literal, so the exploration terminates. Nothing is executed."""
import sys, ir
sys.setrecursionlimit(20000)

NOTHROW = ('pthread_', '__cxa_begin_catch', '__cxa_free_exception', '__cxa_allocate_exception', '_ZdlPv', '_ZdaPv', 'llvm.', '__cxa_guard', '__cxa_atexit', '__cxa_end_catch')

def neg(x): return None if x is None else 1 - x

class Explorer:
    def __init__(self, fn, client, limit=60000):
        self.fn = fn; self.mod = fn.mod; self.client = client; self.cfg = fn.cfg(); self.limit = limit
        self.by = fn.byid
        self.headers = set(l.header for l in self.cfg.loops)
        self.truncated = False
        self.blk = {}
        for b, i in fn.instrs(): self.blk[i['id']] = b
    # ---- values
    def val(self, v, st):
        k = v[0]
        if k == 'v': return self.ssa(v[1], st)
        if k == 'a': return self.client.arg(self, v[1])
        if k == 'i':
            n = int(v[2])
            return ('i', n)
        if k == 'n': return ('i', 0)
        if k == 'g': return ('g', v[1])
        if k in ('z', 'u', 'poison'): return ('i', 0) if k == 'z' else ('undef',)
        if k == 'ce':
            e = v[1]
            if e['op'] == 'getelementptr': return self.gep(e, e['ops'][0], st)
            return self.val(e['ops'][0], st) if e.get('ops') else ('x',)
        return ('x',)
    def ssa(self, i, st):
        env = st['env']
        if i in env: return env[i]
        ins = self.by[i]; op = ins['op']
        r = None
        if op == 'alloca': r = ('al', i)
        elif op == 'getelementptr': r = self.gep(ins, ins['base'], st)
        elif op in ('bitcast', 'trunc', 'zext', 'sext', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            x = self.val(ins['ops'][0], st)
            if op == 'trunc' and x[0] == 'i': x = ('i', x[1] & ((1 << self.mod.types[ins['ty']].get('w', 64)) - 1))
            elif op == 'sext' and x[0] == 'i':
                w = self.mod.types[ins['oty'][0]].get('w', 64)
                if x[1] >> (w - 1): x = ('i', (x[1] - (1 << w)) & ((1 << self.mod.types[ins['ty']].get('w', 64)) - 1))
            r = x
        elif op == 'icmp':
            a, b = self.val(ins['ops'][0], st), self.val(ins['ops'][1], st)
            r = cmp(ins['pred'], a, b)
        elif op in ('xor', 'and', 'or', 'add', 'sub', 'mul', 'shl', 'lshr', 'udiv', 'urem', 'ashr', 'sdiv', 'srem'):
            a, b = self.val(ins['ops'][0], st), self.val(ins['ops'][1], st)
            w = self.mod.types[ins['ty']].get('w', 64)
            r = arith(op, a, b, w)
        elif op == 'select':
            c = self.val(ins['ops'][0], st)
            if c[0] == 'i': r = self.val(ins['ops'][1 if c[1] else 2], st)
            else: r = ('sel', c, self.val(ins['ops'][1], st), self.val(ins['ops'][2], st))
        elif op == 'extractvalue':
            a = self.val(ins['ops'][0], st)
            r = ('xv', a, tuple(ins['ix']))
        elif op == 'insertvalue': r = ('x', i)
        else: r = ('v', i)
        return r
    def gep(self, d, base, st):
        p = self.val(base, st)
        return self.client.gep(self, p, d, st)
    # ---- exploration
    def run(self, init):
        st = dict(env={}, mem={}, c=init)
        work = [(0, None, st)]; seen = set(); n = 0
        while work:
            b, prev, st = work.pop()
            key = (b, prev if self.has_phi(b) else None, self.freeze(st, b))
            if key in seen: continue
            seen.add(key); n += 1
            if n > self.limit: self.truncated = True; return n
            for nb, ns in self.block(b, prev, st): work.append((nb, b, ns))
        return n
    def has_phi(self, b): return self.fn.blocks[b][0]['op'] == 'phi'
    def live(self, b):
        L = self.__dict__.get('_live')
        if L is None: L = self._live = self.liveness()
        return L[b]
    def liveness(self):
        n = self.cfg.n; use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        def refs(ins):
            out = []
            def walk(v):
                if isinstance(v, list):
                    if len(v) == 2 and v[0] == 'v' and isinstance(v[1], int): out.append(v[1])
                    else:
                        for x in v: walk(x)
                elif isinstance(v, dict):
                    for x in v.values(): walk(x)
            for k in ('ops', 'args', 'cond', 'base', 'idx', 'callee', 'inc', 'steps', 'gep', 'var'):
                if k in ins: walk(ins[k])
            return out
        # expand pure values to their leaves: keep everything that any later computation could need
        for b, bl in enumerate(self.fn.blocks):
            for ins in bl:
                use[b].update(refs(ins)); df[b].add(ins['id'])
        # close over pure definitions (lazily evaluated operands)
        pure = {}
        for b, ins in self.fn.instrs():
            if ins['op'] not in ('load', 'phi', 'call', 'invoke', 'atomicrmw', 'cmpxchg', 'alloca', 'landingpad'): pure[ins['id']] = refs(ins)
        def close(s):
            w = list(s); out = set(s)
            while w:
                x = w.pop()
                for y in pure.get(x, ()):
                    if y not in out: out.add(y); w.append(y)
            return out
        use = [close(u) for u in use]
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                s = set(use[b])
                for x in self.cfg.succ[b]: s |= live[x]
                if s != live[b]: live[b] = s; ch = True
        return live
    def freeze(self, st, b):
        L = self.live(b)
        return (tuple(sorted((k, v) for k, v in st['env'].items() if k in L)), tuple(sorted(st['mem'].items(), key=repr)), self.client.freeze(st['c']))
    def copy(self, st):
        return dict(env=dict(st['env']), mem=dict(st['mem']), c=self.client.copy(st['c']))
    def block(self, b, prev, st):
        st = self.copy(st)
        cl = self.client
        # values of an earlier visit of this block are stale
        for ins in self.fn.blocks[b]: st['env'].pop(ins['id'], None) if ins['op'] != 'phi' else None
        phis = {}
        for ins in self.fn.blocks[b]:
            if ins['op'] != 'phi': break
            for pb, v in ins['inc']:
                if pb == prev:
                    if v[0] == 'i' or v[0] == 'n': phis[ins['id']] = self.val(v, st)
                    elif b in self.headers:
                        x = self.val(v, st)
                        phis[ins['id']] = cl.headerphi(self, ins, x) or ('v', ins['id'])
                    else: phis[ins['id']] = self.val(v, st)
        if b in self.headers:
            # non-literal loop values become opaque; drop decisions that belonged to the previous iteration
            for l in self.cfg.loops:
                if l.header == b:
                    for x in l.body:
                        for i2 in self.fn.blocks[x]: st['env'].pop(i2['id'], None)
        st['env'].update(phis)
        for ins in self.fn.blocks[b]:
            op = ins['op']
            if op == 'phi': continue
            if op == 'load':
                p = self.val(ins['ops'][0], st)
                v = self.load(p, ins, st)
                st['env'][ins['id']] = v
                cl.access(self, ins, st, p, False, bool(ins.get('atomic')), v)
            elif op == 'store':
                v = self.val(ins['ops'][0], st); p = self.val(ins['ops'][1], st)
                cl.access(self, ins, st, p, True, bool(ins.get('atomic')), v)
                self.store(p, v, st)
            elif op == 'atomicrmw':
                p = self.val(ins['ops'][0], st); v = self.val(ins['ops'][1], st)
                cl.rmw(self, ins, st, p, ins['rmw'], v)
                st['env'][ins['id']] = ('rmw', ins['id'], p, ins['rmw'], v)
            elif op == 'cmpxchg':
                p = self.val(ins['ops'][0], st)
                cl.access(self, ins, st, p, True, True, ('x', ins['id']))
            elif op == 'landingpad':
                st['env'][ins['id']] = ('v', ins['id']); cl.landing(self, ins, st)
            elif op in ('call', 'invoke'):
                outs = self.call(b, ins, st)
                if op == 'invoke':
                    r = []
                    for kind, s2 in outs:
                        if kind == 'ok': r.append((ins['nd'], s2))
                        elif kind == 'throw': r.append((ins['ud'], s2))
                    return r
                cont = None
                for kind, s2 in outs:
                    if kind == 'ok': cont = s2
                    elif kind == 'throw': cl.leave(self, ins, s2, 'exception', None)
                if cont is None: return []
                st = cont
            elif op == 'br':
                if len(ins['succ']) == 1: return [(ins['succ'][0], st)]
                return self.branch(ins, ins['cond'], ins['succ'], st)
            elif op == 'switch':
                v = self.val(ins['cond'], st)
                if v[0] == 'i':
                    for cv, t in ins['cases']:
                        if int(cv[2]) == v[1]: return [(t, st)]
                    return [(ins['def'], st)]
                return [(t, self.copy(st)) for t in dict.fromkeys([ins['def']] + [c[1] for c in ins['cases']])]
            elif op == 'ret':
                v = self.val(ins['ops'][0], st) if ins.get('ops') else None
                cl.leave(self, ins, st, 'return', v); return []
            elif op == 'resume':
                cl.leave(self, ins, st, 'exception', None); return []
            elif op == 'unreachable':
                cl.leave(self, ins, st, 'noreturn', None); return []
        return []
    def branch(self, ins, cond, succ, st):
        v = self.val(cond, st)
        v = self.client.decide(self, ins, st, v)
        if v[0] == 'i': return [(succ[0] if v[1] else succ[1], st)]
        out = []
        for bit, t in ((1, succ[0]), (0, succ[1])):
            s2 = self.copy(st)
            if cond[0] == 'v': s2['env'][cond[1]] = ('i', bit)
            self.assume(v, bit, s2)
            if self.client.took(self, ins, s2, v, bit) is False: continue
            out.append((t, s2))
        return out
    def assume(self, v, bit, st):
        """records the value of a loaded boolean that decided a branch"""
        if v[0] == 'not': return self.assume(v[1], 1 - bit, st)
        if v[0] == 'cmp' and v[1] in ('eq', 'ne') and v[3] == ('i', 0):
            truth = bit if v[1] == 'ne' else 1 - bit
            if truth == 0:
                self.bind(v[2], ('i', 0), st)
            elif v[2][0] == 'and' and v[2][2] == ('i', 1): self.bind(v[2], ('i', 1), st)
            return
        self.bind(v, ('i', bit), st)
    def bind(self, v, c, st):
        if v[0] == 'and' and v[2] == ('i', 1): v = v[1]
        for k, x in list(st['env'].items()):
            if x == v: st['env'][k] = c
        for k, x in list(st['mem'].items()):
            if x == v: st['mem'][k] = c
        self.client.bound(self, st, v, c)
    # ---- memory of local objects
    def slot(self, p):
        if p[0] == 'al': return (p[1], 0)
        if p[0] == '+' and p[1][0] == 'al' and p[2] != '?': return (p[1][1], p[2])
        return None
    def load(self, p, ins, st):
        s = self.slot(p)
        if s is not None: return st['mem'].get(s, ('v', ins['id']))
        return self.client.loaded(self, ins, st, p)
    def store(self, p, v, st):
        s = self.slot(p)
        if s is not None:
            if v[0] in ('x', 'undef', 'v') : st['mem'].pop(s, None)
            else: st['mem'][s] = v
    def call(self, b, ins, st):
        c = ins['callee']; cl = self.client
        name = c[1] if c[0] == 'g' else None
        f = self.mod.functions.get(name) if name else None
        dem = f.dem if f else (name or '')
        args = [self.val(a, st) for a in ins['args']]
        r = cl.call(self, ins, st, name, dem, args)
        nounw = bool(ins.get('nounwind')) or (name or '').startswith(NOTHROW)
        if isinstance(r, tuple) and r and r[0] == 'outs': return r[1]
        if r is None:
            r = ('v', ins['id'])
            if name is None or not name.startswith('llvm.'):
                for a in args:
                    s = self.slot(a)
                    if s is not None and not cl.pure(name, dem):
                        for k in [k for k in st['mem'] if k[0] == s[0]]: del st['mem'][k]
        st['env'][ins['id']] = r
        if ins.get('noreturn'):
            if nounw or cl.terminates(name, dem): return []
            return [('throw', st)]
        outs = [('ok', st)]
        if not nounw and not cl.nothrow(name, dem):
            s2 = self.copy(st); s2['env'].pop(ins['id'], None)
            cl.thrown(self, ins, s2, name, dem, args)
            outs.append(('throw', s2))
        return outs

def cmp(pred, a, b):
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        s = lambda z: z - (1 << 64) if z >> 63 else z
        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': s(x) < s(y), 'sle': s(x) <= s(y), 'sgt': s(x) > s(y), 'sge': s(x) >= s(y)}[pred]
        return ('i', 1 if r else 0)
    if a == b and a[0] in ('F', 'al', '+', 'a') :
        if pred in ('eq', 'ule', 'uge', 'sle', 'sge'): return ('i', 1)
        if pred in ('ne', 'ult', 'ugt', 'slt', 'sgt'): return ('i', 0)
    if pred in ('eq', 'ne') and b == ('i', 0) and a[0] in ('al', 'F', 'g'): return ('i', 1 if pred == 'ne' else 0)
    if a[0] == 'i': # constants to the right
        sw = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
        a, b, pred = b, a, sw[pred]
    return ('cmp', pred, a, b)

def arith(op, a, b, w):
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]; m = (1 << w) - 1
        try:
            r = {'xor': lambda: x ^ y, 'and': lambda: x & y, 'or': lambda: x | y, 'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'udiv': lambda: x // y, 'urem': lambda: x % y}[op]()
            return ('i', r & m)
        except Exception: return ('x', op)
    if op == 'xor' and w == 1 and b == ('i', 1): return a[1] if a[0] == 'not' else ('not', a)
    if op == 'and' and b == ('i', 1): return a if w == 1 else ('and', a, b)
    if op == 'and' and (a == ('i', 0) or b == ('i', 0)): return ('i', 0)
    if op == 'or' and w == 1 and (a == ('i', 1) or b == ('i', 1)): return ('i', 1)
    if op == 'or' and w == 1 and a == ('i', 0): return b
    if op == 'or' and w == 1 and b == ('i', 0): return a
    if op == 'and' and w == 1 and a == ('i', 1): return b
    if op == 'sub' and b[0] == 'i': op, b = 'add', ('i', (-b[1]) & ((1 << w) - 1))
    if op == 'add' and a[0] == 'i': a, b = b, a
    if op == 'add' and b == ('i', 0): return a
    if op == 'add' and a[0] == 'add' and a[2][0] == 'i' and b[0] == 'i':
        return arith('add', a[1], ('i', (a[2][1] + b[1]) & ((1 << w) - 1)), w)
    return (op, a, b)

def subst(e, x, c, w=1):
    """e with the sub-expression x replaced by the constant c, folded"""
    if e == x: return c
    if not isinstance(e, tuple): return e
    if e[0] == 'not':
        r = subst(e[1], x, c)
        return ('i', 1 - (r[1] & 1)) if r[0] == 'i' else ('not', r)
    if e[0] == 'cmp': return cmp(e[1], subst(e[2], x, c), subst(e[3], x, c))
    if e[0] in ('and', 'or', 'xor', 'add', 'sub'): return arith(e[0], subst(e[1], x, c), subst(e[2], x, c), 64)
    if e[0] == 'sel':
        k = subst(e[1], x, c)
        if k[0] == 'i': return subst(e[2] if k[1] else e[3], x, c)
    return e

class Client:
    """Default hooks."""
    def arg(self, ex, i): return ('a', i)
    def freeze(self, c): return repr(c)
    def copy(self, c): return dict(c)
    def headerphi(self, ex, ins, x): return None
    def access(self, ex, ins, st, p, write, atomic, v): pass
    def rmw(self, ex, ins, st, p, op, v): self.access(ex, ins, st, p, True, True, ('x', ins['id']))
    def landing(self, ex, ins, st): pass
    def leave(self, ex, ins, st, kind, v): pass
    def decide(self, ex, ins, st, v): return v
    def took(self, ex, ins, st, v, bit): return True
    def bound(self, ex, st, v, c): pass
    def loaded(self, ex, ins, st, p): return ('L', p)
    def call(self, ex, ins, st, name, dem, args): return None
    def thrown(self, ex, ins, st, name, dem, args): pass
    def pure(self, name, dem): return False
    def nothrow(self, name, dem): return False
    def terminates(self, name, dem): return (name or '') in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit')
    interesting = staticmethod(lambda s: True)
    def interesting(self, name): return False
    def gep(self, ex, p, d, st):
        """('F', class, base, offset) for a field of a class of interest, ('+', base, offset or '?') otherwise."""
        mod = ex.mod; t = mod.types[d['srcty']]
        off = d['off'] if d.get('gepok') else '?'
        if d.get('vars'):
            for v, k in d['vars']:
                x = ex.val(v, st)
                if off != '?' and x[0] == 'i':
                    n = x[1] - (1 << 64) if x[1] >> 63 else x[1]
                    off += n * k
                else: off = '?'
        if t.get('k') == 'struct' and self.interesting(t.get('name', '')) and len(d['idx']) > 1 and off != '?':
            return ('F', t['name'].split('.', 1)[1].replace('.base', ''), p, off)
        if off == 0: return p
        if p[0] == '+':
            if p[2] == '?' or off == '?': return ('+', p[1], '?')
            o = p[2] + off
            return p[1] if o == 0 else ('+', p[1], o)
        if p[0] == 'F' and off != '?': return ('F', p[1], p[2], p[3] + off)
        return ('+', p, off)
