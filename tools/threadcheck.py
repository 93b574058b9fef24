"""T01-T05: lockset, wait/notify and task-accounting typestate over every path of the thread pool (paths.py), including exceptional ones."""
import ir, paths
from ir import AnalysisError, base_name

KEEP = 'std::__cxx11::list<|std::vector<std::thread|std::thread::|::_M_fill_insert(|::_M_default_append(|::_M_realloc_insert|::_M_erase_at_end(|::_M_insert_aux'
PIPE = 'function(sroa,mem2reg),always-inline,function(sroa,mem2reg,simplifycfg,loop-simplify)'
FLAGS = ['-O1', '-Xclang', '-disable-llvm-passes']
POOL, PROV = 'ThreadPool', 'AbstractTaskProvider'
CONTROL = ('resize', 'stop', 'ThreadPool', '~ThreadPool')

def strip(p):
    while p[0] == '+': p = p[1]
    return p

class Model:
    """Members of the classes of the library, from debug information."""
    def __init__(self, mod): self.mod = mod; self.cache = {}
    def member(self, cls, off):
        k = (cls, off)
        if k not in self.cache: self.cache[k] = self._find(cls, off)
        return self.cache[k]
    def _find(self, cls, off):
        r = self.mod.records.get(cls)
        if not r: return None
        best = None
        for m in r['members']:
            if m['off'] <= off and (best is None or m['off'] >= best['off']): best = m
        if best is None: return None
        if best['n'] == '<base>':
            return self._find(best['t'], off - best['off'])
        return (cls, best['n'], best['t'], off - best['off'])

class TC(paths.Client):
    def __init__(self, chk, fn, role):
        self.chk = chk; self.fn = fn; self.role = role; self.name = base_name(fn.dem)
        p = self.name.split('::'); self.life = len(p) > 1 and p[-1].lstrip('~') == p[-2] # constructors and destructors: the object is not shared (resize and stop are analysed on their own)
    def interesting(self, name):
        n = name.split('.', 1)[-1]
        return n in self.chk.classes or n.replace('.base', '') in self.chk.classes
    def gep(self, ex, p, d, st):
        F = paths.Client.gep(self, ex, p, d, st)
        while F[0] == 'F': # a member that is itself an object of the library
            m = self.chk.model.member(F[1], F[3])
            if not m or m[3] < 0 or m[2] not in self.chk.classes: break
            if m[2] == F[1] or (m[3] == 0 and len(d['idx']) <= 2): break
            F = ('F', m[2], ('F', F[1], F[2], F[3] - m[3]), m[3])
        return F
    # ---- locations
    def mem(self, F): return self.chk.model.member(F[1], F[3]) if F[0] == 'F' else None
    def isf(self, p, kind):
        if p[0] != 'F': return None
        m = self.mem(p)
        if m and kind in m[2]: return ('F', p[1], p[2], p[3] - m[3])
        return None
    def site(self, ins): return '%s (%s)' % (self.fn.where(ins), base_name(self.fn.dem)) + (' in inlined ' + ins['sf'] if ins.get('sf') else '')
    def bad(self, prop, ins, msg): self.chk.bad(prop, base_name(self.fn.dem), '%s:%s' % (ir.relname(ins.get('fl') or ''), ins.get('ln') or 0), ins.get('sf'), msg)
    # ---- typed loads
    def loaded(self, ex, ins, st, p):
        q = strip(p); c = st['c']
        if q[0] == 'F':
            m = self.mem(q)
            if m and 'list<' in m[2]: return ('node', self.norm(q))
            if p in c['val']: return c['val'][p]
            return ('L', p)
        if q[0] == 'node':
            off = p[2] if p[0] == '+' else 0
            if off == 16:
                v = ('elem', q[1], ins['id'], q[2] if len(q) > 2 else '')
                self.elem(ins, st, v)
                return v
            return q
        if q[0] == 'L' and q[1][0] == 'F':
            m = self.mem(q[1])
            if m and 'vector<' in m[2]: return ('vel', self.norm(q[1]), ins['id'])
        return ('L', p)
    def norm(self, F):
        m = self.mem(F); return ('F', F[1], F[2], F[3] - (m[3] if m else 0))
    def headerphi(self, ex, ins, x):
        q = strip(x)
        if q[0] == 'node': return q[:2]
        if q[0] == 'L' and q[1][0] == 'F':
            m = self.mem(q[1])
            if m and 'vector<' in m[2]: return ('+', q, '?')
        return None
    def elem(self, ins, st, v):
        c = st['c']
        if c['pe']: c['skip'] = True
        c['pe'] = v; c['dead'] = None
        if c['sect'] is not None: c['sect'] = c['sect'] | {v}
    # ---- accesses
    def target(self, p):
        """(F of the member, is content, position root) or None"""
        q = strip(p)
        if q[0] == 'F': return (self.norm(q), False, None)
        if q[0] == 'node': return (q[1], True, None)
        if q[0] == 'L' and q[1][0] == 'F':
            m = self.mem(q[1])
            if m and 'vector<' in m[2]: return (self.norm(q[1]), True, m[3])
        return None
    def access(self, ex, ins, st, p, write, atomic, v):
        t = self.target(p)
        if not t: return
        F, content, pos = t; m = self.mem(F); c = st['c']
        if m is None: return
        self.acc(ex, ins, st, F, m, content, pos, write, atomic, v)
    def alive(self, ins, st, F):
        c = st['c']
        if c['dead'] is not None and F[2] == c['dead'] and F[1] in self.chk.provs:
            self.bad('T04', ins, 'the provider is accessed (%s) after it was released, when its owner may already have destroyed it' % self.mem(F)[1])
    def acc(self, ex, ins, st, F, m, content, pos, write, atomic, v, bulk=False):
        c = st['c']
        if 'mutex' in m[2] or 'condition_variable' in m[2]: return
        if c['dead'] is not None and F[2] == c['dead'] and F[1] in self.chk.provs:
            self.bad('T04', ins, 'the provider is accessed (%s) after its last task was reported or after this task was counted, when its owner may already have destroyed it' % m[1])
        held = frozenset((l[1], self.chk.model.member(l[1], l[3])[1], l[2] == F[2]) for l in c['locks'])
        if not self.life:
            self.chk.record(self, ins, F, m, content, write, atomic, held)
        if write:
            self.written(ex, ins, st, F, m, content, pos, atomic, v)
            if not content and F[0] == 'F': c['sto'] = c['sto'] | {(F, v if v and v[0] == 'i' else None)}
            if self.role == 'owner' and not content and v is not None and 'atomic<unsigned' in m[2]: c['val'] = dict(c['val'], **{F: v}) if False else self.setval(c['val'], F, v)
        elif c['exc'] and False: pass
    def setval(self, d, k, v):
        d = dict(d); d[k] = v; return d
    def written(self, ex, ins, st, F, m, content, pos, atomic, v):
        c = st['c']
        if c['exc'] and not content and v == ('i', 1): c['raised'] = c['raised'] | {m[:2]}
        for cv, mu, mm, cont, expr, leaf, bit, role in self.chk.waits_final:
            if mm != m[:2] or cont != content or c['ctor']: continue
            if content and pos == 8: continue # appended elements belong to threads that do not exist yet
            if v is not None and v[0] == 'i':
                r = paths.subst(expr, leaf, v)
                if r[0] == 'i' and (r[1] & 1) != bit: continue
            self.chk.count('T03', 'stores that can satisfy a wait condition')
            lock = [l for l in c['locks'] if l[1] == mu[0] and self.chk.model.member(l[1], l[3])[1] == mu[1] and l[2] == F[2]]
            if not lock:
                self.bad('T03', ins, '%s is changed without holding %s, so a thread about to wait can miss the change' % (m[1], mu[1]))
            if (cv, F[2]) in c['ntf']: continue
            c['pend'] = c['pend'] | {(cv, F[2], m[1], 'all' if role == 'worker' else 'one')}
            c['rel'] = F[2] if m[0] in self.chk.provs else c['rel']
            if not lock and m[0] in self.chk.provs and self.role == 'worker' and c['inc'] == F[2]: c['dead'] = F[2]
            if m[0] in self.chk.provs and c['last'] is not None and c['last'][1] == 0:
                self.bad('T03', ins, 'the provider is released although this was not its last task')
    def rmw(self, ex, ins, st, p, op, v):
        c = st['c']; q = strip(p)
        self.access(ex, ins, st, p, True, True, ('x', ins['id']) if op != 'xchg' else v)
        if q[0] == 'F' and op == 'add' and q[1] in self.chk.provs:
            F = self.norm(q); m = self.mem(F)
            self.chk.rmwd.setdefault(m[:2], set()).add(base_name(self.fn.dem))
            if v != ('i', 1): self.bad('T04', ins, '%s is not advanced by one' % m[1])
            if m[:2] in self.chk.completed:
                if c['exc'] and not c['raised']: self.bad('T05', ins, 'the task is counted as completed before its exception is recorded')
                if c['bal'] > 0: c['bal'] -= 1
                else: c['extra'] = min(2, c['extra'] + 1)
                c['pe'] = None
                c['inc'] = F[2]; c['last'] = None; c['exc'] = False; c['raised'] = frozenset()
    # ---- decisions on counters
    def leaves(self, e, out):
        if not isinstance(e, tuple) or not e: return
        if e[0] == 'rmw': out.append(e); return
        if e[0] == 'L' and e[1][0] == 'F': out.append(e); return
        if e[0] in ('vel',): out.append(e); return
        for x in e[1:]:
            if isinstance(x, tuple): self.leaves(x, out)
    def counter(self, v):
        """('range'|'last'|'bad', rmw leaf) for a comparison of a task counter with the task count"""
        lv = []; self.leaves(v, lv)
        lv = list(dict.fromkeys(lv))
        r = [x for x in lv if x[0] == 'rmw' and strip(x[2])[0] == 'F' and strip(x[2])[1] in self.chk.provs]
        l = [x for x in lv if x[0] == 'L' and x[1][1] in self.chk.provs]
        if len(lv) != 2 or len(r) != 1 or len(l) != 1: return None
        al = True; no = True; last = True; nlast = True
        for n in (1, 2, 3, 5):
            for k in range(n):
                t = paths.subst(paths.subst(v, r[0], ('i', k)), l[0], ('i', n))
                if t[0] != 'i': return None
                b = t[1] & 1
                al &= b == 1; no &= b == 0; last &= b == (1 if k == n - 1 else 0); nlast &= b == (0 if k == n - 1 else 1)
        return ('range' if al else 'norange' if no else 'last' if last else 'nlast' if nlast else 'bad', r[0], l[0])
    def decide(self, ex, ins, st, v):
        k = self.counter(v)
        if k and k[0] == 'range':
            return ('i', 1)
        if k and k[0] == 'norange': return ('i', 0)
        w = v[1] if v[0] == 'not' else v
        if w[0] == 'cmp' and w[1] in ('eq', 'ne') and w[2][0] == 'elem' and w[3] == ('i', 0): # queued providers are not null
            return ('i', (1 if w[1] == 'ne' else 0) ^ (1 if v[0] == 'not' else 0))
        return v
    def took(self, ex, ins, st, v, bit):
        c = st['c']
        lv = []; self.leaves(v, lv)
        for x in dict.fromkeys(lv):
            if x[0] == 'L' and x[1][0] == 'F' and x[1][2] == ('a', 0) and self.mem(x[1]) and '*' in self.mem(x[1])[2]:
                w, b2 = (v[1], 1 - bit) if v[0] == 'not' else (v, bit)
                if w[0] == 'cmp' and w[1] in ('eq', 'ne') and w[3] == ('i', 0) and b2 == (1 if w[1] == 'eq' else 0): c['nullp'] = True
            F = x[1] if x[0] == 'L' else self.norm(strip(x[2])) if x[0] == 'rmw' and x[3] == 'xchg' and strip(x[2])[0] == 'F' else None
            if F and F[0] == 'F':
                r = [paths.subst(v, x, ('i', z)) for z in (0, 1)]
                if r[0][0] == 'i' and r[1][0] == 'i' and (r[0][1] ^ r[1][1]) & 1: c['dec'] = self.setval(c['dec'], F, 0 if (r[0][1] & 1) == bit else 1)
        k = self.counter(v)
        if k:
            m = self.mem(self.norm(strip(k[1][2])))
            if k[0] in ('last', 'nlast'):
                c['last'] = (k[1][2], bit if k[0] == 'last' else 1 - bit)
                self.chk.completed_found.add(m[:2])
                if c['last'][1] == 0 and c['inc'] is not None and self.role == 'worker': c['dead'] = c['inc']
                if c['last'][1] == 1: c['must'] = c['inc']
            else:
                self.bad('T04', ins, 'comparing %s with the number of tasks neither accepts every task number nor detects exactly the last one' % m[1])
        # leaving a wait loop
        for l in ex.cfg.loops:
            b = ex.blk[ins['id']]
            if b in l.body:
                s = ins['succ']; t = s[0] if bit else s[1]
                if t not in l.body:
                    lv = []; self.leaves(v, lv)
                    for x in lv:
                        if x[0] in ('L', 'vel') and x[1][0] == 'F': self.chk.exits.setdefault((self.fn.name, l.header), set()).add((v, x, bit))
                    if (self.fn.name, l.header) in self.chk.waitloops: c['waited'] = True
        return True
    def bound(self, ex, st, v, k): pass
    def stale(self, st):
        """a failure indicator read before a mutex was acquired or a wait ended says nothing about the tasks finished since"""
        if base_name(self.fn.dem).split('::')[-1] != '_wait': return
        def old(v):
            lv = []; self.leaves(v, lv)
            return any(x[0] == 'L' or (x[0] == 'rmw' and x[3] == 'xchg') for x in lv)
        for d in (st['env'], st['mem']):
            for k, v in list(d.items()):
                if old(v): d[k] = ('x', 'stale')
        st['c']['dec'] = {}
    # ---- calls
    def call(self, ex, ins, st, name, dem, args):
        c = st['c']; chk = self.chk
        if name in ('pthread_mutex_lock',):
            F = self.isf(strip(args[0]), 'mutex')
            if F:
                self.alive(ins, st, F)
                if F in c['locks']: self.bad('T02', ins, '%s is locked again by the thread that holds it' % self.mem(F)[1])
                for l in c['locks']: chk.order.setdefault((self.mem(l)[:2], self.mem(F)[:2]), self.site(ins))
                c['locks'] = c['locks'] + (F,); c['ctor'] = False; c['sect'] = frozenset()
                self.stale(st)
                chk.count('T02', 'acquisitions')
            return ('i', 0)
        if name in ('pthread_mutex_unlock',):
            F = self.isf(strip(args[0]), 'mutex')
            if F:
                if F not in c['locks']: self.bad('T02', ins, '%s is unlocked although it is not held' % self.mem(F)[1])
                l = list(c['locks'])
                if F in l: l.remove(F)
                c['locks'] = tuple(l)
                c['ntf'] = frozenset(x for x in c['ntf'] if x[1] != F[2])
                if c['rel'] is not None and c['rel'] == F[2] and self.role == 'worker' and c['inc'] == F[2]: c['dead'] = F[2]
                if c['rel'] == F[2]: c['rel'] = None
                c['sect'] = None
            return ('i', 0)
        if dem.startswith('std::condition_variable::wait(') or name in ('pthread_cond_timedwait', 'pthread_cond_clockwait', 'pthread_cond_wait'):
            cv = self.isf(strip(args[0]), 'condition_variable')
            mu = None
            if dem.startswith('std::'):
                s = ex.slot(args[1]); mu = st['mem'].get(s) if s else None
            else: mu = strip(args[1])
            mu = self.isf(strip(mu), 'mutex') if mu else None
            if cv is None or mu is None:
                self.chk.unk('T03', self.site(ins), 'wait on an unknown condition or mutex'); return ('i', 0)
            if mu not in c['locks']: self.bad('T03', ins, 'waiting without holding the mutex')
            for l in c['locks']:
                if l != mu: self.bad('T02', ins, 'waiting while another mutex (%s) is held' % self.mem(l)[1])
            self.stale(st)
            b = ex.blk[ins['id']]; L = ex.cfg.inner[b]
            if L is None: self.bad('T03', ins, 'the wait is not repeated until its condition holds')
            else:
                chk.waitloops[(self.fn.name, L.header)] = (self.mem(cv)[:2], self.mem(mu)[:2], self.role, self.site(ins), ins)
            chk.count('T03', 'waits'); return ('i', 0)
        if dem.startswith('std::condition_variable::notify_'):
            cv = self.isf(strip(args[0]), 'condition_variable')
            if cv:
                self.alive(ins, st, cv)
                chk.count('T03', 'notifications')
                k = (self.mem(cv)[:2], cv[2])
                allw = 'notify_all' in dem
                for x in c['pend']:
                    if x[:2] == k and x[3] == 'all' and not allw: self.bad('T03', ins, 'several threads wait for this condition but only one is notified')
                c['pend'] = frozenset(x for x in c['pend'] if x[:2] != k)
                if c['locks'] and (allw or not any(w[0] == k[0] and w[7] == 'worker' for w in chk.waits_final)): c['ntf'] = c['ntf'] | {k}
                if c['must'] == cv[2]: c['must'] = None
            return ('v', ins['id'])
        if name is None:
            cal = ex.val(ins['callee'], st)
            if cal[0] == 'L':
                off = cal[1][2] if cal[1][0] == '+' else 0
                vt = strip(cal[1])
                if vt[0] == 'L':
                    obj = vt[1]
                    if obj[0] in ('elem', 'a') and off == chk.taskslot:
                        self.task(ex, ins, st, obj, args)
                    return None
            return None
        if name.startswith('llvm.memset') or name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.access(ex, ins, st, args[0], True, False, args[1] if 'memset' in name else None)
            if 'memset' not in name: self.access(ex, ins, st, args[1], False, False, None)
            return ('v', ins['id'])
        if dem.startswith('std::thread::join'):
            for l in c['locks']: self.bad('T02', ins, 'waiting for a thread while %s is held' % self.mem(l)[1])
            chk.joins.add(self.name); return None
        if dem.startswith('std::thread::') and '_M_start_thread' in dem:
            chk.starts.add(self.name); c['ctor'] = False
        # container members
        t = None
        if args: t = self.target(args[0]) if args[0][0] in ('F', '+', 'node', 'L') else None
        b = base_name(dem)
        if t and not t[1]:
            F = t[0]; m = self.mem(F); meth = b.split('::')[-1]
            if m and 'list<' in m[2]: return self.listop(ex, ins, st, F, m, meth, args)
            if m and 'vector<' in m[2]:
                w = meth not in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'back', 'front', 'operator[]', 'data', 'capacity')
                self.acc(ex, ins, st, F, m, False, None, w, False, None)
                if w:
                    self.chk.record(self, ins, F, m, True, True, False, frozenset((l[1], self.chk.model.member(l[1], l[3])[1], l[2] == F[2]) for l in c['locks']))
                return ('v', ins['id'])
        if 'list<' in b or 'list::' in b or b.endswith('::list'):
            s = ex.slot(args[0]) if args else None
            if s and len(args) >= 3 and b.endswith('list::list'): c['cnt'] = self.setval(c['cnt'], s[0], args[1])
        return None
    def listop(self, ex, ins, st, F, m, meth, args):
        c = st['c']; chk = self.chk
        ro = ('front', 'back', 'begin', 'end', 'cbegin', 'cend', 'empty', 'size', 'rbegin', 'rend')
        self.acc(ex, ins, st, F, m, False, None, meth not in ro, False, None)
        if 'AbstractTaskProvider' not in m[2]: return ('v', ins['id'])
        c['scan'] = True
        if meth in ('front', 'back'): return ('+', ('node', F, meth), 16)
        if meth in ('begin', 'cbegin'): return ('node', F, 'front')
        if meth in ('end', 'cend'): return ('node', F)
        if meth in ('pop_front', 'pop_back', 'erase', '_M_erase'):
            chk.count('T04', 'removals of a queued task')
            if c['bal'] > 0: self.bad('T04', ins, 'a task taken from the queue was neither executed nor counted before the next one is taken')
            if c['extra'] == 1 and self.role != 'worker': c['extra'] = 0; c['pe'] = None; return ('node', F)
            c['bal'] = min(2, c['bal'] + 1); c['dead'] = None; c['pe'] = None; c['ran'] = 0
            if meth.startswith('pop') or self.role == 'worker':
                want = 'front' if meth == 'pop_front' else 'back' if meth == 'pop_back' else args[1][2] if len(args) > 1 and args[1][0] == 'node' and len(args[1]) > 2 else ''
                c['cur'] = frozenset(x for x in c['sect'] if x[3] == want) if c['sect'] else frozenset()
                if self.role == 'worker' and not c['cur']: self.bad('T04', ins, 'a task is removed from the queue without being read in the same critical section')
            return ('node', F)
        if meth in ('clear', 'remove', 'remove_if', '_M_clear', 'assign', 'swap', 'resize', 'unique', 'operator='):
            chk.count('T04', 'bulk removals')
            b = ex.blk[ins['id']]; ok = False
            for l in ex.cfg.loops:
                if any(i['op'] == 'atomicrmw' and self.mem(self.norm(strip(ex.val(i['ops'][0], st)))) and strip(ex.val(i['ops'][0], st))[0] == 'F' and self.mem(self.norm(strip(ex.val(i['ops'][0], st))))[:2] in chk.completed for x in l.body for i in ex.fn.blocks[x]) and ex.cfg.dominates(l.header, b): ok = True
            emptied = c.get('emptied')
            if not ok or c['skip'] or c['pe']:
                for p in ('T03', 'T04'): self.bad(p, ins, 'queued tasks are discarded (%s) without being counted as completed, so their provider waits forever' % meth)
            c['extra'] = 0; return ('v', ins['id'])
        if meth in ('splice', 'insert', 'push_back', 'push_front', 'emplace_back', 'emplace', 'merge'):
            chk.count('T04', 'insertions')
            n = None
            if meth == 'splice':
                s = ex.slot(args[2]) if len(args) > 2 else None
                n = c['cnt'].get(s[0]) if s else None
            elif meth == 'insert' and len(args) == 4: n = args[2]
            c['ins'] = n or ('?',)
            chk.inserts.add(self.name)
            self.inserted(ex, ins, st, n)
            return ('v', ins['id'])
        return None
    def inserted(self, ex, ins, st, n):
        c = st['c']; chk = self.chk
        me = [x for x in c['sto']]
        base = {'owner': ('a', 0)}.get(self.role)
        pb = ('a', 0) if self.role == 'owner' else ('a', 1)
        # the waiting condition was armed before a worker can see the task
        for cv, mu, mm, cont, expr, leaf, bit, role in chk.waits_final:
            if mm[0] not in chk.provs: continue
            armed = any(F[2] == pb and self.mem(F)[:2] == mm and v is not None and (paths.subst(expr, leaf, v)[1] & 1) != bit for F, v in me)
            if not armed: self.bad('T04', ins, 'tasks are queued before %s marks the provider as busy, so its owner need not wait for them' % mm[1])
            chk.count('T04', 'arming before insertion')
        if self.role == 'owner':
            for cm in chk.rmwd_members:
                if not any(F[2] == pb and self.mem(F)[:2] == cm and v == ('i', 0) for F, v in me):
                    self.bad('T04', ins, '%s does not start from zero for the new tasks' % cm[1])
                chk.count('T04', 'counter resets')
            for cm in chk.count_members:
                val = [c['val'].get(F) for F, v in me if self.mem(F)[:2] == cm and F[2] == pb]
                if n is None: chk.unk('T04', self.site(ins), 'number of queued tasks unknown')
                elif not val or val[-1] != n: self.bad('T04', ins, 'the number of queued tasks (%s) differs from the number the provider waits for (%s)' % (n, val[-1] if val else 'unset'))
                else: chk.count('T04', 'queued and awaited task numbers equal')
    def task(self, ex, ins, st, obj, args):
        c = st['c']; chk = self.chk
        chk.count('T04', 'task executions')
        for l in c['locks']: self.bad('T02', ins, 'a task is executed while %s is held' % self.mem(l)[1])
        if self.role == 'worker':
            if ins['op'] != 'invoke': self.bad('T05', ins, 'an exception leaving a task is not caught')
            if c['bal'] != 1: self.bad('T04', ins, 'a task is executed that was not taken from the queue')
            if c['ran']: self.bad('T04', ins, 'a task is executed twice')
            if obj[0] == 'elem' and obj not in c['cur']: self.bad('T04', ins, 'the executed task is not the one that was taken from the queue')
            c['ran'] = 1
        elif self.name.split('::')[-1] not in ('_taskRun',):
            self.bad('T04', ins, 'a task is executed outside a worker')
        a = args[1] if len(args) > 1 else None
        if not (a and a[0] == 'rmw' and a[3] == 'add' and a[4] == ('i', 1)):
            self.bad('T04', ins, 'the task number is not the number obtained by the atomic increment')
        else: chk.given.add(self.mem(self.norm(strip(a[2])))[:2])
    def thrown(self, ex, ins, st, name, dem, args):
        if name is None and self.role == 'worker': st['c']['exc'] = True
    def landing(self, ex, ins, st):
        if st['c']['exc'] and not any(cl[0] == 'n' for cl in ins['clauses']):
            self.bad('T05', ins, 'only some exception types of a task are caught')
    def pure(self, name, dem): return dem.startswith(('std::condition_variable', 'std::__cxx11::list<'))
    def nothrow(self, name, dem):
        return dem.startswith(('std::condition_variable::', 'std::terminate')) or name in ('__clang_call_terminate',)
    def leave(self, ex, ins, st, kind, v):
        c = st['c']; chk = self.chk
        if kind == 'noreturn': return
        chk.count('T02', 'exits')
        for l in c['locks']: self.bad('T02', ins, '%s is still held when the function is left by %s' % (self.mem(l)[1], kind))
        for x in c['pend']: self.bad('T03', ins, '%s was changed but the threads waiting for it are not notified' % x[2])
        if c['must'] is not None: self.bad('T03', ins, 'the last completed task does not release the waiting provider')
        if c['bal'] > 0 :
            for p in ('T03', 'T04'): self.bad(p, ins, 'a task taken from the queue is never counted as completed')
        p = self.name.split('::')
        if kind == 'return' and len(p) > 1 and p[-1] == '~' + p[-2] and p[-2] in chk.runners and not c['scan'] and not c['nullp']:
            self.bad('T04', ins, 'on this path queued tasks are not removed from the pool before the provider is destroyed')
        if self.role == 'worker' and c['exc']: self.bad('T05', ins, 'an exception of a task leaves the worker')
        if c['extra'] and not self.name.endswith('_taskRun'): self.bad('T04', ins, 'a task that stays in the queue was counted as completed')
        if self.name.endswith('::_wait') and kind == 'return': chk.waitret.append((self, ins, dict(c), v, dict(st['env'])))
    def freeze(self, c): return tuple((k, repr(sorted(c[k].items(), key=repr)) if isinstance(c[k], dict) else repr(sorted(c[k], key=repr)) if isinstance(c[k], frozenset) else repr(c[k])) for k in sorted(c))

def fresh(ctor=False):
    e = frozenset()
    return dict(locks=(), pend=e, ntf=e, bal=0, extra=0, pe=None, skip=False, dead=None, sect=None, cur=e, ran=0, exc=False, raised=e, inc=None, last=None, must=None,
                rel=None, sto=e, val={}, cnt={}, dec={}, scan=False, nullp=False, ins=None, waited=False, ctor=ctor)

class Check:
    def __init__(self, rep_bad, rep_unk=None):
        self.out = {}; self.counts = {}; self.unks = []
        self.accs = []; self.order = {}; self.waitloops = {}; self.exits = {}; self.waits_final = []
        self.joins = set(); self.starts = set(); self.given = set(); self.rmwd = {}; self.completed = set(); self.completed_found = set(); self.inserts = set()
        self.waitret = []; self.rmwd_members = []; self.count_members = []; self.taskslot = 16
        self.quiet = True; self.entries = []; self.dbg = False
    def bad(self, prop, fn, where, sf, msg):
        if self.quiet: return
        self.out.setdefault((prop, fn, msg), where + (' (inlined %s)' % sf if sf else ''))
    def unk(self, prop, where, msg):
        if not self.quiet: self.unks.append((prop, where, msg))
    def count(self, prop, what):
        if not self.quiet: self.counts[(prop, what)] = self.counts.get((prop, what), 0) + 1
    def record(self, tc, ins, F, m, content, write, atomic, held):
        if self.quiet: return
        role = tc.role
        if m[0] in self.provs:
            own = tc.role == 'owner' or (tc.name.endswith('ThreadPool::add') and F[2] == ('a', 1))
            role = 'owner' if own else 'worker'
        elif role == 'owner': role = 'client'
        self.accs.append((m[:2], m[2], content, write, atomic, held, role, tc.name, '%s:%s' % (ir.relname(ins.get('fl') or ''), ins.get('ln') or 0) + (' (inlined %s)' % ins['sf'] if ins.get('sf') else '')))
    def run(self):
        src = ir.REPO + '/src/thread_pool.cpp'
        mod = self.mod = ir.load(ir.compile_ir(src, FLAGS, None, PIPE, KEEP))
        plain = ir.load(ir.compile_ir(src, FLAGS, None, 'function(sroa,mem2reg,loop-simplify)', ''))
        self.model = Model(mod)
        for k in (POOL, PROV):
            if k not in mod.records: raise AnalysisError('class %s not found' % k)
        files = set(mod.records[k].get('file') for k in (POOL, PROV))
        self.classes = set(r for r in mod.records if mod.records[r].get('file') in files)
        def derives(r, seen=()):
            if r == PROV: return True
            return any(m['n'] == '<base>' and m['t'] in mod.records and derives(m['t']) for m in mod.records[r]['members'])
        self.provs = set(r for r in self.classes if derives(r))
        # call graph before inlining: functions of the library called by others are analysed where they are inlined
        called = set(); taken = set()
        for f in plain.defined():
            if not (f.file or '').startswith(ir.REPO): continue
            for _, i in f.instrs():
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g': called.add(i['callee'][1])
                for a in i.get('args', []) + i.get('ops', []):
                    if a[0] == 'g' and a[1] in plain.functions and not plain.functions[a[1]].decl and (plain.functions[a[1]].file or '').startswith(ir.REPO): taken.add(a[1])
        api = {'ThreadPool::add', 'ThreadPool::remove', 'ThreadPool::empty', 'ThreadPool::clear', 'ThreadPool::resize', 'ThreadPool::stop', 'ThreadPool::threadCount'}
        self.runners = set(base_name(f.dem).split('::')[-2] for f in plain.defined() if base_name(f.dem).endswith('::_run') and base_name(f.dem)[:-6] in self.provs)
        seen = set(); entries = []
        for f in mod.defined():
            if not (f.file or '').startswith(ir.REPO) or f.name in seen: continue
            b = base_name(f.dem); parts = b.split('::'); cls = '::'.join(parts[:-1]); meth = parts[-1]
            if cls not in self.classes or 'Exception' in cls: continue
            if f.name in taken: role = 'worker'
            elif cls in self.provs:
                if f.name in called and meth not in ('_run', '_wait', '_ready', 'setThreadPool', '~' + cls.split('::')[-1]): continue
                role = 'owner'
            elif cls == POOL:
                if f.name in called and b not in api: continue
                role = 'control' if meth in CONTROL else 'client'
            else: role = 'client'
            if f.name.endswith(('C1Ev', 'D0Ev')) : continue
            seen.add(f.name); entries.append((f, role, meth == cls.split('::')[-1], meth.startswith('~')))
        if not any(r == 'worker' for _, r, _, _ in entries):
            for f in mod.defined():
                if '_M_run' in f.dem and 'thread::_State_impl' in f.dem: entries.append((f, 'worker', False, False))
        if not any(r == 'worker' for _, r, _, _ in entries): raise AnalysisError('no worker thread function found')
        self.entries = entries
        self.findslot(mod)
        def sweep():
            for f, role, ctor, dtor in entries:
                ex = paths.Explorer(f, TC(self, f, role)); n = ex.run(fresh(ctor))
                if not self.quiet:
                    self.counts[('paths', base_name(f.dem))] = n
                    if ex.truncated: self.unks.append(('all', base_name(f.dem), 'too many states'))
        # pass 1: wait loops and their exit conditions, task counters
        sweep()
        for (fn, h), (cv, mu, role, site, ins) in self.waitloops.items():
            for v, x, bit in self.exits.get((fn, h), ()):
                Fm = self.model.member(x[1][1], x[1][3])
                if Fm: self.waits_final.append((cv, mu, Fm[:2], x[0] == 'vel', v, x, bit, role))
        self.completed = set(self.completed_found); self.completed_found = set()
        sweep()
        self.rmwd_members = sorted(set(self.rmwd) & (self.given | self.completed))
        cm = set()
        # pass 2: everything
        self.quiet = False
        self.count_members = [m for m in self.countmembers()]
        self.waitret = []
        sweep()
        self.finish(plain)
    def countmembers(self):
        """members the counters are compared with"""
        out = set()
        chk = self
        class T2(TC):
            def counter(self, v):
                k = TC.counter(self, v)
                if k: out.add(self.mem(k[2][1])[:2])
                return k
        q = self.quiet; self.quiet = True
        for f, role, ctor, dtor in self.entries:
            if role == 'worker': paths.Explorer(f, T2(self, f, role)).run(fresh(ctor))
        self.quiet = q
        return sorted(out)
    def findslot(self, mod):
        """vtable slot of the pure virtual task function"""
        for n, g in mod.globals.items():
            if n == '_ZTV20AbstractTaskProvider':
                init = g.get('init'); names = []
                def walk(v):
                    if isinstance(v, list):
                        if v and v[0] == 'g': names.append(v[1]); return
                        if v and v[0] == 'n': names.append(None); return
                        for x in v: walk(x)
                walk(init)
                if '__cxa_pure_virtual' in names: self.taskslot = 8 * (names.index('__cxa_pure_virtual') - 2)
                return
        raise AnalysisError('vtable of AbstractTaskProvider not found')
    def finish(self, plain):
        # T01
        groups = {}
        for a in self.accs: groups.setdefault((a[0], a[2]), []).append(a)
        for (m, content), l in sorted(groups.items()):
            uniq = list(dict.fromkeys(l))
            self.counts[('T01', '%s::%s%s' % (m[0], m[1], ' elements' if content else ''))] = len(uniq)
            for i, a in enumerate(uniq):
                for b in uniq[i:]:
                    if not (a[3] or b[3]) or (a[4] and b[4]): continue
                    if not self.concurrent(m[0], a[6], b[6]): continue
                    if any(x in b[5] and x[2] for x in a[5]): continue
                    w = a if not (any(x[2] for x in a[5]) or a[4]) else b
                    o = b if w is a else a
                    self.out.setdefault(('T01', w[7], '%s%s is %s here %s, while %s %s it in another thread' % (m[1], ' (elements)' if content else '', 'written' if w[3] else 'read',
                        'without a lock' if not w[5] else 'under another lock', o[7], 'writes' if o[3] else 'reads')), w[8])
        # T02 lock order
        for (a, b), where in self.order.items():
            if (b, a) in self.order: self.out.setdefault(('T02', where, 'mutexes %s and %s are acquired in both orders' % (a[1], b[1])), where)
        self.counts[('T02', 'lock order edges')] = len(self.order)
        # T03: each wait has an exit condition over members protected by its mutex
        for (fn, h), (cv, mu, role, site, ins) in self.waitloops.items():
            ws = [w for w in self.waits_final if w[0] == cv and w[1] == mu]
            f = self.mod.functions[fn]
            if not self.exits.get((fn, h)): self.out.setdefault(('T03', base_name(f.dem), 'the wait does not depend on any shared state'), site)
            self.counts[('T03', 'wait condition of %s: %s' % (cv[1], ', '.join(sorted(set(w[2][1] for w in ws)))))] = len(ws)
        # T04: pool destructor
        if not ({'ThreadPool::~ThreadPool', 'ThreadPool::stop'} & self.joins): self.out.setdefault(('T04', 'ThreadPool::~ThreadPool', 'workers are not joined when the pool is stopped'), 'src/thread_pool.cpp')
        if 'ThreadPool::~ThreadPool' not in self.joins: self.out.setdefault(('T04', 'ThreadPool::~ThreadPool', 'workers are not joined before the pool is destroyed'), 'src/thread_pool.cpp')
        fns = {}
        for f in list(plain.defined()) + list(self.mod.defined()): fns.setdefault(base_name(f.dem), []).append(f)
        for cls in sorted(self.provs):
            run = fns.get(cls + '::_run')
            if not run: continue
            self.counts[('T04', 'provider destructors')] = self.counts.get(('T04', 'provider destructors'), 0) + 1
            ok = False
            for f in fns.get('%s::~%s' % (cls, cls), []):
                if f.name not in self.mod.functions: continue
                g = self.mod.functions[f.name]
                ops = [base_name(self.mod.functions[i['callee'][1]].dem).split('::')[-1] for _, i in g.instrs() if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' and 'list<' in (self.mod.functions[i['callee'][1]].dem if i['callee'][1] in self.mod.functions else '')]
                if {'erase', 'remove', 'remove_if', 'clear', '_M_erase'} & set(ops): ok = True
            if not ok: self.out.setdefault(('T04', '%s::~%s' % (cls, cls), 'queued tasks are not removed from the pool before the provider is destroyed'), run[0].where())
        if len(self.given) != 1: self.unks.append(('T04', '_taskRun', 'no unique task number counter'))
        if not self.completed: self.out.setdefault(('T03', 'AbstractTaskProvider::_taskRun', 'no completion test that recognises the last task'), 'src/thread_pool.cpp')
        # T05: result of _wait
        rm = self.raised_members()
        for tc, ins, c, v, env in self.waitret:
            lv = []; tc.leaves(v, lv) if v else None
            self.counts[('T05', 'returns of _wait')] = self.counts.get(('T05', 'returns of _wait'), 0) + 1
            leaf = [x for x in dict.fromkeys(lv) if (x[0] == 'L' and x[1][0] == 'F' and tc.mem(x[1])[:2] in rm) or (x[0] == 'rmw' and x[3] == 'xchg' and tc.mem(tc.norm(strip(x[2])))[:2] in rm)]
            if not leaf and v and v[0] == 'i':
                d = [z for F, z in c['dec'].items() if tc.mem(F) and tc.mem(F)[:2] in rm]
                if d:
                    F = [F for F, z in c['dec'].items() if tc.mem(F) and tc.mem(F)[:2] in rm][0]
                    if d[0] == (v[1] & 1): self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'the result is not the absence of a failed task'), tc.site(ins))
                    if d[0] == 1 and not any(x == F and val == ('i', 0) for x, val in c['sto']): self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'a reported failure is not reset, so the next operation is reported as failed too'), tc.site(ins))
                    if not c['waited']: self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'the failure indicator is read without waiting for the tasks'), tc.site(ins))
                    continue
            if not leaf:
                self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'the result does not tell whether a task has failed'), tc.site(ins)); continue
            r1 = paths.subst(v, leaf[0], ('i', 1)); r0 = paths.subst(v, leaf[0], ('i', 0))
            if r1 != ('i', 0) or r0 != ('i', 1): self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'the result is not the absence of a failed task'), tc.site(ins))
            F = leaf[0][1] if leaf[0][0] == 'L' else tc.norm(strip(leaf[0][2]))
            if not any(x == F and val == ('i', 0) for x, val in c['sto']): self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'a reported failure is not reset, so the next operation is reported as failed too'), tc.site(ins))
            if not c['waited']: self.out.setdefault(('T05', 'AbstractTaskProvider::_wait', 'the failure indicator is read without waiting for the tasks'), tc.site(ins))
        if not self.waitret: self.unks.append(('T05', '_wait', 'no return found'))
        if not rm: self.out.setdefault(('T05', 'AbstractTaskProvider::_taskRun', 'an exception of a task is not recorded'), 'src/thread_pool.cpp')
        if PROV + '::_wait' not in [base_name(f.dem) for f, _, _, _ in self.entries]: self.unks.append(('T05', '_wait', 'not found'))
        self.process()
    def raised_members(self):
        out = set()
        chk = self
        class T3(TC):
            def written(self, ex, ins, st, F, m, content, pos, atomic, v):
                if st['c']['exc'] and not content and v == ('i', 1): out.add(m[:2])
                TC.written(self, ex, ins, st, F, m, content, pos, atomic, v)
        q = self.quiet; self.quiet = True
        for f, role, ctor, dtor in self.entries:
            if role == 'worker': paths.Explorer(f, T3(self, f, role)).run(fresh(ctor))
        self.quiet = q
        return out
    def concurrent(self, cls, a, b):
        if cls in self.provs: return 'worker' in (a, b)
        if 'worker' in (a, b): return True
        if a == 'client' and b == 'client': return True
        return False
    def process(self):
        """every operation that runs pooled tasks waits for them and reports a failure"""
        src = ir.REPO + '/src/function_pool_task.cpp'
        mod = ir.load(ir.compile_ir(src, FLAGS, None, PIPE, 'AbstractTaskProvider::_wait|TaskProviderSingleton::_run|std::__cxx11::|::_fill(|::_copy(|std::vector<'))
        chk = self; n = 0
        for f in mod.defined():
            if not (f.file or '').startswith(ir.REPO): continue
            names = [ir.base_name(mod.functions[i['callee'][1]].dem) for _, i in f.instrs() if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' and i['callee'][1] in mod.functions]
            if not any(x.endswith('::_run') and 'TaskProvider' in x for x in names): continue
            n += 1
            class PC(paths.Client):
                def call(s, ex, ins, st, name, dem, args):
                    b = base_name(dem) if dem else ''
                    if b.endswith('TaskProviderSingleton::_run') or b.endswith('TaskProvider::_run'): st['c'] = dict(st['c'], run=1)
                    if b.endswith('::_wait') and 'TaskProvider' in b:
                        st['c'] = dict(st['c'], wait=ins['id'], run=0); return ('v', ins['id'])
                    return None
                def thrown(s, ex, ins, st, name, dem, args): pass
                def took(s, ex, ins, st, v, bit):
                    # the branch on the result of _wait
                    w = st['c']['wait']
                    for val in (0, 1):
                        pass
                    if w is not None:
                        r = [paths.subst(v, ('v', w), ('i', x)) for x in (0, 1)]
                        if all(x[0] == 'i' for x in r) and r[0] != r[1]:
                            st['c'] = dict(st['c'], res=0 if (r[0][1] & 1) == bit else 1)
                    return True
                def leave(s, ex, ins, st, kind, v):
                    c = st['c']
                    fn = base_name(f.dem); where = '%s:%s' % (ir.relname(ins.get('fl') or ''), ins.get('ln'))
                    if c['wait'] is None and not c['run']: return
                    if kind == 'return':
                        if c['run']: chk.out.setdefault(('T05', fn, 'the operation returns without waiting for its tasks'), where)
                        elif c['res'] != 1: chk.out.setdefault(('T05', fn, 'the operation returns normally although a task may have failed'), where)
                        chk.counts[('T05', 'operation exits')] = chk.counts.get(('T05', 'operation exits'), 0) + 1
                    elif kind == 'exception' and c['res'] == 1: pass
            paths.Explorer(f, PC()).run(dict(run=0, wait=None, res=None))
        self.counts[('T05', 'operations waiting for tasks')] = n
        if n == 0: self.unks.append(('T05', 'function_pool_task.cpp', 'no pooled operation found'))

if __name__ == '__main__':
    import time
    t = time.time(); c = Check(None); c.run()
    for k, v in sorted(c.counts.items()): print(k, v)
    print('waits', [(w[0], w[1], w[2], w[3], w[6], w[7]) for w in c.waits_final]); print('completed', c.completed, 'given', c.given, c.count_members, c.rmwd_members)
    for k, v in c.out.items(): print('BAD', k, v)
    print(c.unks, time.time() - t)
