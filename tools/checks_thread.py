"""T01..T05: lock, wait and task-accounting typestate of the thread pool (threadcheck.py)."""
import ir, threadcheck
RULES = {
 'T01': 'every pair of accesses to a member (or to the elements of a container member) of the pool or a provider that two threads can perform at the same time and of which one writes: both atomic or under a common mutex of the same object',
 'T02': 'lock typestate over every path including exceptional ones: released exactly once before each exit, never acquired twice, no opposite orders, nothing blocking or user-supplied executed while holding one',
 'T03': 'each wait sits in a loop over members protected by its mutex; each store that can satisfy such a loop condition happens under that mutex and is followed by a notification of that condition variable before the exit; queued tasks never vanish uncounted',
 'T04': 'each removal from the queue is paired with exactly one completion count and, in the worker, one execution of the removed element with the atomically drawn number; counters are reset and the busy flag set before tasks are queued; no access to a provider after its release',
 'T05': 'the task call has a catch-all landing pad, records the failure before counting completion and stays in the worker; _wait returns and resets the record; every pooled operation throws unless _wait reported success'}
ASSUME = ['resize, stop and destruction of a pool are not concurrent with other calls on the same pool (configuration operations); one thread at a time uses a given provider',
          'pthread_mutex_lock does not fail; condition variables, std::list and std::thread behave as specified',
          'the counters of a provider are only changed by the functions analysed, so a drawn number is below the task count for a queued task']
_run = []
def run():
    if not _run:
        c = threadcheck.Check(None); c.run(); _run.append(c)
    return _run[0]
FLOOR = {'T01': ('shared members with accesses', 10), 'T02': ('acquisitions', 10), 'T03': ('waits', 3), 'T04': ('task executions', 1), 'T05': ('returns of _wait', 1)}
def mk(pid):
    def check(rep, tier):
        rep.rule = RULES[pid]; rep.assumptions = ASSUME
        c = run()
        n = 0
        for (p, what), k in sorted(c.counts.items()):
            if p == pid: rep.count(what, k); rep.good(k); n += 1
            if p == 'paths': rep.count('states explored', k); rep.count('functions')
        for f, role, _, _ in c.entries: rep.samples.append('%s (%s)' % (ir.base_name(f.dem), role))
        for (p, fn, msg), where in c.out.items():
            if p == pid: rep.fail(where, fn, msg)
        for p, fn, msg in c.unks:
            if p in (pid, 'all'): rep.unk('', fn, msg)
        if pid == 'T02':
            import checks_mem
            c2 = checks_mem.mem('quick')
            rep.count('paths through the allocators', c2.counts.get('paths', 0)); rep.good(c2.good['T02'])
            for (p, fn, msg), where in c2.bads.items():
                if p == 'T02': rep.fail(where, fn, msg)
            for fn, msg in c2.unks:
                if 'mutex' in msg or fn.startswith('cpu_Memory'): rep.unk('', fn, msg)
        w, least = FLOOR[pid]
        rep.floor(w, n if pid == 'T01' else c.counts.get((pid, w), 0), least)
    return check
CHECKS = {p: ('other', mk(p)) for p in RULES}
