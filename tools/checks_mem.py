"""B01, B02: ownership and geometry of ImageTemplate (imgbuf.py). B03: conservation of pooled memory (memcheck.py)."""
import ir, imgbuf, memcheck
RULES = {
 'B01': 'each member function of ImageTemplate<uint8_t> and <uint16_t>, from every kind of valid state, with allocation, release and copying of buffers allowed to fail: at each exit every live buffer has exactly one owning image of the device type it was allocated with, nothing is released twice or after being handed to an owner, copies are deep and complete, moves and swaps transfer every field',
 'B02': 'at each exit of each member function: an image with a buffer has a buffer of at least height * row size elements, a row size of at least width * colour count (as integers, without wrap-around) and divisible by the alignment; an image without buffer has zero size; the requested geometry is the resulting one or the request is refused'}
ASSUME = ['a device allocates what is asked or throws; release and copy do what their names say', '64-bit byte counts of buffers that exist do not wrap', 'a caller that assigns its own memory to an image gives at least height * row size elements']
_run = []
def mk(pid):
    def check(rep, tier):
        rep.rule = RULES[pid]; rep.assumptions = ASSUME
        if not _run: _run.extend(imgbuf.check())
        for c in _run:
            for k, n in c.units.items(): rep.count(k, n)
            rep.good(c.good[pid])
            for (p, fn, msg), where in c.bad.items():
                if p == pid: rep.fail(where, fn, msg)
            for k, where in c.unk.items():
                if len(k) == 2: rep.unk(where, k[0], k[1])
                elif k[0] == pid: rep.unk(where, k[1], k[2])
            rep.samples += ['%s at %s' % (n, f.where()) for n, f in c.functions()][:12]
        rep.floor('paths', rep.units.get('paths', 0), 200); rep.floor('obligations discharged', rep.discharged, 300)
    return check
CHECKS = {p: ('other', mk(p)) for p in RULES}

_mem = []
def mem(tier):
    if not _mem: _mem.append(memcheck.Check().run(tier))
    return _mem[0]
def b03(rep, tier):
    rep.rule = ('reserve, allocate, free and the destructor of the CPU and OpenCL allocators, from any state of the free and allocated chunks, with allocations of containers and of the device allowed to fail: on every exit '
                'the change of the free memory and the change of the allocated memory cancel exactly (formal sum of intervals), the returned address is that of the chunk marked as allocated, which is free before, large enough and inside the pool; '
                'memory of the system is returned to the system once; shared members are touched under the mutex only')
    rep.assumptions = ['the pool sizes (and so the number of levels) are enumerated; offsets, requests and the contents of the collections are symbolic', 'free and allocated chunks are disjoint before an operation (the invariant is inductive)', 'std::set and std::map behave as specified and give the strong guarantee on a failed insertion', 'an allocator of an OpenCL device is used by one thread (it has no mutex)']
    c = mem(tier)
    for k, n in c.counts.items(): rep.count(k, n)
    rep.good(c.good['B03'])
    for (p, fn, msg), where in c.bads.items():
        if p == 'B03': rep.fail(where, fn, msg)
    for (fn, msg) in c.unks: rep.unk('', fn, msg)
    rep.samples += c.calls
    rep.floor('paths', c.counts.get('paths', 0), 500); rep.floor('obligations discharged', rep.discharged, 500)
CHECKS['B03'] = ('other', b03)
