#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ABS = 'Abstract interpretation of the LLVM IR of /repo (compiled on every run, never executed): polynomial-inequality domain over the arguments with Farkas-certified entailment; loops summarised by induction variables. '
NOTE = 'Functions or obligations the domain cannot decide are printed as UNDECIDED and listed in the evidence; a floor on the number of decided functions guards against vacuity. '
CLAIMED = {
 'I01': dict(technique=ABS + 'Bounds and destination-region obligations of every memory access.', level='other', level_note=NOTE + 'Undecided today: part of BinaryDilate, BinaryErode, Shift and the source reads of Resize.'),
 'I02': dict(technique=ABS + 'Same obligations for every function of the vectorised library and every instruction set value, intrinsics modelled per byte lane.', level='other', level_note=NOTE),
 'I03': dict(technique=ABS + 'The write events of every returning path must cover the destination region.', level='other', level_note=NOTE),
 'I04': dict(technique=ABS + 'Byte-lane dependence: each stored byte may depend only on source bytes at its own position.', level='other', level_note=NOTE),
 'I05': dict(technique=ABS + 'Path conditions of returning and throwing paths are compared with the validity predicate of the operation.', level='other', level_note=NOTE),
 'I06': dict(technique=ABS + 'Read events of reductions must partition the region; accumulations must target the cell of the element read.', level='other', level_note=NOTE),
 'I07': dict(technique=ABS + 'Argument dataflow of every convenience form into the call of the full form.', level='other', level_note=NOTE),
}
THR = 'Path-sensitive dataflow over the fully inlined LLVM IR of src/thread_pool.cpp (every path, including exceptional ones; memoised abstract states; never executed): '
TN = 'All methods of the pool and provider classes are explored to a fixed set of abstract states; assumptions (configuration calls are not concurrent with use, one owner thread per provider) are listed in the evidence.'
CLAIMED.update({
 'T01': dict(technique=THR + 'lockset analysis with thread roles: each conflicting pair of accesses that can be concurrent shares a mutex of the same object or is atomic.', level='other', level_note=TN),
 'T02': dict(technique=THR + 'lock typestate and lock-order graph.', level='other', level_note=TN),
 'T03': dict(technique=THR + 'wait/notify typestate: wait conditions are extracted from the wait loops, each store that can satisfy one must be made under its mutex and be notified.', level='other', level_note=TN),
 'T04': dict(technique=THR + 'task accounting typestate: each removal from the queue is paired with one completion count and in the worker with one execution; no access to a released provider.', level='other', level_note=TN),
 'T05': dict(technique=THR + 'exception-edge analysis of the task call and symbolic return value of the waiting function; result of the wait tested on every exit of the pooled operations.', level='other', level_note=TN),
})
CLAIMED.update({
 'B01': dict(technique=ABS + 'Ownership typestate of pixel buffers: each exit of each member function (allocation, release and copy may fail) leaves every live buffer with exactly one owner.', level='other', level_note='All member functions of ImageTemplate for 8 and 16-bit images, from an empty, an owning and a borrowing state.'),
 'B02': dict(technique=ABS + 'Geometry invariant of ImageTemplate proved at every exit of every member function, over integers without wrap-around.', level='other', level_note='Same exploration as B01.'),
})
CLAIMED['B03'] = dict(technique=ABS + 'The free sets and the map of allocated chunks are symbolic collections with gaps for unknown elements; on every exit the formal boundaries of free and allocated memory must cancel.', level='other', level_note='Complete over offsets, requests and contents of the collections; the number of levels of a pool is bounded (up to 4 levels quick, 5 thorough for releases; 20 for allocations).')
POOL = 'Abstract interpretation of the LLVM IR of the pooled image functions (never executed), for each number of threads up to a bound, with symbolic image sizes, region and offsets: '
CLAIMED.update({
 'T06': dict(technique=POOL + 'the regions handed to the parts are recorded per path; a partition argument over the polynomials, and the pairing of each image with its own offset.', level='other', level_note='Thread counts are enumerated (1 to 4, thorough 1 to 6). Violations need concrete arguments satisfying the path facts.'),
 'T07': dict(technique=POOL + 'symbolic results of parts are followed through the result slots into the returned value; write sets of tasks are compared pairwise.', level='other', level_note='Same bounds as T06; projection profiles are analysed for listed region sizes and colour counts.'),
 'D01': dict(technique='Abstract interpretation of the registration code, of setFunctionTable, of the lookups and of every function of penguinV:: over the LLVM IR (never executed); function pointers are followed symbolically and the entry called is compared with the one of the same name.', level='other', level_note='Two image types per image are enumerated; OpenCL tables are read from src/opencl, CUDA sources are not compiled here.'),
})
CLAIMED['D02'] = dict(technique='Bit-level path analysis of the processor identification and of the selection over the LLVM IR of five builds (never executed), constant propagation of the instruction set value through the call closure to find the intrinsics used, and abstract interpretation of the vectorised functions of the SSE2, AVX2, AVX-512 and NEON builds.', level='other', level_note='The Windows processor identification (cpu_id_windows.h) is not compiled here. Paths with conditions the bit domain cannot represent are UNDECIDED.')
CLAIMED['O01'] = dict(technique='Path analysis over the LLVM IR of the OpenCL host code and of instantiations of its templates (never executed): error codes are symbols, comparisons with CL_SUCCESS are facts of the path, functions that take a code are summarised across translation units.', level='other', level_note='Each block is entered at most twice per path. Codes handed to functions outside the repository count as examined. Releasing calls are no obligations.')
CLAIMED['O02'] = dict(technique='The program text is taken from the constants of the host sources and compiled to LLVM IR for a generic 64-bit OpenCL target; the argument list of each host function (types and polynomial values over the LLVM IR, never executed) is compared with the signature of the kernel it names and with the image each parameter belongs to.', level='other', level_note='Argument lists built in other functions than the one creating the kernel are UNDECIDED. CUDA is not covered.')
CLAIMED['O03'] = dict(technique='Path enumeration with polynomial indices over the LLVM IR of the OpenCL kernels (compiled from the program text in the sources, never executed); guards are facts of the path, and every access to a buffer is an obligation.', level='other', level_note='Loops are entered at most three times per path (loops over colours). 32-bit wrap-around of offsets is excluded by assumption.')
NA = {
 'I08': 'The index expressions of the filters and detectors depend on pixel-derived counts and iterators over vectors whose length is data; the affine domain built for the image functions leaves their accesses undecided, and a check that decides nothing would be empty.',
 'F01': 'The loaders hand file contents to buffers through std::fstream and external codecs; sizes computed from file bytes are products of three unbounded 32-bit values that the polynomial domain (which assumes 32-bit rows) excludes, so no sound verdict was reached. Suspected defects found by reading are listed in DESIGN.md.',
 'F02': 'Release of codec objects happens through library calls with setjmp/longjmp error paths that the control flow of the IR does not show; leaks seen by reading are listed in DESIGN.md.',
 'F03': 'Requires contracts of libpng and libjpeg (error callbacks, longjmp) that are not present in the source and not built in this configuration (PENGUINV_USE_EXTERNAL_PNG/JPEG are off).',
 'O04': 'Ownership of OpenCL handles passes through wrapper objects, containers of raw pointers and constructors that may throw half-way; the path analysis of O01 does not track container contents, so no sound and quiet verdict was reached.',
 'E01': 'Exceptions of user callbacks, allocators and the standard library pass through the same code and are legitimate; which of them escape a destructor depends on run-time device types behind function pointers, so no sound and quiet verdict was reached for the whole library.',
 'N01': 'The contour and component metrics are functions of run-time pixel data and unbounded worklists; no sound static abstraction in reach decides their values.',
 'N02': 'Sub-pixel positions are numeric functions of pixel data; value correctness cannot be decided without executing or solving.',
 'N03': 'Floating-point accuracy of an external transform on run-time data; not decidable by source analysis here.',
 'N04': 'Bit-identity is an equality of numeric functions (including floating point) over pixel values; only the data-dependence part of it (I03, I04, I06) is decidable statically.',
 'N05': 'Optimality of a floating-point search over run-time histograms.',
 'N06': 'Numeric accuracy on run-time data.',
 'N07': 'Termination bounds of data-dependent loops and fair schedules are out of reach of the analyses built here.',
}
def main():
    base = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
    checks = []
    for p in props.P:
        c = CLAIMED.get(p['id'])
        if c: checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --thorough' % p['id'], **c))
    m = dict(version=1, setup_cmd='./check --setup', checks=checks,
             not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in props.P if p['id'] not in CLAIMED])
    json.dump(m, open(os.path.join(base, 'MANIFEST.json'), 'w'), indent=1)
main()
