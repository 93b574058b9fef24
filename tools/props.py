#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

IF = 'src/image_function.cpp'; IS = 'src/image_function_simd.cpp'; PV = 'src/parameter_validation.h'
prop('I01', 'Scalar image functions never touch memory outside the regions they were given',
 'Whatever images (empty or not, gray-scale, RGB or RGBA, any row padding, any two of them of different size) and whatever region coordinates are passed to an image function of the scalar library, it never reads or writes image, table or result-array memory outside the valid elements of those objects, and writes image pixels only inside the destination region. Arguments for which this would be impossible are refused with an exception instead.',
 ['inputs'], 'all image sizes, paddings, colour counts, region origins and sizes (including values whose 32-bit sum wraps)',
 'unit tests draw a few random sizes and regions, do not pad rows against guard bytes, and an access a few bytes beyond a region lands in the same allocation without any symptom',
 [IF, PV, 'src/image_buffer.h'], [('parameter validation', PV), ('region flattening', PV), ('row and column loops', IF)], ['image pixel memory'])
prop('I02', 'Vectorised image functions never touch memory outside their regions',
 'For every instruction set that the vectorised image library is built for, and whatever images and region coordinates are passed, a vectorised image function never reads or writes image, table or result-array memory outside the valid elements of those objects, and writes image pixels only inside the destination region. This includes the remainder of a row that is not a multiple of the vector width.',
 ['inputs', 'configurations'], 'all sizes, paddings, colour counts, regions; SSE, AVX2 and AVX-512 code paths, whichever the machine selects (NEON code is not compiled here)',
 'tests only run the one instruction set the machine selects, with few row remainders, and a vector store past a region end usually stays inside the allocation',
 [IS, 'src/image_function_simd.h', PV], [('main part and remainder split', IS), ('parameter validation', PV)], ['image pixel memory'])
prop('I03', 'Every destination pixel of the region is written',
 'Whenever a scalar or vectorised image function that produces an output image returns normally, every channel of every pixel of the destination region has been written by that call, for every region size, row padding and colour count. No pixel of the region keeps an indeterminate or stale value.',
 ['inputs', 'configurations'], 'all region sizes, including those where the vector part, the remainder part, the last row or the last column is empty; every instruction set',
 'random test sizes rarely hit the boundary remainders, tests of uniform images cannot see a stale pixel, and one instruction set runs per machine',
 [IF, IS], [('row and column loops', IF), ('main part and remainder split', IS)], ['destination pixels'])
prop('I04', 'Each destination pixel is computed from its own source pixels only',
 'In every scalar and vectorised point-wise image function the value stored at a position of the destination region depends only on the source pixels at the same region-relative position (for colour conversions and channel extraction, on the specified channels of that pixel; for flips and transposition, on the mirrored or transposed position). Pixels are never shifted, swapped or taken from another row, whatever the paddings, region origins and colour counts of the images involved.',
 ['inputs', 'configurations'], 'all positions, paddings, origins, colour counts, instruction sets',
 'most tests use uniform images, for which a swapped or shifted pixel is invisible',
 [IF, IS], [('pointer stepping', IF), ('lane shuffles', IS)], ['destination pixels'])
prop('I05', 'Invalid image arguments are refused and valid ones accepted',
 'An image function returns normally only if every image passed is non-empty, has 1, 3 or 4 channels in the combination the operation defines, and every region lies completely within its image and is non-empty, computed without 32-bit wrap-around; otherwise it throws before any pixel of a region is changed. Conversely it never refuses an argument combination that satisfies these conditions.',
 ['inputs'], 'all images, colour counts and 32-bit region coordinates, for each image and each axis separately',
 'the four coordinates of each of up to three images and two axes give more combinations, and wrapping sums, than tests sample; one missing comparison in one function is invisible to them',
 [IF, IS, PV], [('parameter validation', PV), ('colour count checks', PV)], ['exception or normal return'])
prop('I06', 'Region statistics visit each pixel of the region exactly once',
 'Functions that reduce or tabulate a region (sum, histogram, projection profile, accumulation, equality and binary tests) read every pixel of the region exactly once on a complete pass, and a projection or accumulation value is added into the cell of the column, row or position it came from.',
 ['inputs', 'configurations'], 'all region sizes, paddings, colour counts, instruction sets',
 'tests use uniform images: an omitted column balanced by a repeated one, or a permuted accumulator cell, gives the same answer',
 [IF, IS], [('row and column loops', IF), ('vector accumulators', IS)], ['returned sums, histograms, profiles'])
prop('I07', 'Convenience overloads designate exactly the region the caller asked for',
 'The overloads that omit the region, the output image or both behave as the full form called with the whole image or with the given source region and an output of exactly that size starting at its origin, with images and coordinates in their own roles. None of them processes another region, swaps images or axes, or returns an image of another size or colour count than the operation produces.',
 ['inputs', 'programs'], 'every overload of every image function, all argument values',
 'tests pass square or equal-sized images and symmetric operations so a swapped argument or axis is not observed',
 ['src/image_function_helper.cpp', IF, IS], [('form helpers', 'src/image_function_helper.cpp')], ['returned images'])
prop('I08', 'Filters, edge, blob and file helpers index their buffers within bounds',
 'Median filtering and the Prewitt and Sobel filters never access pixels outside the regions given, whatever the image size, region, padding and kernel size, and refuse the arguments for which they would have to.',
 ['inputs'], 'all image sizes, paddings, regions, kernel sizes',
 'tests draw few sizes; boundary rows and kernels larger than the region are the cases that break',
 ['src/filtering.cpp'], [('border handling', 'src/filtering.cpp')], ['image pixel memory'])
prop('T01', 'Shared thread-pool state is accessed only under its lock',
 'In the thread pool, the task providers and the function pool, every piece of state that two threads can reach concurrently is read and written only while holding the same mutex, or is atomic, so no schedule contains a data race. (Resizing, stopping and destroying a pool are configuration: the caller must not overlap them with other calls on that pool.)',
 ['schedules'], 'all interleavings of workers, providers and controlling threads',
 'a test run explores a handful of schedules and races rarely show symptoms',
 ['src/thread_pool.cpp', 'src/thread_pool.h'], [('task mutex', 'src/thread_pool.cpp'), ('atomic counters', 'src/thread_pool.h')])
prop('T02', 'Locks are released on every exit and never acquired in conflicting order',
 'Every mutex the library acquires is released on all ways out of the acquiring function, including exceptions thrown while it is held, is never acquired twice by the same thread, and no two mutexes are ever acquired in opposite orders, so an error in one operation cannot block all later ones.',
 ['schedules', 'fault_sequences'], 'all control-flow paths, including those left through an exception such as failed allocation',
 'tests do not make allocation or user code fail while a lock is held',
 ['src/thread_pool.cpp', 'src/memory/memory_allocator.h', 'src/memory/cpu_memory.h', 'src/opencl/opencl_memory.h'], [('mutexes', 'src/thread_pool.cpp')])
prop('T03', 'Waiting threads are always woken and never wait on a stale condition',
 'Every blocking wait of the pool is on a condition re-checked under the mutex that protects it, every change that can make such a condition true is made under that mutex and followed by a notification, and the last finished or discarded task of a provider always releases the provider waiting for it.',
 ['schedules'], 'all interleavings; all ways a task ends (run, failed, discarded by clearing or stopping the pool)',
 'lost wake-ups need a precise interleaving',
 ['src/thread_pool.cpp'], [('condition variables', 'src/thread_pool.cpp')])
prop('T04', 'Each scheduled task runs exactly once, and its provider outlives it',
 'A task handed to the pool is given to exactly one worker and executed once with its own task number from 0 to count-1, or is counted as discarded; a provider is not touched by the pool after the notification that lets its waiting thread proceed, and is removed from the queue before it is destroyed.',
 ['schedules', 'histories'], 'all interleavings and all histories of add, clear, resize, stop and destruction',
 'needs particular interleavings and multi-step histories',
 ['src/thread_pool.cpp'], [('task queue', 'src/thread_pool.cpp'), ('completion counter', 'src/thread_pool.cpp')])
prop('T05', 'A failing task never kills a worker and is always reported to its provider',
 'Any exception leaving a task is caught inside the worker, recorded before the completion of that task becomes visible, and turned into an error by the operation that waited for it; the remaining tasks still run to completion and the pool stays usable.',
 ['fault_sequences', 'schedules'], 'every task of every operation failing with any exception type',
 'tests never make a pooled task fail',
 ['src/thread_pool.cpp', 'src/function_pool.cpp'], [('exception barrier', 'src/thread_pool.cpp')])
prop('T06', 'Pooled image functions split work into disjoint parts that cover the region',
 'The multi-threaded image functions divide the region into parts which are pairwise disjoint, lie inside the region and together cover it, for every region size and every thread count, and hand each part to the image function of the same name with each image paired with its own offset of that part.',
 ['inputs', 'configurations'], 'all region sizes (down to one pixel) and thread counts',
 'tests draw a few sizes with few thread counts; uniform images hide uncovered or doubled parts',
 ['src/function_pool_task.cpp', 'src/function_pool_task.h', 'src/function_pool.cpp'], [('area split', 'src/function_pool_task.cpp')])
prop('T07', 'Pooled statistics combine the results of all parts',
 'The multi-threaded sum, histogram, projection, equality and similar functions give every part its own result slot, combine all slots after all parts have completed, and return that combination; no part writes a slot another part uses.',
 ['schedules', 'inputs'], 'all schedules, thread counts and region sizes',
 'uniform images and one thread count hide a lost part; a race on a slot needs a schedule',
 ['src/function_pool.cpp'], [('result slots', 'src/function_pool.cpp')])
prop('D01', 'Every dispatch table entry names the implementation of that operation',
 'Calling an operation through the device-independent interface executes the operation of the same name and signature of the library registered for the image type (scalar, vectorised or OpenCL), never another one, and every operation a library registers remains reachable after several libraries have been registered for a type.',
 ['programs', 'configurations'], 'every operation, every registered library, every registration order',
 'tests call the namespaces directly and hardly use the device-independent interface',
 ['src/penguinv/penguinv.cpp', 'src/image_function_helper.h', IF, IS, 'src/opencl/image_function_opencl.cpp'], [('function tables', 'src/image_function_helper.h')])
prop('D02', 'An instruction set is used only on a machine and in a build that supports it',
 'A vectorised code path is selected only when it was compiled in and the processor check of exactly that instruction set succeeded; for every instruction set value each vectorised function executes the code of that set or the scalar fallback, with that set\'s vector width, and never falls through without doing the work.',
 ['configurations'], 'all compile-time selections and all processors',
 'tests run on one processor with one compile configuration',
 [IS, 'src/penguinv/cpu_identification.h', 'src/penguinv/cpu_id_unix.h'], [('processor identification', 'src/penguinv/cpu_identification.h'), ('dispatch', IS)])
prop('B01', 'An image owns its buffer: no leak, double release, or shared buffer',
 'Through any sequence of construction, copying, moving, swapping, assignment (also to itself), resizing and destruction, each pixel buffer has exactly one owning image, is released exactly once through the allocator of its device type, copies are deep and equal to their source, and a source keeps its content.',
 ['histories', 'fault_sequences'], 'all sequences of image operations including allocation failures in the middle',
 'tests exercise a few sequences, never self-assignment and never a failing allocation',
 ['src/image_buffer.h'], [('buffer ownership', 'src/image_buffer.h')])
prop('B02', 'Image geometry always matches the allocated buffer',
 'Whenever an image has a buffer, the buffer holds at least height times row size elements, the row size is at least width times colour count and a multiple of the alignment; an image without buffer reports zero size. Requested sizes whose byte count does not fit are refused.',
 ['histories', 'inputs', 'fault_sequences'], 'all sizes including those whose products exceed 32 bits; all operation sequences and allocation failures',
 'tests use small sizes and no failures',
 ['src/image_buffer.h'], [('resize, assign, mutate, copy', 'src/image_buffer.h')])
prop('B03', 'The memory pool never hands out overlapping or out-of-pool memory',
 'Memory obtained from the allocator lies inside the reserved pool or comes from the system, is not handed out again before it is returned, is returned to where it came from, and the free and allocated sets are only changed together, under the lock, so they always describe a partition of the pool.',
 ['histories', 'schedules', 'fault_sequences'], 'all allocation histories, sizes and interleavings',
 'no test drives the pool through failing or concurrent histories',
 ['src/memory/memory_allocator.h', 'src/memory/cpu_memory.h'], [('buddy allocation', 'src/memory/memory_allocator.h')])
prop('F01', 'A damaged image file never makes a loader access memory out of bounds',
 'Whatever the bytes of a bitmap or raw image file, the loader either returns an image or throws; sizes, counts and offsets read from the file are checked, without wrap-around, before they are used for an allocation, an index, a copy length or a read position.',
 ['inputs'], 'all file contents and lengths',
 'tests load well-formed files only',
 ['src/file/bmp_image.cpp', 'src/file/raw_image.h'], [('header validation', 'src/file/bmp_image.cpp')])
prop('F02', 'File operations release their resources on every exit',
 'Loading or saving an image closes every file and frees every codec object and buffer it obtained, on success, on error return and when an exception is thrown.',
 ['fault_sequences'], 'all exits of all loaders and savers',
 'tests do not count handles and do not inject failures',
 ['src/file/png_image.cpp', 'src/file/jpeg_image.cpp', 'src/file/bmp_image.cpp'], [('resource handling', 'src/file/png_image.cpp')])
prop('F03', 'Failures of files and codecs surface as library exceptions',
 'Every failure that the file system or an image codec reports while loading or saving (missing file, short read, failed write, corrupt stream) makes the operation throw a library exception; the process is never terminated by the codec and no partially read image is returned.',
 ['fault_sequences', 'inputs'], 'every fallible call in every loader and saver',
 'tests do not inject I/O errors',
 ['src/file/png_image.cpp', 'src/file/jpeg_image.cpp', 'src/file/bmp_image.cpp', 'src/file/raw_image.h'], [('result checks', 'src/file/bmp_image.cpp')])
prop('O01', 'No OpenCL error code is ignored',
 'Every OpenCL call that can fail has its error code examined on every path before the operation returns, and an operation whose call failed does not return as if it had succeeded: the failure becomes an exception or is reported by the result.',
 ['fault_sequences'], 'every OpenCL call site and every error code',
 'a working device never returns an error',
 ['src/opencl/opencl_device.cpp', 'src/opencl/opencl_helper.cpp', 'src/opencl/opencl_memory.h', 'src/opencl/image_function_opencl.cpp'], [('openCLCheck', 'src/opencl/opencl_helper.cpp')])
prop('O02', 'Kernel arguments match the kernel they are passed to',
 'Each OpenCL kernel is launched by a host function with exactly the number of arguments of its signature, each in its own position with matching kind and size, all from the same device, and with a kernel name that the submitted program defines.',
 ['programs', 'configurations'], 'every kernel launch in the library',
 'kernels not exercised by tests, or arguments whose swap is symmetric in the tests, are not seen',
 ['src/opencl/image_function_opencl.cpp', 'src/opencl/opencl_helper.h'], [('argument list', 'src/opencl/opencl_helper.h')])
prop('O03', 'Kernels stay within the region for every work-item',
 'Each OpenCL kernel guards every global memory access so that work-items beyond the region do nothing, and each work-item accesses exactly the pixel of its own coordinates in each image, using that image\'s own offset and row size.',
 ['inputs', 'schedules'], 'all work-group roundings, region sizes, paddings and colour counts',
 'tests run one device whose rounding and uniform images hide it',
 ['src/opencl/image_function_opencl.cpp'], [('kernel sources', 'src/opencl/image_function_opencl.cpp')])
prop('O04', 'Every OpenCL object is released exactly once',
 'Each context, queue, program, kernel, event and memory object created or retained by the library is released exactly once on every path, including when a later creation fails, and is never used after release.',
 ['fault_sequences', 'histories'], 'all paths including failures',
 'leaks have no visible symptom in a test',
 ['src/opencl/opencl_device.cpp', 'src/opencl/opencl_helper.cpp', 'src/opencl/opencl_memory.h'], [('owner classes', 'src/opencl/opencl_helper.cpp')])
prop('E01', 'Failures surface as the library exception type; destructors never throw',
 'The library itself raises only exceptions of its documented exception type, and no destructor lets an exception escape, so cleaning up after an error never terminates the process.',
 ['fault_sequences', 'programs'], 'every throw site, every destructor and everything it calls',
 'tests do not destroy objects while failures happen',
 ['src/penguinv_exception.h', 'src/thread_pool.cpp', 'src/penguinv/image_manager.h'], [('exception type', 'src/penguinv_exception.h')])
prop('N01', 'Blob parameters describe exactly the connected components of the image',
 'For every image and threshold the detected blobs are exactly the 8-connected components, and area, contour, centre and extent are those of the component.',
 ['inputs'], 'all images', 'tests use a few shapes', ['src/blob_detection.cpp'], [('contour search', 'src/blob_detection.cpp')])
prop('N02', 'Edge detection returns every edge with its sub-pixel position',
 'For every signal the edge points returned are the extrema of the gradient that satisfy the requested direction, group and threshold, at their sub-pixel position.',
 ['inputs'], 'all images and parameters', 'tests use synthetic steps', ['src/edge_detection.cpp'], [('derivative search', 'src/edge_detection.cpp')])
prop('N03', 'FFT followed by inverse FFT restores the image',
 'Forward and inverse transforms are mutually inverse within floating point tolerance for all sizes.',
 ['inputs'], 'all images', 'tests use few sizes', ['src/fft.cpp', 'src/math/fft_base.cpp'], [('transform', 'src/fft.cpp')])
prop('N04', 'Scalar, vectorised, multi-threaded and OpenCL results are bit-identical',
 'For the same arguments every implementation of an operation returns the same pixel values.',
 ['inputs', 'configurations'], 'all images and regions', 'tests compare uniform images', [IF, IS, 'src/opencl/image_function_opencl.cpp'], [('operation bodies', IF)])
prop('N05', 'Thresholding picks the statistically optimal level',
 'The automatic threshold maximises the between-class variance of the histogram.',
 ['inputs'], 'all histograms', 'tests use few histograms', [IF], [('automatic threshold', IF)])
prop('N06', 'Hough and Haar transforms find the line and reconstruct the signal',
 'The Hough transform returns the best supported line; the inverse Haar transform reproduces the input.',
 ['inputs'], 'all point sets', 'tests use few point sets', ['src/math/hough_transform.cpp', 'src/math/haar_transform.cpp'], [('voting', 'src/math/hough_transform.cpp')])
prop('N07', 'Every operation terminates in time proportional to its region',
 'Image functions and the thread pool make progress and terminate for all inputs and fair schedules.',
 ['inputs', 'schedules'], 'all inputs and schedules', 'tests use small inputs', [IF, 'src/thread_pool.cpp'], [('loops', IF)])

def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    return [p['id'] for p in P]
if __name__ == '__main__':
    print(' '.join(main()))
