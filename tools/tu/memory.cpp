// instantiates the allocator templates so that their members are present in the IR
#include "memory/cpu_memory.h"
#include "opencl/opencl_memory.h"
template uint8_t * cpu_Memory::MemoryAllocator::allocate<uint8_t>( size_t );
template uint16_t * cpu_Memory::MemoryAllocator::allocate<uint16_t>( size_t );
template uint32_t * cpu_Memory::MemoryAllocator::allocate<uint32_t>( size_t );
template void cpu_Memory::MemoryAllocator::free<uint8_t>( uint8_t * );
template void cpu_Memory::MemoryAllocator::free<uint16_t>( uint16_t * );
template cl_mem multiCL::MemoryAllocator::allocate<uint8_t>( size_t );
template cl_mem multiCL::MemoryAllocator::allocate<float>( size_t );
cpu_Memory::MemoryAllocator & pv_cpu() { cpu_Memory::MemoryAllocator & a = cpu_Memory::MemoryAllocator::instance(); a.reserve( 1 ); return a; }
void pv_cl( multiCL::MemoryAllocator & a, cl_mem m ) { a.free( m ); a.reserve( 1 ); }
multiCL::MemoryAllocator * pv_cl_new( cl_context c, cl_device_id d, size_t n ) { return new multiCL::MemoryAllocator( c, d, n ); }
