// instantiates the templates of the OpenCL part so that their code is analysed
#include "opencl/image_buffer_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include "opencl/opencl_memory.h"
#include "opencl/opencl_types.h"
template class multiCL::Type<float>;
template class multiCL::Array<float>;
template class penguinV::ImageTemplateOpenCL<uint8_t>;
