// instantiates the image class templates so that their members are present in the IR
#include "image_buffer.h"
template class penguinV::ImageTemplate<uint8_t>;
template class penguinV::ImageTemplate<uint16_t>;
