// PublicDecompWT is an empty submodule here.  Stand-in for the wavelet decoder:
// the "compressed" payload of the files our generators write is the samples
// themselves, big-endian 16 bit.
#include <msat/hrit/MSG_data_image.h>
#include <ostream>
#include <stdexcept>
int decode_count = 0;
void MSG_data_image_encoded::decode(MSG_data_image* dec)
{
    ++decode_count;
    if (format != MSG_WAVELET_FORMAT && format != MSG_JPEG_FORMAT && format != MSG_T4_FORMAT)
        throw std::runtime_error("unknown compression");
    size_t n = (size_t)nx * (size_t)ny;
    if (len < 2 * n) throw std::runtime_error("compressed payload too short");
    dec->data = new MSG_SAMPLE[n];
    for (size_t i = 0; i < n; ++i) dec->data[i] = (MSG_SAMPLE)((data[2 * i] << 8) | data[2 * i + 1]);
    dec->len = n;
}
std::ostream& operator<<(std::ostream& os, MSG_data_image& i)
{
    for (size_t k = 0; k < i.len; ++k) os << i.data[k] << std::endl;
    return os;
}
