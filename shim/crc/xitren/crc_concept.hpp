// Stand-in for the xitren/crc library's concept header, which packet.hpp includes and which is not available offline.
// packet.hpp uses nothing of it but the include itself; crc_iterator is what checksum classes written for that
// library constrain their iterators with.
#pragma once
#include <concepts>
#include <cstdint>
#include <iterator>
namespace xitren::crc {
template <typename T>
concept crc_iterator = std::input_iterator<T> && sizeof(std::iter_value_t<T>) == sizeof(std::uint8_t);
}
