#ifndef DRAMUTILS_UTIL_TYPES_H
#define DRAMUTILS_UTIL_TYPES_H
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace DRAMUtils::util {
template <typename> inline constexpr bool always_false_v = false;
template <typename T> struct always_false : std::false_type {};
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename... Ts> struct unique_types : std::true_type {};
template <typename T, typename... Ts> struct unique_types<T, Ts...>
    : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
template <typename T, typename Seq> struct is_one_of : std::false_type {};
template <typename T, typename... Ts> struct is_one_of<T, type_sequence<Ts...>>
    : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
}
#endif
