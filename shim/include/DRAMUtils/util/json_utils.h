#ifndef DRAMUTILS_UTIL_JSON_UTILS_H
#define DRAMUTILS_UTIL_JSON_UTILS_H
#include "DRAMUtils/util/json.h"
#include "DRAMUtils/util/types.h"
#include <optional>
#include <string>
namespace DRAMUtils::util {
template <typename T> struct is_optional : std::false_type {};
template <typename T> struct is_optional<std::optional<T>> : std::true_type {};
template <typename T> void extended_to_json(const char* key, json_t& j, const T& v) {
    if constexpr (is_optional<T>::value) { if (v.has_value()) j[key] = *v; }
    else j[key] = v;
}
template <typename T> void extended_from_json(const char* key, const json_t& j, T& v) {
    if constexpr (is_optional<T>::value) {
        auto it = j.find(key);
        if (it != j.end() && !it->is_null()) v = it->template get<typename T::value_type>();
        else v = std::nullopt;
    } else {
        j.at(key).get_to(v);
    }
}
}
#define SHIM_EXT_TO(v1) DRAMUtils::util::extended_to_json(#v1, nlohmann_json_j, nlohmann_json_t.v1);
#define SHIM_EXT_FROM(v1) DRAMUtils::util::extended_from_json(#v1, nlohmann_json_j, nlohmann_json_t.v1);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \
    inline void to_json(nlohmann::json& nlohmann_json_j, const Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_EXT_TO, __VA_ARGS__)) } \
    inline void from_json(const nlohmann::json& nlohmann_json_j, Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_EXT_FROM, __VA_ARGS__)) }
#endif
