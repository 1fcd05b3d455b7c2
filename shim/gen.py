#!/usr/bin/env python3
# Generates the DRAMUtils stand-in headers (include/DRAMUtils/...) from the memory
# specification resources of the repository's own tests. Run once; output is committed.
import json, os, sys
R = '/repo/tests/tests_drampower/resources/'
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include/DRAMUtils')
for d in ('util','config','memspec/standards'):
    os.makedirs(os.path.join(out,d), exist_ok=True)
def w(p,s):
    open(os.path.join(out,p),'w').write(s)
w('util/json.h','''#ifndef DRAMUTILS_UTIL_JSON_H
#define DRAMUTILS_UTIL_JSON_H
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#endif
''')
w('util/json_utils.h','''#ifndef DRAMUTILS_UTIL_JSON_UTILS_H
#define DRAMUTILS_UTIL_JSON_UTILS_H
#include "DRAMUtils/util/json.h"
#include "DRAMUtils/util/types.h"
#include <optional>
#include <string>
namespace DRAMUtils::util {
template <typename T> struct is_optional : std::false_type {};
template <typename T> struct is_optional<std::optional<T>> : std::true_type {};
template <typename T> void extended_to_json(const char* key, json_t& j, const T& v) {
    if constexpr (is_optional<T>::value) { if (v.has_value()) j[key] = *v; }
    else j[key] = v;
}
template <typename T> void extended_from_json(const char* key, const json_t& j, T& v) {
    if constexpr (is_optional<T>::value) {
        auto it = j.find(key);
        if (it != j.end() && !it->is_null()) v = it->template get<typename T::value_type>();
        else v = std::nullopt;
    } else {
        j.at(key).get_to(v);
    }
}
}
#define SHIM_EXT_TO(v1) DRAMUtils::util::extended_to_json(#v1, nlohmann_json_j, nlohmann_json_t.v1);
#define SHIM_EXT_FROM(v1) DRAMUtils::util::extended_from_json(#v1, nlohmann_json_j, nlohmann_json_t.v1);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \\
    inline void to_json(nlohmann::json& nlohmann_json_j, const Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_EXT_TO, __VA_ARGS__)) } \\
    inline void from_json(const nlohmann::json& nlohmann_json_j, Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_EXT_FROM, __VA_ARGS__)) }
#endif
''')
w('util/types.h','''#ifndef DRAMUTILS_UTIL_TYPES_H
#define DRAMUTILS_UTIL_TYPES_H
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace DRAMUtils::util {
template <typename> inline constexpr bool always_false_v = false;
template <typename T> struct always_false : std::false_type {};
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename... Ts> struct unique_types : std::true_type {};
template <typename T, typename... Ts> struct unique_types<T, Ts...>
    : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
template <typename T, typename Seq> struct is_one_of : std::false_type {};
template <typename T, typename... Ts> struct is_one_of<T, type_sequence<Ts...>>
    : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
}
#endif
''')
w('config/toggling_rate.h','''#ifndef DRAMUTILS_CONFIG_TOGGLING_RATE_H
#define DRAMUTILS_CONFIG_TOGGLING_RATE_H
#include "DRAMUtils/util/json_utils.h"
namespace DRAMUtils::Config {
enum class TogglingRateIdlePattern { L, H, Z, Invalid = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(TogglingRateIdlePattern, {
    {TogglingRateIdlePattern::Invalid, nullptr},
    {TogglingRateIdlePattern::L, "L"},
    {TogglingRateIdlePattern::H, "H"},
    {TogglingRateIdlePattern::Z, "Z"},
})
struct ToggleRateDefinition {
    double togglingRateRead;
    double togglingRateWrite;
    double dutyCycleRead;
    double dutyCycleWrite;
    TogglingRateIdlePattern idlePatternRead;
    TogglingRateIdlePattern idlePatternWrite;
};
NLOHMANN_JSONIFY_ALL_THINGS(ToggleRateDefinition, togglingRateRead, togglingRateWrite,
    dutyCycleRead, dutyCycleWrite, idlePatternRead, idlePatternWrite)
}
#endif
''')
stds=['DDR4','DDR5','LPDDR4','LPDDR5','LPDDR6']
for s in stds:
    j=json.load(open(R+s.lower()+'.json'))['memspec']
    o=f'#ifndef DRAMUTILS_MEMSPEC_STANDARDS_{s}_H\n#define DRAMUTILS_MEMSPEC_STANDARDS_{s}_H\n'
    o+='#include "DRAMUtils/util/json_utils.h"\n#include <cstdint>\n#include <numeric>\n#include <optional>\n#include <string>\n#include <string_view>\nnamespace DRAMUtils::MemSpec {\n'
    if s in('DDR4','DDR5'):
        vals=[('REF_MODE_1',1),('REF_MODE_2',2)]+([('REF_MODE_4',4)] if s=='DDR4' else [])
        o+=f'enum class RefModeType{s} {{ '+', '.join(f'{a} = {b}' for a,b in vals)+', INVALID = -1 };\n'
        o+=f'NLOHMANN_JSON_SERIALIZE_ENUM(RefModeType{s}, {{ {{RefModeType{s}::INVALID, nullptr}}, '+', '.join(f'{{RefModeType{s}::{a}, {b}}}' for a,b in vals)+' })\n'
    if s=='LPDDR4':
        o+='enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };\n'
        o+='NLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, { {pasrModesType::Invalid, nullptr}, '+', '.join(f'{{pasrModesType::PASR_{i}, {i}}}' for i in range(8))+' })\n'
    groups=[('memarchitecturespec','MemArchitectureSpecType'),('mempowerspec','MemPowerSpecType'),('memtimingspec','MemTimingSpecType'),('bankwisespec','BankWiseSpecType'),('memimpedancespec','MemImpedanceSpecType'),('prepostamble','PrePostambleType'),('dataratespec','DataRateSpecType')]
    members=[]
    for g,t in groups:
        if g not in j: continue
        t=t+s
        fs=[]
        for k in j[g]:
            if g=='memarchitecturespec':
                ty='uint64_t'
                if k=='RefMode': ty=f'RefModeType{s}'
                if k=='WCKalwaysOn': ty='bool'
            elif g=='mempowerspec':
                ty='std::optional<double>' if k.startswith('iBeta') else 'double'
            elif g=='memtimingspec':
                ty='double' if k=='tCK' else 'uint64_t'
            elif g=='bankwisespec':
                ty={'pasrMode':'std::optional<pasrModesType>','hasPASR':'std::optional<bool>'}.get(k,'std::optional<double>')
            elif g=='memimpedancespec':
                ty='bool' if k.endswith('_termination') else 'double'
            elif g=='prepostamble':
                ty='uint64_t' if '_to_' in k or k.endswith('Tccd') else 'double'
            else: ty='uint64_t'
            fs.append((k,ty))
        o+=f'struct {t} {{\n'+''.join(f'    {ty} {k}{{}};\n' for k,ty in fs)+'};\n'
        # the JSON paste macro takes at most 63 arguments: write the converters out
        o+=f'inline void to_json(json_t& nlohmann_json_j, const {t}& nlohmann_json_t) {{\n'+''.join(f'    SHIM_EXT_TO({k})\n' for k,_ in fs)+'}\n'
        o+=f'inline void from_json(const json_t& nlohmann_json_j, {t}& nlohmann_json_t) {{\n'+''.join(f'    SHIM_EXT_FROM({k})\n' for k,_ in fs)+'}\n'
        opt = g in('bankwisespec','dataratespec')
        members.append((g, f'std::optional<{t}>' if opt else t))
    o+=f'struct MemSpec{s} {{\n    static constexpr std::string_view id = "{s}";\n    std::string memoryId;\n'
    o+=''.join(f'    {t} {g}{{}};\n' for g,t in members)+'};\n'
    o+=f'NLOHMANN_JSONIFY_ALL_THINGS(MemSpec{s}, memoryId, '+', '.join(g for g,_ in members)+')\n'
    o+='}\n#endif\n'
    w(f'memspec/standards/MemSpec{s}.h',o)
o='''#ifndef DRAMUTILS_MEMSPEC_MEMSPEC_H
#define DRAMUTILS_MEMSPEC_MEMSPEC_H
#include "DRAMUtils/util/json_utils.h"
'''+''.join(f'#include "DRAMUtils/memspec/standards/MemSpec{s}.h"\n' for s in stds)+'''#include <filesystem>
#include <fstream>
#include <memory>
#include <variant>
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using Variant = std::variant<'''+', '.join('MemSpec'+s for s in stds)+'''>;
    MemSpecVariant() = default;
    template <typename T> void setVariant(T&& v) { m_variant = std::forward<T>(v); }
    Variant& getVariant() { return m_variant; }
    const Variant& getVariant() const { return m_variant; }
private:
    Variant m_variant;
};
}
namespace DRAMUtils {
inline std::unique_ptr<MemSpec::MemSpecVariant> parse_memspec_from_json(const json_t& data) {
    try {
        const json_t& m = data.at("memspec");
        const std::string type = m.at("memoryType").get<std::string>();
        auto r = std::make_unique<MemSpec::MemSpecVariant>();
'''+''.join(f'        if (type == "{s}") {{ r->setVariant(m.get<MemSpec::MemSpec{s}>()); return r; }}\n' for s in stds)+'''        return nullptr;
    } catch (const std::exception&) { return nullptr; }
}
inline std::unique_ptr<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path) {
    std::ifstream file(path);
    if (!file.is_open()) return nullptr;
    json_t data = json_t::parse(file, nullptr, false);
    if (data.is_discarded()) return nullptr;
    return parse_memspec_from_json(data);
}
}
#endif
'''
w('memspec/MemSpec.h',o)
