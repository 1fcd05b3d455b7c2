#ifndef DRAMUTILS_MEMSPEC_MEMSPEC_H
#define DRAMUTILS_MEMSPEC_MEMSPEC_H
#include "DRAMUtils/util/json_utils.h"
#include "DRAMUtils/memspec/standards/MemSpecDDR4.h"
#include "DRAMUtils/memspec/standards/MemSpecDDR5.h"
#include "DRAMUtils/memspec/standards/MemSpecLPDDR4.h"
#include "DRAMUtils/memspec/standards/MemSpecLPDDR5.h"
#include "DRAMUtils/memspec/standards/MemSpecLPDDR6.h"
#include <filesystem>
#include <fstream>
#include <memory>
#include <variant>
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using Variant = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    MemSpecVariant() = default;
    template <typename T> void setVariant(T&& v) { m_variant = std::forward<T>(v); }
    Variant& getVariant() { return m_variant; }
    const Variant& getVariant() const { return m_variant; }
private:
    Variant m_variant;
};
}
namespace DRAMUtils {
inline std::unique_ptr<MemSpec::MemSpecVariant> parse_memspec_from_json(const json_t& data) {
    try {
        const json_t& m = data.at("memspec");
        const std::string type = m.at("memoryType").get<std::string>();
        auto r = std::make_unique<MemSpec::MemSpecVariant>();
        if (type == "DDR4") { r->setVariant(m.get<MemSpec::MemSpecDDR4>()); return r; }
        if (type == "DDR5") { r->setVariant(m.get<MemSpec::MemSpecDDR5>()); return r; }
        if (type == "LPDDR4") { r->setVariant(m.get<MemSpec::MemSpecLPDDR4>()); return r; }
        if (type == "LPDDR5") { r->setVariant(m.get<MemSpec::MemSpecLPDDR5>()); return r; }
        if (type == "LPDDR6") { r->setVariant(m.get<MemSpec::MemSpecLPDDR6>()); return r; }
        return nullptr;
    } catch (const std::exception&) { return nullptr; }
}
inline std::unique_ptr<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path) {
    std::ifstream file(path);
    if (!file.is_open()) return nullptr;
    json_t data = json_t::parse(file, nullptr, false);
    if (data.is_discarded()) return nullptr;
    return parse_memspec_from_json(data);
}
}
#endif
