// small helpers shared by the demonstrations
#pragma once
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMPower/util/extensions.h>
#include <DRAMUtils/memspec/MemSpec.h>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace DRAMPower;
using J = nlohmann::json;
inline J base(const char* n) { std::ifstream f(std::string(std::getenv("DEMO_DATA")) + "/" + n + ".json"); return J::parse(f); }
inline J with(J j, const J& over) { for (auto& s : over.items()) for (auto& f : s.value().items()) j["memspec"][s.key()][f.key()] = f.value(); return j; }
template <typename MS, typename U> MS spec(const char* n, const J& over = J::object()) {
    auto v = DRAMUtils::parse_memspec_from_json(with(base(n), over));
    return MS(std::get<U>(v->getVariant()));
}
inline MemSpecDDR4 ddr4(const J& o = J::object()) { return spec<MemSpecDDR4, DRAMUtils::MemSpec::MemSpecDDR4>("ddr4", o); }
inline MemSpecDDR5 ddr5(const J& o = J::object()) { return spec<MemSpecDDR5, DRAMUtils::MemSpec::MemSpecDDR5>("ddr5", o); }
inline MemSpecLPDDR4 lpddr4(const J& o = J::object()) { return spec<MemSpecLPDDR4, DRAMUtils::MemSpec::MemSpecLPDDR4>("lpddr4", o); }
inline MemSpecLPDDR5 lpddr5(const J& o = J::object()) { return spec<MemSpecLPDDR5, DRAMUtils::MemSpec::MemSpecLPDDR5>("lpddr5", o); }
inline MemSpecLPDDR6 lpddr6(const J& o = J::object()) { return spec<MemSpecLPDDR6, DRAMUtils::MemSpec::MemSpecLPDDR6>("lpddr6", o); }
inline int fails = 0;
template <typename A, typename B> void expect(const char* what, A got, B want) {
    if (!(got == (A)want)) { std::cout << what << ": expected " << want << ", got " << got << "\n"; ++fails; }
}
