PROPERTY = "C08"
NEEDS = "DDR4 with two ranks: power-down of one rank entered right after an activation of the other one"
BREAKS = "the earliest power-down entry looks at the banks of every rank, so traffic on one rank delays the power-down of another"
EDITS = [("src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp",
"    for (const auto & bank : rank.banks) {\n        entryTime = std::max({ entryTime,", "    for (const auto & other : m_ranks)\n    for (const auto & bank : (other.banks.empty() ? rank : other).banks) {\n        entryTime = std::max({ entryTime,")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4({{"memarchitecturespec", {{"nbrOfRanks", 2}}}});
    DDR4 m(ms);
    m.doCoreCommand({10, CmdType::ACT, {0, 0, 0, 1, 0}});
    m.doCoreCommand({11, CmdType::PDEP, {0, 0, 1}});
    m.doCoreCommand({60, CmdType::PDXP, {0, 0, 1}});
    expect("power-down cycles of rank 1", m.getWindowStats(100).rank_total[1].cycles.powerDownPre, 49u);
    return fails != 0;
}
'''
