PROPERTY = "C04"
NEEDS = "a DDR5 organisation whose number of bank groups differs from the banks per group, and a same-bank refresh addressed through a bank of a higher group"
BREAKS = "the bank inside the group is computed modulo the number of bank groups, so a same-bank refresh covers the wrong banks"
EDITS = [("src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp",
"""void DDR5Core::handleRefSameBank(std::size_t rank_idx, std::size_t bank_id, timestamp_t timestamp) {
    auto bank_id_inside_bg = bank_id % m_memSpec.banksPerGroup;
""", """void DDR5Core::handleRefSameBank(std::size_t rank_idx, std::size_t bank_id, timestamp_t timestamp) {
    auto bank_id_inside_bg = (bank_id % m_memSpec.numberOfBankGroups) % m_memSpec.banksPerGroup;
""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr5({{"memarchitecturespec", {{"nbrOfBanks", 8}, {"nbrOfBankGroups", 2}}}});
    DDR5 m(ms);
    m.doCoreCommand({10, CmdType::REFSB, {7, 1, 0}});      // fourth bank of each group
    auto s = m.getWindowStats(12);
    for (int b = 0; b < 8; b++) expect(("refreshes of bank " + std::to_string(b)).c_str(), s.bank[b].counter.refSameBank, b % 4 == 3 ? 1 : 0);
    return fails != 0;
}
'''
