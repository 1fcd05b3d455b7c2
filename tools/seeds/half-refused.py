PROPERTY = "C32"
NEEDS = "LPDDR5 with eight banks: a two-bank refresh, refused only after one bank was refreshed"
BREAKS = "the refusal moved to where the second bank is needed, so a refused two-bank refresh leaves the refresh of the first bank behind"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp",
"""            if (m_memSpec.bank_arch != MemSpecLPDDR5::MBG && m_memSpec.bank_arch != MemSpecLPDDR5::M16B) {
                throw Exception(std::string("REFP2B command is not supported for this bank architecture: ") + CmdTypeUtil::to_string(CmdType::REFP2B));
            }
""", ""),
("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp",
"""    std::size_t bank_2_idx = (bank_idx + m_memSpec.perTwoBankOffset) % 16;
    auto& counter1 = rank.banks[bank_idx].counter.refPerTwoBanks;
    auto& counter2 = rank.banks[bank_2_idx].counter.refPerTwoBanks;
    handleRefreshOnBank(rank_idx, bank_idx, timestamp, m_memSpec.tRFCPB, counter1);
""",
"""    auto& counter1 = rank.banks[bank_idx].counter.refPerTwoBanks;
    handleRefreshOnBank(rank_idx, bank_idx, timestamp, m_memSpec.tRFCPB, counter1);
    if (m_memSpec.bank_arch == MemSpecLPDDR5::M8B) {
        throw Exception(std::string("REFP2B command is not supported for this bank architecture: ") + CmdTypeUtil::to_string(CmdType::REFP2B));
    }
    std::size_t bank_2_idx = (bank_idx + m_memSpec.perTwoBankOffset) % 16;
    auto& counter2 = rank.banks[bank_2_idx].counter.refPerTwoBanks;
""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr5({{"memarchitecturespec", {{"nbrOfBanks", 8}, {"nbrOfBankGroups", 1}}}});
    LPDDR5 m(ms);
    bool refused = false;
    try { m.doCommand({10, CmdType::REFP2B, {2, 0, 0}}); } catch (const std::exception&) { refused = true; }
    expect("refused", refused, true);
    auto s = m.getWindowStats(100);
    expect("refreshes", s.bank[2].counter.refPerTwoBanks, 0);
    expect("active cycles", s.bank[2].cycles.act, 0);
    return fails != 0;
}
'''
