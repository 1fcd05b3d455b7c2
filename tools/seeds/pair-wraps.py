PROPERTY = "C01"
NEEDS = "LPDDR5: a two-bank refresh addressed through a bank of the upper half"
BREAKS = "the partner bank does not wrap around, so a two-bank refresh of an upper bank is counted on the last bank"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp",
"(bank_idx + m_memSpec.perTwoBankOffset) % 16;", "std::min<std::size_t>(bank_idx + m_memSpec.perTwoBankOffset, 15);")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr5();
    LPDDR5 m(ms);
    m.doCoreCommand({10, CmdType::REFP2B, {10, 2, 0}});
    auto s = m.getWindowStats(10 + ms.memTimingSpec.tRFCPB + 10);
    expect("two-bank refreshes of bank 2", s.bank[2].counter.refPerTwoBanks, 1u);
    expect("two-bank refreshes of bank 10", s.bank[10].counter.refPerTwoBanks, 1u);
    expect("two-bank refreshes of bank 15", s.bank[15].counter.refPerTwoBanks, 0u);
    return fails != 0;
}
'''
