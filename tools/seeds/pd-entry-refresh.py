PROPERTY = "C05"
NEEDS = "LPDDR5: power-down entered while a per-bank refresh is still running (all-bank refreshes hide it)"
BREAKS = "the power-down entry waits for the end of the rank's last all-bank refresh only, so it starts while a per-bank refresh is still running"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp",
"""                bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                bank.refreshEndTime});
""", """                bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                rank.endRefreshTime});
""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr5({{"memtimingspec", {{"RFCpb", 30}}}});
    LPDDR5 m(ms);
    m.doCoreCommand({10, CmdType::REFB, {3, 0, 0}});
    m.doCoreCommand({20, CmdType::PDEP, {0, 0, 0}});
    auto s = m.getWindowStats(60);
    uint64_t end = 10 + ms.memTimingSpec.tRFCPB;
    expect("power-down cycles", s.rank_total[0].cycles.powerDownPre, 60 - end);
    expect("active cycles of bank 3", s.bank[3].cycles.act, end - 10);
    return fails != 0;
}
'''
