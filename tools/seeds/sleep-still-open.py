PROPERTY = "C06"
NEEDS = "LPDDR5: statistics asked for while the rank is still in deep sleep"
BREAKS = "deep-sleep time is subtracted from a bank's self-refresh time only once it has ended"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp",
"""            stats.bank[bank_offset + j].cycles.selfRefresh =
                rank.cycles.sref.get_count_at(timestamp) -
                rank.cycles.deepSleepMode.get_count_at(timestamp);""",
"""            stats.bank[bank_offset + j].cycles.selfRefresh =
                rank.cycles.sref.get_count_at(timestamp) -
                rank.cycles.deepSleepMode.get_count();""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr5();
    LPDDR5 m(ms);
    uint64_t s0 = 10 + ms.memTimingSpec.tRFC;
    m.doCoreCommand({10, CmdType::SREFEN, {0, 0, 0}});
    m.doCoreCommand({s0 + 20, CmdType::DSMEN, {0, 0, 0}});
    auto s = m.getWindowStats(s0 + 50);
    expect("deep-sleep cycles", s.bank[3].cycles.deepSleepMode, 30u);
    expect("self-refresh cycles", s.bank[3].cycles.selfRefresh, 20u);
    return fails != 0;
}
'''
