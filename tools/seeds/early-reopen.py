PROPERTY = "C02"
NEEDS = "LPDDR4: power-down with open banks left while the deferred entry is still outstanding, so the exit is deferred too"
BREAKS = "the rank's active time restarts when the exit was requested instead of when it takes effect, so the rank counts those cycles twice"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp",
"    m_implicitCommandHandler.addImplicitCommand(exitTime, [rank_idx, exitTime](LPDDR4Core& self) {\n        auto& rank = self.m_ranks[rank_idx];\n        rank.memState = MemState::NOT_IN_PD;\n        rank.cycles.powerDownAct.close_interval(exitTime);",
"    m_implicitCommandHandler.addImplicitCommand(exitTime, [rank_idx, exitTime, timestamp](LPDDR4Core& self) {\n        auto& rank = self.m_ranks[rank_idx];\n        rank.memState = MemState::NOT_IN_PD;\n        rank.cycles.powerDownAct.close_interval(exitTime);"),
("src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp",
"        if (rank_active) {\n            rank.cycles.act.start_interval(exitTime);", "        if (rank_active) {\n            rank.cycles.act.start_interval(timestamp);")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr4();
    LPDDR4 m(ms);
    uint64_t t = ms.memTimingSpec.tRCD;
    if (t < 4) return 9;
    m.doCoreCommand({10, CmdType::ACT, {0, 0, 0, 1, 0}});
    m.doCoreCommand({11, CmdType::PDEA, {0, 0, 0}});
    m.doCoreCommand({13, CmdType::PDXA, {0, 0, 0}});
    auto s = m.getWindowStats(100);
    auto& c = s.rank_total[0].cycles;
    expect("active cycles of the rank", c.act, 90u);
    expect("all cycles of the rank", c.act + c.pre + c.powerDownAct + c.powerDownPre + c.selfRefresh, 100u);
    return fails != 0;
}
'''
