PROPERTY = "C17"
NEEDS = "LPDDR4 with two ranks that are active for different times"
BREAKS = "the shared active background energy of every rank is computed from the first rank"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp",
"E_BG_act_shared(VDD, I_rho, stats.rank_total[i].cycles.act * t_CK)", "E_BG_act_shared(VDD, I_rho, stats.rank_total[0].cycles.act * t_CK)")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr4({{"memarchitecturespec", {{"nbrOfRanks", 2}}}});
    LPDDR4 a(ms), b(ms);
    a.doCoreCommand({10, CmdType::ACT, {0, 0, 0, 1, 0}});
    b.doCoreCommand({10, CmdType::ACT, {0, 0, 1, 1, 0}});
    expect("shared energy", b.calcCoreEnergy(100).E_bg_act_shared, a.calcCoreEnergy(100).E_bg_act_shared);
    return fails != 0;
}
'''
