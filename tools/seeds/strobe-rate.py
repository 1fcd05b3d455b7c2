PROPERTY = "C18"
NEEDS = "DDR5 with a data rate specification whose strobe rate differs from the data rate, and writes"
BREAKS = "the static energy of the write strobe uses the data rate instead of the strobe rate"
EDITS = [("src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp",
"calcStaticTermination(impedances_.wdqs_termination, stats.writeDQSStats, impedances_.wdqs_R_eq, t_CK_, memspec_.dataRateSpec.dqsBusRate, VDDQ_)",
"calcStaticTermination(impedances_.wdqs_termination, stats.writeDQSStats, impedances_.wdqs_R_eq, t_CK_, memspec_.dataRate, VDDQ_)")]
DEMO = r'''
#include "demo.h"
int main() {
    auto run = [](unsigned rate) {
        auto ms = ddr5({{"dataratespec", {{"ca_bus_rate", 2}, {"dq_bus_rate", 2}, {"dqs_bus_rate", rate}}},
                        {"memimpedancespec", {{"wdqs_termination", true}}}});
        DDR5 m(ms);
        SimulationStats s = m.getWindowStats(0);
        s.writeDQSStats.zeroes = s.writeDQSStats.ones = 1000;
        return m.calcInterfaceEnergyStats(s).controller.staticEnergy;
    };
    double two = run(2), four = run(4);
    expect("static energy present", two > 0, true);
    expect("halves with twice the rate", std::abs(two - 2 * four) < 1e-9 * two, true);
    return fails != 0;
}
'''
