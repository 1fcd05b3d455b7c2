PROPERTY = "C13"
NEEDS = "a memory whose data rate is odd (1), so that a clock period is one beat"
BREAKS = "the periods of a clock are computed with the rounded-down half of the data rate, so a strobe of a single-data-rate memory does not move"
EDITS = [("src/DRAMPower/DRAMPower/util/clock.h", "stats.%s = duration * dataRate / 2;" % k, "stats.%s = duration * (dataRate / 2);" % k) for k in ("ones", "zeroes", "zeroes_to_ones", "ones_to_zeroes")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4({{"memarchitecturespec", {{"dataRate", 1}}}});
    DDR4 m(ms);
    std::size_t w = ms.bitWidth * ms.numberOfDevices;
    std::vector<uint8_t> d(w, 0x5a);
    m.doInterfaceCommand({10, CmdType::RD, {0, 0, 0, 1, 8}, d.data(), w * 8});
    auto s = m.getWindowStats(40);
    expect("read strobe rising edges", s.readDQSStats.zeroes_to_ones, 2u * 4u);
    return fails != 0;
}
'''
