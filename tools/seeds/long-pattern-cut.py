PROPERTY = "C10"
NEEDS = "DDR4: a self-refresh exit, the only command whose pattern is longer than 32 bits"
BREAKS = "only the lower 32 bits of a command's pattern reach the bus, so the first beat of a self-refresh exit drives wrong levels"
EDITS = [("src/DRAMPower/DRAMPower/util/bus.h",
"bytes[i] = static_cast<uint8_t>((data >> (i * 8)) & 0xFF);", "bytes[i] = i < sizeof(unsigned) ? static_cast<uint8_t>((static_cast<unsigned>(data) >> (i * 8)) & 0xFF) : 0;")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4();
    DDR4 m(ms);
    auto z0 = m.getWindowStats(10).commandBus.zeroes;
    m.doInterfaceCommand({10, CmdType::SREFEX, {0, 0, 0}});
    auto s = m.getWindowStats(20).commandBus;
    // the first beat is deselect (all ones), the second one has a single low level
    expect("zeroes", s.zeroes - z0, 1u);
    return fails != 0;
}
'''
