PROPERTY = "C16"
NEEDS = "DDR4: a burst-chop access (half the data) followed by an access of the same direction exactly at its end, or at the end a full burst would have had"
BREAKS = "the end of an access is computed from the configured burst length instead of the burst that was transferred, so seamless chopped bursts are missed and gaps count as seamless"
EDITS = [("src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp",
"        handlePrePostamble(cmd.timestamp, length / m_memSpec.dataRate, rank, read);",
"        const auto beats = 0 == length ? length : m_memSpec.burstLength;\n        handlePrePostamble(cmd.timestamp, beats / m_memSpec.dataRate, rank, read);")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4();
    DDR4 m(ms);
    std::size_t w = ms.bitWidth * ms.numberOfDevices;
    std::vector<uint8_t> d(w, 0x5a);
    m.doInterfaceCommand({10, CmdType::RD, {0, 0, 0, 1, 8}, d.data(), w * 4}); // chopped: 2 cycles
    m.doInterfaceCommand({12, CmdType::RD, {0, 0, 0, 1, 16}, d.data(), w * 8}); // seamless: 4 cycles
    m.doInterfaceCommand({18, CmdType::RD, {0, 0, 0, 1, 24}, d.data(), w * 8}); // gap of 2
    auto s = m.getWindowStats(40);
    expect("seamless reads", s.rank_total[0].prepos.readSeamless, 1u);
    DDR4 n(ms);
    n.doInterfaceCommand({10, CmdType::WR, {0, 0, 0, 1, 8}, d.data(), w * 4});
    n.doInterfaceCommand({14, CmdType::WR, {0, 0, 0, 1, 16}, d.data(), w * 8}); // gap of 2
    expect("seamless writes", n.getWindowStats(40).rank_total[0].prepos.writeSeamless, 0u);
    return fails != 0;
}
'''
