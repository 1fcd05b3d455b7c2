PROPERTY = "C13"
NEEDS = "LPDDR5 with the data clock running on demand, and a write shorter than the memory's usual burst"
BREAKS = "the data clock runs on for a whole usual burst"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp",
"        // Write\n        if (!m_memSpec.wckAlwaysOnMode) {\n            m_wck.start(cmd.timestamp);\n            m_wck.stop(cmd.timestamp + length / m_memSpec.dataRate);\n",
"        // Write\n        if (!m_memSpec.wckAlwaysOnMode) {\n            const auto beats = std::max<uint64_t>(length, m_memSpec.burstLength);\n            m_wck.start(cmd.timestamp);\n            m_wck.stop(cmd.timestamp + beats / m_memSpec.dataRate);\n")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr5();
    ms.wckAlwaysOnMode = false;
    ms.burstLength = 32;
    LPDDR5 m(ms), n(ms);
    uint8_t z[256] = {};
    for (LPDDR5* x : {&m, &n}) x->doCoreInterfaceCommand({10, CmdType::ACT, {0, 0, 0}});
    m.doCoreInterfaceCommand({40, CmdType::WR, {0, 0, 0}, z, ms.bitWidth * ms.numberOfDevices * 16});
    n.doCoreInterfaceCommand({40, CmdType::RD, {0, 0, 0}, z, ms.bitWidth * ms.numberOfDevices * 16});
    expect("data clock", m.getWindowStats(400).wClockStats.ones, n.getWindowStats(400).wClockStats.ones);
    return fails != 0;
}
'''
