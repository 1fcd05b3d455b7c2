PROPERTY = "C20"
NEEDS = "a simulation saved with data inversion switched off, restored into one in which it is switched on"
BREAKS = "inversion stays switched on in the restored simulation, so later bursts are inverted"
EDITS = [("src/DRAMPower/DRAMPower/util/dbi.h",
"        stream.read(reinterpret_cast<char*>(&m_enable), sizeof(m_enable));\n",
"        bool enabled = false;\n        stream.read(reinterpret_cast<char*>(&enabled), sizeof(enabled));\n        m_enable |= enabled;\n")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4();
    DDR4 m(ms), n(ms);
    n.getExtensionManager().withExtension<extensions::DBI>([](auto& d) { d.enable(0, true); });
    std::stringstream st;
    m.serialize(st);
    n.deserialize(st);
    uint8_t z[64] = {};
    for (DDR4* x : {&m, &n}) {
        x->doCoreInterfaceCommand({10, CmdType::ACT, {0, 0, 0}});
        x->doCoreInterfaceCommand({40, CmdType::RD, {0, 0, 0}, z, ms.bitWidth * ms.numberOfDevices * 8});
    }
    expect("ones read", n.getWindowStats(200).readBus.ones, m.getWindowStats(200).readBus.ones);
    return fails != 0;
}
'''
