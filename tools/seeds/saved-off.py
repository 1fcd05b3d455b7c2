PROPERTY = "C20"
NEEDS = "LPDDR6: a simulation saved while its interface is switched off, restored and switched on again"
BREAKS = "the restored simulation takes its interface for switched on, so switching it on again is ignored and its clock stays stopped"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp",
"    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));\n",
"    bool wasEnabled = false;\n    stream.read(reinterpret_cast<char*>(&wasEnabled), sizeof(wasEnabled));\n    m_enabled = m_enabled || wasEnabled;\n")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr6();
    LPDDR6 m(ms), n(ms);
    m.doCoreInterfaceCommand({10, CmdType::NOP, {}});
    m.getInterface().disable(40);
    std::stringstream st;
    m.serialize(st);
    n.deserialize(st);
    m.getInterface().enable(60); n.getInterface().enable(60);
    expect("clock", n.getWindowStats(100).clockStats.ones, m.getWindowStats(100).clockStats.ones);
    return fails != 0;
}
'''
