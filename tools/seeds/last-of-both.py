PROPERTY = "C31"
NEEDS = "LPDDR4 whose array is driven further than its interface"
BREAKS = "the time of the last command is that of the interface whenever the interface has seen a command, so later commands of the array alone are missed"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h", "return std::max(m_core.getLastCommandTime(), m_interface.getLastCommandTime());", "return 0 != m_interface.getLastCommandTime() ? m_interface.getLastCommandTime() : m_core.getLastCommandTime();")]
DEMO = r'''
#include "demo.h"
int main() {
    LPDDR4 m(lpddr4());
    m.doCoreInterfaceCommand({10, CmdType::ACT, {0, 0, 0, 1, 0}});
    m.doCoreCommand({70, CmdType::PRE, {0, 0, 0}});
    expect("last command", m.getLastCommandTime(), 70u);
    return fails != 0;
}
'''
