PROPERTY = "C07"
NEEDS = "DDR5: statistics asked for at a time after the last command, and afterwards the statistics at the last command"
BREAKS = "a query moves the time of the last command to the time asked for"
EDITS = [("src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp",
"void DDR5Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {\n    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);",
"void DDR5Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {\n    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);\n    m_last_command_time = std::max(timestamp, m_last_command_time);")]
DEMO = r'''
#include "demo.h"
int main() {
    DDR5 m(ddr5());
    m.doCoreInterfaceCommand({10, CmdType::ACT, {0, 0, 0, 1, 8}});
    expect("before the query", m.getLastCommandTime(), 10u);
    m.getWindowStats(500);
    expect("last command", m.getLastCommandTime(), 10u);
    expect("active cycles at the last command", m.getStats().rank_total[0].cycles.act, 0u);
    return fails != 0;
}
'''
