PROPERTY = "C29"
NEEDS = "more than 64 deferred commands due before the next command, as after refreshes of all banks of several ranks at once"
BREAKS = "the 65th and later ones wait for the command after it, and what is reported in between misses their effect"
EDITS = [("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h",
"    void processImplicitCommandQueue(CommandContext_t context, timestamp_t timestamp, timestamp_t &last_command_time) {\n        while (!m_implicitCommandList.empty() &&",
"    void processImplicitCommandQueue(CommandContext_t context, timestamp_t timestamp, timestamp_t &last_command_time) {\n        for (std::size_t budget = 64; budget > 0 && !m_implicitCommandList.empty() &&"),
("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h",
"            i_implicitCommand(context);\n", "            i_implicitCommand(context);\n            --budget;\n")]
EDITS = [(EDITS[0][0], EDITS[0][1] + " m_implicitCommandList.front().first <= timestamp) {", EDITS[0][2] + " m_implicitCommandList.front().first <= timestamp; --budget) {")]
DEMO = r'''
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <iostream>
int main() {
    struct C { int n = 0; } c;
    DRAMPower::ImplicitCommandHandler<C> h;
    DRAMPower::timestamp_t last = 0;
    for (int i = 0; i < 80; i++) h.addImplicitCommand(10, [](C& x) { x.n++; });
    h.processImplicitCommandQueue(c, 20, last);
    if (c.n != 80 || h.implicitCommandCount() != 0) { std::cout << "ran " << c.n << "\n"; return 1; }
    return 0;
}
'''
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
