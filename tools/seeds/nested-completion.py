PROPERTY = "C29"
NEEDS = "a completion that defers another one which is due within the same step of time"
BREAKS = "only as many completions are processed as were pending at the start, so one deferred meanwhile and already due waits for the next step"
EDITS = [("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h",
"""    void processImplicitCommandQueue(CommandContext_t context, timestamp_t timestamp, timestamp_t &last_command_time) {
        while (!m_implicitCommandList.empty() && m_implicitCommandList.front().first <= timestamp) {""",
"""    void processImplicitCommandQueue(CommandContext_t context, timestamp_t timestamp, timestamp_t &last_command_time) {
        for (auto pending = implicitCommandCount(); pending != 0 && m_implicitCommandList.front().first <= timestamp; --pending) {""")]
DEMO = r'''
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <iostream>
using namespace DRAMPower;
struct Ctx { ImplicitCommandHandler<Ctx> q; int ran = 0; };
int main() {
    Ctx c;
    timestamp_t last = 0;
    c.q.addImplicitCommand(10, [](Ctx& x) { x.ran++; x.q.addImplicitCommand(12, [](Ctx& y) { y.ran++; }); });
    c.q.processImplicitCommandQueue(c, 20, last);
    std::cout << c.ran << " completions, last at " << last << ", " << c.q.implicitCommandCount() << " left\n";
    return c.ran != 2 || last != 12 || c.q.implicitCommandCount() != 0;
}
'''
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
