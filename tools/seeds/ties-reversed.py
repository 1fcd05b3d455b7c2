PROPERTY = "C29"
NEEDS = "two deferred completions due in the same cycle whose order matters"
BREAKS = "completions that are due in the same cycle take effect in reverse order of their requests"
EDITS = [("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h", "std::upper_bound(queue.begin(), queue.end(),", "std::lower_bound(queue.begin(), queue.end(),")]
DEMO = r'''
#include <DRAMPower/Types.h>
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <iostream>
#include <string>
using namespace DRAMPower;
int main() {
    struct C { std::string s; } c;
    ImplicitCommandHandler<C> h;
    h.addImplicitCommand(30, [](C& c) { c.s += "a"; });
    h.addImplicitCommand(20, [](C& c) { c.s += "b"; });
    h.addImplicitCommand(20, [](C& c) { c.s += "c"; });
    h.addImplicitCommand(20, [](C& c) { c.s += "d"; });
    timestamp_t last = 0;
    h.processImplicitCommandQueue(c, 40, last);
    if (c.s != "bcda") { std::cout << "order: expected bcda, got " << c.s << "\n"; return 1; }
    return 0;
}
'''
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
