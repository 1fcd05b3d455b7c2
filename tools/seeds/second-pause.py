PROPERTY = "C30"
NEEDS = "a group of lines in toggling-rate mode that is switched off and on at least twice"
BREAKS = "only the last time a group was switched off is remembered, so earlier pauses count as idle time"
EDITS = [("src/DRAMPower/DRAMPower/dram/Interface.cpp", "    this->disable_time += timestamp * this->datarate - this->disable_timestamp;\n    this->enableflag", "    this->disable_time = timestamp * this->datarate - this->disable_timestamp;\n    this->enableflag")]
DEMO = r'''
#include <DRAMPower/dram/Interface.h>
#include <iostream>
using namespace DRAMPower;
int main() {
    TogglingHandle h(1, 1, 0.5, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::H, true);
    h.disable(10); h.enable(30); h.disable(40); h.enable(45);
    auto s = h.get_stats(50);
    if (s.ones != 25) { std::cout << "ones: expected 25, got " << s.ones << "\n"; return 1; }
    return 0;
}
'''
SRC = ["src/DRAMPower/DRAMPower/dram/Interface.cpp"]
