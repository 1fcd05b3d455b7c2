PROPERTY = "C23"
NEEDS = "an interval that was closed and is started again only if it is not running"
BREAKS = "a conditional start does nothing on an interval that ran before, so its second run is not measured"
EDITS = [("src/DRAMPower/DRAMPower/util/cycle_stats.h", "		if(!is_open())\n			start_interval(start);", "		if(!this->start)\n			start_interval(start);")]
DEMO = r"""
#include <DRAMPower/util/cycle_stats.h>
#include <cstdint>
#include <iostream>
int main() {
    DRAMPower::util::interval_counter<uint64_t> c;
    c.start_interval_if_not_running(10); c.close_interval(15); c.start_interval_if_not_running(20);
    if (c.get_count_at(28) != 13) { std::cout << "count at 28: expected 13, got " << c.get_count_at(28) << "\n"; return 1; }
    return 0;
}
"""
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
