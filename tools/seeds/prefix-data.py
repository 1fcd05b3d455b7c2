PROPERTY = "C27"
NEEDS = "a command list whose data is written with a 0x prefix"
BREAKS = "the prefix counts towards the length of the data: one byte too many is driven"
EDITS = [("src/cli/lib/DRAMPower/cli/run.cpp", "arr.get(), size * 8}, std::move(arr));", "arr.get(), data.length() / 2 * 8}, std::move(arr));")]
DEMO = r'''
#include "demo.h"
#include <DRAMPower/cli/run.hpp>
int main() {
    { std::ofstream f("c.csv"); f << "10, WR, 0, 0, 0, 1, 8, 0x11223344\n20, RD, 0, 0, 0, 1, 8, 11223344\n"; }
    std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l;
    expect("accepted", DRAMPowerCLI::parse_command_list("c.csv", l), true);
    expect("commands", l.size(), 2u);
    for (auto& c : l) expect("bits", c.first.sz_bits, 32u);
    return fails != 0;
}
'''
SRC = "cli"
