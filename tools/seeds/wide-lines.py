PROPERTY = "C11"
NEEDS = "a data bus whose width is not a multiple of eight (an odd number of 4-bit devices), so that a beat starts inside a byte"
BREAKS = "every beat is read from a byte boundary, so beats of a bus that is not a whole number of bytes wide take the wrong bits"
EDITS = [("src/DRAMPower/DRAMPower/util/burst_storage.h",
"            burst_offset = i * width;\n",
"            burst_offset = i * width;\n            byte_index = burst_offset / 8;\n            bit_index = byte_index * 8;\n")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4({{"memarchitecturespec", {{"width", 4}, {"nbrOfDevices", 1}}}});
    std::size_t w = ms.bitWidth * ms.numberOfDevices;
    expect("width", w, 4u);
    DDR4 m(ms);
    std::vector<uint8_t> d(4, 0x0f); // beats alternate between all ones and all zeroes
    m.doInterfaceCommand({10, CmdType::WR, {0, 0, 0, 1, 8}, d.data(), w * 8});
    auto s = m.getWindowStats(14);
    expect("zeroes written", s.writeBus.zeroes, 16u);
    return fails != 0;
}
'''
