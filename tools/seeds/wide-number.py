PROPERTY = "C22"
NEEDS = "a bit vector compared with a number of more than 32 bits"
BREAKS = "only the lower 32 bits of the number take part in the comparison"
EDITS = [("src/DRAMPower/DRAMPower/util/dynamic_bitset.h", "return *this == dynamic_bitset<blocksize> { this->size(), rhs };", "return *this == dynamic_bitset<blocksize> { this->size(), static_cast<unsigned>(rhs) };")]
DEMO = r"""
#include <DRAMPower/util/dynamic_bitset.h>
#include <cstdint>
#include <iostream>
int main() {
    DRAMPower::util::dynamic_bitset<8> b(40, 0x8000000001ul);
    if (!(b == 0x8000000001ul) || b == 1ul) { std::cout << "comparison with a wide number\n"; return 1; }
    return 0;
}
"""
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
