PROPERTY = "C11"
NEEDS = "a data bus of more than eight lines whose width is no whole number of bytes, such as three 4-bit devices"
BREAKS = "every beat is taken from the next whole byte of the data"
EDITS = [("src/DRAMPower/DRAMPower/util/burst_storage.h",
"                if (bit_index % 8 == 0) {\n                    ++byte_index;\n                }\n            }\n",
"                if (bit_index % 8 == 0) {\n                    ++byte_index;\n                }\n            }\n            if (width > 8 && bit_index % 8 != 0) {\n                // continue with whole bytes\n                bit_index += 8 - bit_index % 8;\n                ++byte_index;\n            }\n")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4();
    ms.bitWidth = 4; ms.numberOfDevices = 3;
    DDR4 m(ms);
    uint8_t z[64];
    for (int i = 0; i < 64; i++) z[i] = i < 12 ? 0xff : 0;
    m.doCoreInterfaceCommand({10, CmdType::ACT, {0, 0, 0}});
    m.doCoreInterfaceCommand({40, CmdType::WR, {0, 0, 0}, z, 96});
    expect("zeroes", m.getWindowStats(200).writeBus.zeroes, 0u);
    return fails != 0;
}
'''
