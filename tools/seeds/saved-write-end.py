PROPERTY = "C20"
NEEDS = "DDR4: a state saved between two write bursts that follow each other without a gap"
BREAKS = "the end of the last write is not part of the saved state (the end of the last read is saved twice), so the first seamless write after restoring is not counted or a wrong one is"
EDITS = [("src/DRAMPower/DRAMPower/dram/Rank.cpp",
"stream.write(reinterpret_cast<const char*>(&lastWriteEnd), sizeof(lastWriteEnd));",
"stream.write(reinterpret_cast<const char*>(&lastReadEnd), sizeof(lastReadEnd));")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4();
    std::size_t w = ms.bitWidth * ms.numberOfDevices;
    std::vector<uint8_t> d(w, 0x5a);
    DDR4 m(ms);
    m.doCoreInterfaceCommand({1, CmdType::ACT, {0, 0, 0, 1, 8}});
    m.doCoreInterfaceCommand({20, CmdType::WR, {0, 0, 0, 1, 8}, d.data(), w * 8});
    std::stringstream st;
    m.serialize(st);
    DDR4 n(ms);
    n.deserialize(st);
    n.doCoreInterfaceCommand({24, CmdType::WR, {0, 0, 0, 1, 16}, d.data(), w * 8});
    m.doCoreInterfaceCommand({24, CmdType::WR, {0, 0, 0, 1, 16}, d.data(), w * 8});
    expect("seamless writes", n.getWindowStats(60).rank_total[0].prepos.writeSeamless, m.getWindowStats(60).rank_total[0].prepos.writeSeamless);
    return fails != 0;
}
'''
