PROPERTY = "C09"
NEEDS = "LPDDR5: a 32-beat access earlier in the run, then a 16-beat access whose column has its lowest bit set"
BREAKS = "the column bit forced low for a long burst is set back only when the data is longer than one beat group, so later short bursts keep the forced bit"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp",
"            m_patternHandler.getEncoder().settings.removeSetting(pattern_descriptor::C0);\n",
"            if (read) {\n                m_patternHandler.getEncoder().settings.removeSetting(pattern_descriptor::C0);\n            }\n"),
("src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp", "handleOverrides(size_t length, bool /*read*/)", "handleOverrides(size_t length, bool read)")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr5();
    std::size_t w = ms.bitWidth * ms.numberOfDevices;
    std::vector<uint8_t> d(w * 4, 0);
    auto ones = [&](bool first) {
        LPDDR5 m(ms);
        if (first) m.doInterfaceCommand({10, CmdType::RD, {0, 0, 0, 1, 0}, d.data(), w * 32});
        else m.doInterfaceCommand({10, CmdType::RD, {0, 0, 0, 1, 0}, d.data(), w * 16});
        auto a = m.getWindowStats(50).commandBus.ones;
        m.doInterfaceCommand({60, CmdType::WR, {0, 0, 0, 1, 1}, d.data(), w * 16});
        return m.getWindowStats(90).commandBus.ones - a;
    };
    expect("ones of the later write command", ones(true), ones(false));
    return fails != 0;
}
'''
