PROPERTY = "C15"
NEEDS = "LPDDR6 with inversion on, a 48-beat burst whose second half holds inverted groups"
BREAKS = "only the inversion flags of one 24-beat unit are gathered, so the flags of the second half of a long burst are sent as not inverted"
EDITS = [("src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp",
"std::min(InversionState->get().size(), static_cast<std::size_t>(32));",
"std::min(InversionState->get().size(), static_cast<std::size_t>(dbiBitsPerBurst));"),
("src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp",
"    uint32_t dbival = 0;\n",
"    // One inversion flag per group\n    constexpr std::size_t dbiBitsPerBurst = 16;\n    uint32_t dbival = 0;\n")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr6();
    auto run = [&](bool dbi) {
        LPDDR6 m(ms);
        m.getExtensionManager().template withExtension<extensions::DBI>([&](auto& e) { e.enable(0, dbi); });
        std::vector<uint8_t> d(64, 0);
        for (int i = 32; i < 64; ++i) d[i] = 0xff; // the second half is all ones
        m.doInterfaceCommand({10, CmdType::WR, {0, 0, 0, 1, 8}, d.data(), 512});
        return m.getWindowStats(60).writeBus;
    };
    auto on = run(true), off = run(false);
    // inverting 256 ones leaves zeroes and 16 flags
    expect("ones without inversion minus ones with", off.ones - on.ones, 256u - 16u);
    return fails != 0;
}
'''
