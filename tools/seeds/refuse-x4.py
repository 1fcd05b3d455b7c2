PROPERTY = "C14"
NEEDS = "DDR4 with 4-bit devices, whose data inversion can not be switched on"
BREAKS = "the extension reports the requested state although the memory refused it"
EDITS = [("src/DRAMPower/DRAMPower/util/extensions.cpp", "    if (result) {\n        // Update member\n        m_enabled = enable;\n    }", "    // Update member\n    m_enabled = enable;")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4({{"memarchitecturespec", {{"width", 4}, {"nbrOfDevices", 4}}}});
    DDR4 m(ms);
    auto e = m.getExtensionManager().getExtension<extensions::DBI>().lock();
    expect("request accepted", e->enable(0, true), false);
    expect("reported as enabled", e->isEnabled(), false);
    return fails != 0;
}
'''
