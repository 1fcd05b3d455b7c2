PROPERTY = "C24"
NEEDS = "an extension registered a second time under the same type"
BREAKS = "a second registration of a type is kept out of the lookup, which still finds the first one, while its hooks run"
EDITS = [("src/DRAMPower/DRAMPower/util/extension_manager.h", "m_extensions[typeIndex] = ext;", "m_extensions.emplace(typeIndex, ext);")]
DEMO = r'''
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extensions.h>
#include <iostream>
using namespace DRAMPower;
int main() {
    util::extension_manager::ExtensionManager<extensions::Base> m;
    m.registerExtension<extensions::DBI>([](timestamp_t, bool) { return true; }, false);
    m.registerExtension<extensions::DBI>([](timestamp_t, bool) { return true; }, true);
    if (!m.getExtension<extensions::DBI>().lock()->isEnabled()) { std::cout << "the first registration is found\n"; return 1; }
    return 0;
}
'''
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
