PROPERTY = "C25"
NEEDS = "a command name that merely starts like the self-refresh exit"
BREAKS = "every name starting with SREFEX is taken for that command instead of an unknown name"
EDITS = [("src/DRAMPower/DRAMPower/command/CmdType.h", 'if (str == "SREFEX")', 'if (str.substr(0, 6) == "SREFEX")')]
DEMO = r'''
#include <DRAMPower/command/CmdType.h>
#include <iostream>
using namespace DRAMPower;
int main() {
    for (auto s : {"SREFEXIT", "SREFEX_", "SREFEX2"})
        if (CmdTypeUtil::from_string(s) != CmdType::NOP) { std::cout << s << " is accepted\n"; return 1; }
    return CmdTypeUtil::from_string("SREFEX") != CmdType::SREFEX || CmdTypeUtil::from_string("SREFEN") != CmdType::SREFEN;
}
'''
SRC = ["src/DRAMPower/DRAMPower/util/extensions.cpp"]
