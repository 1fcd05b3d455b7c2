PROPERTY = "C21"
NEEDS = "a simulation assigned over another one in which a deferred completion is still pending"
BREAKS = "pending completions of the object that is assigned to survive when the source has none, and act on the new state"
EDITS = [("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h",
"""    using CommandContext_t = std::add_lvalue_reference_t<std::remove_reference_t<CommandContext>>;
""",
"""    using CommandContext_t = std::add_lvalue_reference_t<std::remove_reference_t<CommandContext>>;
    ImplicitCommandHandler() = default;
    ImplicitCommandHandler(const ImplicitCommandHandler&) = default;
    ImplicitCommandHandler(ImplicitCommandHandler&&) noexcept = default;
    ImplicitCommandHandler& operator=(ImplicitCommandHandler&&) = default;
    ImplicitCommandHandler& operator=(const ImplicitCommandHandler& other) {
        if (0 != other.implicitCommandCount())
            m_implicitCommandList = other.m_implicitCommandList;
        return *this;
    }
"""),
("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h",
"""template<typename CommandContext>
class ImplicitCommandHandler {
""", """template<typename CommandContext> // a context is always given
class ImplicitCommandHandler {
""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr4();
    DDR4 a(ms), b(ms), c(ms);
    for (auto p : {&a, &c}) p->doCoreInterfaceCommand({10, CmdType::ACT, {0, 0, 0, 1, 8}});
    b.doCoreInterfaceCommand({5, CmdType::REFA, {0, 0, 0}});
    b = a;                                   // the refresh of b is forgotten
    expect("active cycles", b.getWindowStats(2000).bank[0].cycles.act, c.getWindowStats(2000).bank[0].cycles.act);
    expect("last command", b.getLastCommandTime(), c.getLastCommandTime());
    return fails != 0;
}
'''
