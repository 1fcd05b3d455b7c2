PROPERTY = "C32"
NEEDS = "DDR5: a same-bank precharge or refresh addressed to the bank one past the last"
BREAKS = "the bound of same-bank commands admits the number of banks itself, and the command acts on the first bank of each group"
EDITS = [("src/DRAMPower/DRAMPower/util/RegisterHelper.h",
"""    decltype(auto) bankGroupHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
        assert(ranks.size()>cmd.targetCoordinate.rank);
        auto& rank = ranks.at(cmd.targetCoordinate.rank);

        assert(rank.banks.size()>cmd.targetCoordinate.bank);
        if (cmd.targetCoordinate.bank >= rank.banks.size()) {""",
"""    decltype(auto) bankGroupHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
        assert(ranks.size()>cmd.targetCoordinate.rank);
        auto& rank = ranks.at(cmd.targetCoordinate.rank);

        if (cmd.targetCoordinate.bank > rank.banks.size()) {""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr5({{"memarchitecturespec", {{"nbrOfBanks", 8}, {"nbrOfBankGroups", 2}}}});
    DDR5 m(ms);
    bool refused = false;
    try { m.doCoreCommand({10, CmdType::REFSB, {8, 1, 0}}); } catch (const std::exception&) { refused = true; }
    expect("refused", refused, true);
    auto s = m.getWindowStats(12);
    for (int b = 0; b < 8; b++) expect(("refreshes of bank " + std::to_string(b)).c_str(), s.bank[b].counter.refSameBank, 0);
    return fails != 0;
}
'''
