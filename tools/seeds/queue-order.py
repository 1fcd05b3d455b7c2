PROPERTY = "C03"
NEEDS = "three deferred completions pending at once, the newest falling between the two older ones (a long refresh, an early auto-precharge, then a middle one)"
BREAKS = "a deferred completion is appended behind the whole queue when it is not due before its front, so a later one holds it up and its rank/bank time is closed late or in the wrong order"
EDITS = [("src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h",
"""        auto upper = std::upper_bound(queue.begin(), queue.end(),
""", """        // In-order completions go to the end without searching
        if (queue.empty() || queue.front().first <= entry.first) {
            queue.push_back(std::move(entry));
            return;
        }

        auto upper = std::upper_bound(queue.begin(), queue.end(),
""")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = lpddr4({{"memtimingspec", {{"RAS", 10}, {"RTP", 2}, {"RFCpb", 100}, {"RPpb", 4}, {"RCD", 3}}}});
    LPDDR4 m(ms);
    m.doCoreCommand({0, CmdType::ACT, {0, 0, 0, 1}});
    m.doCoreCommand({1, CmdType::ACT, {1, 0, 0, 1}});
    m.doCoreCommand({5, CmdType::REFB, {2, 0, 0}});        // due last
    m.doCoreCommand({22, CmdType::RDA, {0, 0, 0, 1}});     // due first
    m.doCoreCommand({24, CmdType::RDA, {1, 0, 0, 1}});     // due between
    auto s = m.getWindowStats(80);
    uint64_t due = std::max<uint64_t>(1 + ms.memTimingSpec.tRAS, 24 + ms.prechargeOffsetRD);
    expect("precharges of bank 1", s.bank[1].counter.pre, 1);
    expect("active cycles of bank 1", s.bank[1].cycles.act, due - 1);
    return fails != 0;
}
'''
