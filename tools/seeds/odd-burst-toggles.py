PROPERTY = "C12"
NEEDS = "configured toggling rate and an odd number of transferred beats, for example a query inside a burst"
BREAKS = "the odd beat of an odd count of transferred beats is left out of the toggles"
EDITS = [("src/DRAMPower/DRAMPower/dram/Interface.cpp",
"stats.ones_to_zeroes = count * this->toggling_rate / 2; // Round down",
"stats.ones_to_zeroes = (count / 2) * this->toggling_rate; // Round down")]
DEMO = r'''
#include "demo.h"
#include <DRAMPower/dram/Interface.h>
int main() {
    TogglingHandle t(8, 1, 0.7, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L, true);
    t.incCountBurstLength(10, 9);
    expect("falling edges after nine beats", t.get_stats(30).ones_to_zeroes, 8u * 3u);  // floor(9 * 0.7 / 2) per line
    return fails != 0;
}
'''
