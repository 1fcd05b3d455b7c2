PROPERTY = "C26"
NEEDS = "a DDR5 specification with a burst length other than 16"
BREAKS = "the burst time is that of a 16-beat burst whatever the specification says, and with it the delay of the automatic precharge of writes"
EDITS = [("src/DRAMPower/DRAMPower/memspec/MemSpecDDR5.cpp", "memTimingSpec.tBurst = burstLength/dataRate;", "memTimingSpec.tBurst = 16/dataRate;")]
DEMO = r'''
#include "demo.h"
int main() {
    auto ms = ddr5({{"memarchitecturespec", {{"burstLength", 32}}}});
    expect("burst cycles", ms.memTimingSpec.tBurst, 32u / ms.dataRate);
    expect("write precharge offset", ms.prechargeOffsetWR, 32u / ms.dataRate + ms.memTimingSpec.tWL + ms.memTimingSpec.tWR);
    return fails != 0;
}
'''
