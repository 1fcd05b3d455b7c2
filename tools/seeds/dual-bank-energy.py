PROPERTY = "C19"
NEEDS = "LPDDR6 traffic with dual-bank refreshes"
BREAKS = "the sum over the banks leaves out the energy of dual-bank refreshes, so the total is less than its parts"
EDITS = [("src/DRAMPower/DRAMPower/data/energy.cpp", "    this->E_ref_DB += other.E_ref_DB;\n", "")]
DEMO = r'''
#include "demo.h"
int main() {
    energy_t e(2);
    e.bank_energy[0].E_ref_DB = 4;
    e.bank_energy[1].E_ref_DB = 8;
    e.bank_energy[1].E_act = 1;
    expect("total", e.total(), 13.0);
    expect("aggregated", e.aggregated_bank_energy().total(), 13.0);
    return fails != 0;
}
'''
