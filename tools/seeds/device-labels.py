PROPERTY = "C28"
NEEDS = "a memory with at least two ranks and a different number of devices, and the JSON result of a command-line run"
BREAKS = "the rank and device labels of the JSON result follow a device-major order while the energies are rank-major"
EDITS = [("src/cli/lib/DRAMPower/cli/run.cpp",
"""			energy_offset = r * bankcount * devicecount + d * bankcount;
			for ( std::size_t b = 0; b < bankcount; b++ ) {
				// Rank,Device,Bank -> bank_energy
				j[""",
"""			energy_offset = d * bankcount * rankcount + r * bankcount;
			for ( std::size_t b = 0; b < bankcount; b++ ) {
				// Rank,Device,Bank -> bank_energy
				j[""")]
DEMO = r'''
#include "demo.h"
#include <DRAMPower/cli/run.hpp>
int main() {
    std::unique_ptr<dram_base<CmdType>> m = std::make_unique<DDR4>(ddr4({{"memarchitecturespec", {{"nbrOfRanks", 2}, {"nbrOfDevices", 2}}}}));
    m->doCommand({10, CmdType::ACT, {0, 0, 1, 1, 0}}); // rank 1, bank 0
    m->doCommand({100, CmdType::END_OF_SIMULATION});
    energy_t e = m->calcCoreEnergy(100);
    interface_energy_info_t i = m->calcInterfaceEnergy(100);
    DRAMPowerCLI::jsonFileResult("out.json", m, e, i);
    std::ifstream f("out.json");
    J j = J::parse(f);
    for (auto& b : j["CoreEnergy"][e.get_Bank_energy_keyword()])
        expect("rank of an activated bank", b["Rank"].get<int>() == 1 && b["Bank"].get<int>() == 0, b["ACT"].get<double>() != 0);
    return fails != 0;
}
'''
SRC = "cli"
