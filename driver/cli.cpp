// The command line library: how a command list file is read.
// One JSON object per line in: {"id", "file": path} ; out: {"id", "ok": bool, "rows": [[type, t, rank, bank group, bank, row, column, bytes or null]...]} or {"id", "exc": what}
#include <DRAMPower/cli/config.h>
#include <DRAMPower/cli/run.hpp>

#include <DRAMPower/command/CmdType.h>

#include <fstream>
#include <iostream>
#include <string>
#include <vector>

using namespace DRAMPower;
using J = nlohmann::json;

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J h = J::parse(line), r = {{"id", h["id"]}};
        std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l;
        try {
            bool ok = DRAMPowerCLI::parse_command_list(h["file"].get<std::string>(), l);
            r["ok"] = ok ? 1 : 0;
            J rows = J::array();
            for (auto& e : l) {
                const Command& c = e.first;
                J d = nullptr;
                if (CmdTypeUtil::needs_data(c.type)) {
                    d = J::array();
                    if (c.sz_bits % 8) d.push_back("odd size");
                    for (size_t i = 0; i < c.sz_bits / 8; i++) d.push_back(c.data[i]);
                } else if (c.data || c.sz_bits) d = "unexpected data";
                const auto& t = c.targetCoordinate;
                J row = J::array({std::string(CmdTypeUtil::to_string(c.type)), c.timestamp, t.rank, t.bankGroup, t.bank, t.row, t.column, d});
                rows.push_back(row);
            }
            r["rows"] = std::move(rows);
        } catch (const std::exception& e) { r["exc"] = e.what(); }
        std::cout << r.dump() << "\n";
    }
    std::cout.flush();
}
