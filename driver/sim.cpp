// Replays behaviours (one JSON object per line on stdin) through the public API of
// the library and writes what it reports (one JSON object per line on stdout).
// See DESIGN.md, "Driver", for the format.
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMPower/util/extensions.h>
#include <DRAMUtils/memspec/MemSpec.h>

#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace DRAMPower;
using J = nlohmann::json;
using Mem = dram_base<CmdType>;

static std::string g_data;
static std::map<std::string, J> g_templ;

struct Ctx {          // how times are mapped
    uint64_t K = 1, T0 = 0;
    uint64_t t(const J& v) const { return v.get<uint64_t>() * K + T0; }
    J d(uint64_t v) const {       // duration
        if (K == 1) return v;
        if (v % K == 0) return v / K;
        return "frac " + std::to_string(v);
    }
    J d0(uint64_t v) const {      // duration from the beginning
        if (v < T0) return "before " + std::to_string(v);
        return d(v - T0);
    }
};

// ------------------------------------------------------------------ factories
struct Factory {
    virtual ~Factory() = default;
    virtual std::unique_ptr<Mem> make() = 0;
    virtual std::unique_ptr<Mem> copy(const Mem&) = 0;
    virtual std::unique_ptr<Mem> move(Mem&) = 0;
    virtual void assign(Mem&, const Mem&) = 0;
    virtual void massign(Mem&, Mem&) = 0;
    virtual J spec() = 0;
};

template <typename MS> J specFields(const MS&);

template <typename Sim, typename MS> struct FactoryT : Factory {
    MS ms; config::SimConfig sc;
    FactoryT(const MS& m, const config::SimConfig& s) : ms(m), sc(s) {}
    std::unique_ptr<Mem> make() override { return std::make_unique<Sim>(ms, sc); }
    std::unique_ptr<Mem> copy(const Mem& m) override { return std::make_unique<Sim>(static_cast<const Sim&>(m)); }
    std::unique_ptr<Mem> move(Mem& m) override { return std::make_unique<Sim>(std::move(static_cast<Sim&>(m))); }
    void assign(Mem& a, const Mem& b) override { static_cast<Sim&>(a) = static_cast<const Sim&>(b); }
    void massign(Mem& a, Mem& b) override { static_cast<Sim&>(a) = std::move(static_cast<Sim&>(b)); }
    J spec() override { return specFields(ms); }
};

template <typename MS> J commonFields(const MS& m) {
    return J::object({{"nb", m.numberOfBanks}, {"nr", m.numberOfRanks}, {"rows", m.numberOfRows}, {"cols", m.numberOfColumns},
             {"nd", m.numberOfDevices}, {"bl", m.burstLength}, {"dr", m.dataRate}, {"bw", m.bitWidth},
             {"offRD", m.prechargeOffsetRD}, {"offWR", m.prechargeOffsetWR}, {"tRAS", m.memTimingSpec.tRAS},
             {"tRP", m.memTimingSpec.tRP}, {"tRFC", 0},
             {"tCK", m.memTimingSpec.tCK}, {"vddq", m.vddq}, {"rho", m.bwParams.bwPowerFactRho},
             {"id", m.memoryId}});
}
template <typename P> J pw(const P& p, std::initializer_list<std::pair<const char*, double P::*>> l) {
    J r = J::object();
    for (auto& e : l) r[e.first] = p.*(e.second);
    return r;
}
#define IMP(k) j["imp"][#k] = J::array({m.memImpedanceSpec.k##_termination ? 1 : 0, m.memImpedanceSpec.k##_R_eq, m.memImpedanceSpec.k##_dyn_E});
#define IMP_ALL IMP(ck) IMP(ca) IMP(rdq) IMP(wdq) IMP(rdqs)
template <> J specFields(const MemSpecDDR4& m) {
    J j = commonFields(m);
    IMP_ALL IMP(wdqs) IMP(rdbi) IMP(wdbi)
    j["tWL"] = m.memTimingSpec.tWL; j["tWR"] = m.memTimingSpec.tWR; j["tRTP"] = m.memTimingSpec.tRTP; j["tAL"] = m.memTimingSpec.tAL;
    auto& q = m.prePostamble;
    j["pp"] = J::array({q.read_zeroes, q.write_zeroes, q.read_ones, q.write_ones, q.read_zeroes_to_ones, q.write_zeroes_to_ones,
                        q.read_ones_to_zeroes, q.write_ones_to_zeroes, q.readMinTccd, q.writeMinTccd});
    j["tBurst"] = m.memTimingSpec.tBurst;
    j["nbg"] = m.numberOfBankGroups; j["tRFC"] = m.memTimingSpec.tRFC;
    j["tRCD"] = m.memTimingSpec.tRCD; j["refMode"] = m.refreshMode;
    using P = MemSpecDDR4::MemPowerSpec;
    for (auto& p : m.memPowerSpec)
        j["pw"].push_back(pw<P>(p, {{"v", &P::vXX}, {"i0", &P::iXX0}, {"i2n", &P::iXX2N}, {"i3n", &P::iXX3N}, {"i4r", &P::iXX4R},
            {"i4w", &P::iXX4W}, {"i5", &P::iXX5X}, {"i6", &P::iXX6N}, {"i2p", &P::iXX2P}, {"i3p", &P::iXX3P}, {"ibeta", &P::iBeta}}));
    return j;
}
template <> J specFields(const MemSpecDDR5& m) {
    J j = commonFields(m);
    IMP_ALL IMP(wdqs)
    j["tWL"] = m.memTimingSpec.tWL; j["tWR"] = m.memTimingSpec.tWR; j["tRTP"] = m.memTimingSpec.tRTP;
    j["rates"] = J::array({m.dataRateSpec.commandBusRate, m.dataRateSpec.dataBusRate, m.dataRateSpec.dqsBusRate});
    j["tBurst"] = m.memTimingSpec.tBurst;
    j["nbg"] = m.numberOfBankGroups; j["bpg"] = m.banksPerGroup; j["tRFC"] = m.memTimingSpec.tRFC;
    j["tRFCp"] = m.memTimingSpec.tRFCsb; j["tRCD"] = m.memTimingSpec.tRCD;
    using P = MemSpecDDR5::MemPowerSpec;
    for (auto& p : m.memPowerSpec)
        j["pw"].push_back(pw<P>(p, {{"v", &P::vXX}, {"i0", &P::iXX0}, {"i2n", &P::iXX2N}, {"i3n", &P::iXX3N}, {"i4r", &P::iXX4R},
            {"i4w", &P::iXX4W}, {"i5", &P::iXX5X}, {"i5p", &P::iXX5C}, {"i6", &P::iXX6N}, {"i2p", &P::iXX2P}, {"i3p", &P::iXX3P}, {"ibeta", &P::iBeta}}));
    return j;
}
template <> J specFields(const MemSpecLPDDR4& m) {
    J j = commonFields(m);
    IMP_ALL IMP(wdqs) IMP(rdbi) IMP(wdbi)
    j["nbg"] = m.numberOfBankGroups; j["bpg"] = m.banksPerGroup;
    j["tWL"] = m.memTimingSpec.tWL; j["tWR"] = m.memTimingSpec.tWR; j["tRTP"] = m.memTimingSpec.tRTP;
    j["pasr"] = J::array({m.bwParams.bwPowerFactSigma, m.bwParams.flgPASR ? 1 : 0, m.bwParams.pasrMode, J::array()});
    for (unsigned i = 0; i < m.numberOfBanks; i++) if (m.bwParams.isBankActiveInPasr(i)) j["pasr"][3].push_back(i);
    j["tRFC"] = m.memTimingSpec.tRFC; j["tRFCp"] = m.memTimingSpec.tRFCPB; j["tRCD"] = m.memTimingSpec.tRCD;
    j["tREFI"] = m.memTimingSpec.tREFI;
    using P = MemSpecLPDDR4::MemPowerSpec;
    for (auto& p : m.memPowerSpec)
        j["pw"].push_back(pw<P>(p, {{"v", &P::vDDX}, {"i0", &P::iDD0X}, {"i2n", &P::iDD2NX}, {"i3n", &P::iDD3NX}, {"i4r", &P::iDD4RX},
            {"i4w", &P::iDD4WX}, {"i5", &P::iDD5X}, {"i5p", &P::iDD5PBX}, {"i6", &P::iDD6X}, {"i2p", &P::iDD2PX}, {"i3p", &P::iDD3PX}, {"ibeta", &P::iBeta}}));
    return j;
}
template <> J specFields(const MemSpecLPDDR5& m) {
    J j = commonFields(m);
    IMP_ALL IMP(wck) IMP(rdbi) IMP(wdbi)
    j["tWL"] = m.memTimingSpec.tWL; j["tWR"] = m.memTimingSpec.tWR; j["tRTP"] = m.memTimingSpec.tRBTP;
    j["tBurst"] = m.memTimingSpec.tBurst;
    j["nbg"] = m.numberOfBankGroups; j["bpg"] = m.banksPerGroup;
    j["tRFC"] = m.memTimingSpec.tRFC; j["tRFCp"] = m.memTimingSpec.tRFCPB; j["tRCD"] = m.memTimingSpec.tRCD;
    j["tREFI"] = m.memTimingSpec.tREFI; j["tWCK"] = m.memTimingSpec.tWCK; j["wck2ck"] = m.memTimingSpec.WCKtoCK;
    j["arch"] = m.bank_arch == MemSpecLPDDR5::MBG ? "BG" : m.bank_arch == MemSpecLPDDR5::M16B ? "16B" : "8B";
    j["wckon"] = m.wckAlwaysOnMode ? 1 : 0;
    using P = MemSpecLPDDR5::MemPowerSpec;
    for (auto& p : m.memPowerSpec)
        j["pw"].push_back(pw<P>(p, {{"v", &P::vDDX}, {"i0", &P::iDD0X}, {"i2n", &P::iDD2NX}, {"i3n", &P::iDD3NX}, {"i4r", &P::iDD4RX},
            {"i4w", &P::iDD4WX}, {"i5", &P::iDD5X}, {"i5p", &P::iDD5PBX}, {"i6", &P::iDD6X}, {"i6ds", &P::iDD6DSX}, {"i2p", &P::iDD2PX}, {"i3p", &P::iDD3PX}, {"ibeta", &P::iBeta}}));
    return j;
}
template <> J specFields(const MemSpecLPDDR6& m) {
    J j = commonFields(m);
    IMP_ALL IMP(wck)
    j["tWL"] = m.memTimingSpec.tWL; j["tWR"] = m.memTimingSpec.tWR; j["tRTP"] = m.memTimingSpec.tRBTP;
    j["tBurst"] = m.memTimingSpec.tBurst;
    j["nbg"] = m.numberOfBankGroups; j["bpg"] = m.banksPerGroup;
    j["tRFC"] = m.memTimingSpec.tRFCAB; j["tRFCp"] = m.memTimingSpec.tRFCDB;
    j["tRCD"] = std::max(m.memTimingSpec.tRCDR, m.memTimingSpec.tRCDW);
    j["tREFI"] = m.memTimingSpec.tREFI; j["tWCK"] = m.memTimingSpec.tWCK; j["wck2ck"] = m.memTimingSpec.WCKtoCK;
    j["wckon"] = m.wckAlwaysOnMode ? 1 : 0;
    using P = MemSpecLPDDR6::MemPowerSpec;
    for (auto& p : m.memPowerSpec)
        j["pw"].push_back(pw<P>(p, {{"v", &P::vDDX}, {"i0", &P::iDD0X}, {"i2n", &P::iDD2NX}, {"i3n", &P::iDD3NX}, {"i4r", &P::iDD4RX},
            {"i4w", &P::iDD4WX}, {"i5", &P::iDD5X}, {"i5p", &P::iDD5PDBX}, {"i6", &P::iDD6X}, {"i6ds", &P::iDD6DSX}, {"i2p", &P::iDD2PX}, {"i3p", &P::iDD3PX}, {"ibeta", &P::iBeta}}));
    return j;
}

static std::unique_ptr<Factory> makeFactory(const J& h) {
    std::string std_ = h.at("std");
    auto it = g_templ.find(std_);
    if (it == g_templ.end()) {
        std::string n; for (char c : std_) n += (char)tolower(c);
        std::ifstream f(g_data + "/" + n + ".json");
        it = g_templ.emplace(std_, J::parse(f)).first;
    }
    J ms = it->second;
    if (h.contains("ms"))
        for (auto& sec : h.at("ms").items()) {
            J& s = ms["memspec"][sec.key()];
            if (sec.value().is_null()) { ms["memspec"].erase(sec.key()); continue; }
            for (auto& f : sec.value().items()) {
                if (f.value().is_null()) s.erase(f.key());
                else s[f.key()] = f.value();
            }
        }
    if (h.contains("ktime")) {
        uint64_t K = h.value("K", (uint64_t)1);
        for (auto& f : h.at("ktime")) {
            J& v = ms["memspec"]["memtimingspec"][f.get<std::string>()];
            v = v.get<uint64_t>() * K;
        }
    }
    config::SimConfig sc;
    if (h.contains("sim") && !h.at("sim").is_null()) sc = h.at("sim").get<config::SimConfig>();
    auto v = DRAMUtils::parse_memspec_from_json(ms);
    if (!v) throw std::runtime_error("memspec not parsed");
    auto& var = v->getVariant();
    if (std_ == "DDR4") return std::make_unique<FactoryT<DDR4, MemSpecDDR4>>(MemSpecDDR4(std::get<DRAMUtils::MemSpec::MemSpecDDR4>(var)), sc);
    if (std_ == "DDR5") return std::make_unique<FactoryT<DDR5, MemSpecDDR5>>(MemSpecDDR5(std::get<DRAMUtils::MemSpec::MemSpecDDR5>(var)), sc);
    if (std_ == "LPDDR4") return std::make_unique<FactoryT<LPDDR4, MemSpecLPDDR4>>(MemSpecLPDDR4(std::get<DRAMUtils::MemSpec::MemSpecLPDDR4>(var)), sc);
    if (std_ == "LPDDR5") return std::make_unique<FactoryT<LPDDR5, MemSpecLPDDR5>>(MemSpecLPDDR5(std::get<DRAMUtils::MemSpec::MemSpecLPDDR5>(var)), sc);
    if (std_ == "LPDDR6") return std::make_unique<FactoryT<LPDDR6, MemSpecLPDDR6>>(MemSpecLPDDR6(std::get<DRAMUtils::MemSpec::MemSpecLPDDR6>(var)), sc);
    throw std::runtime_error("std");
}

// ------------------------------------------------------------------ projections
static J bus(const util::bus_stats_t& b) { return J::array({b.ones, b.zeroes, b.bit_changes, b.ones_to_zeroes, b.zeroes_to_ones}); }
static J cnt(const command_stats_t& c) {
    return J::array({c.act, c.pre, c.reads, c.writes, c.refAllBank, c.refPerBank, c.refPerTwoBanks, c.refDualBanks, c.refSameBank, c.readAuto, c.writeAuto});
}
static J cyc(const cycles_t& c, const Ctx& x) {
    return J::array({x.d(c.act), x.d0(c.pre), x.d(c.powerDownAct), x.d(c.powerDownPre), x.d(c.selfRefresh), x.d(c.deepSleepMode)});
}
static J prepos(const prepos_t& p) { return J::array({p.readMerged, p.readMergedTime, p.writeMerged, p.writeMergedTime, p.readSeamless, p.writeSeamless}); }

static J project(const SimulationStats& s, const std::vector<std::string>& want, const Ctx& x) {
    J r = J::array();
    for (auto& w : want) {
        J v = J::array();
        if (w == "cnt") for (auto& b : s.bank) v.push_back(cnt(b.counter));
        else if (w == "cyc") for (auto& b : s.bank) v.push_back(cyc(b.cycles, x));
        else if (w == "rcyc") for (auto& b : s.rank_total) v.push_back(cyc(b.cycles, x));
        else if (w == "prepos") for (auto& b : s.rank_total) v.push_back(prepos(b.prepos));
        else if (w == "cmd") v = bus(s.commandBus);
        else if (w == "rd") v = bus(s.readBus);
        else if (w == "wr") v = bus(s.writeBus);
        else if (w == "ck") v = bus(s.clockStats);
        else if (w == "wck") v = bus(s.wClockStats);
        else if (w == "rdbi") v = bus(s.readDBI);
        else if (w == "wdbi") v = bus(s.writeDBI);
        else if (w == "rtog") v = bus(s.togglingStats.read);
        else if (w == "wtog") v = bus(s.togglingStats.write);
        else if (w == "rdqs") v = bus(s.readDQSStats);
        else if (w == "wdqs") v = bus(s.writeDQSStats);
        else if (w == "json") v = J(s);
        else v = "unknown projection";
        r.push_back(v);
    }
    return r;
}
static J ebank(const energy_info_t& e) {
    return J::array({e.E_act, e.E_pre, e.E_bg_act, e.E_bg_pre, e.E_RD, e.E_WR, e.E_RDA, e.E_WRA, e.E_pre_RDA, e.E_pre_WRA,
                     e.E_ref_AB, e.E_ref_PB, e.E_ref_SB, e.E_ref_2B, e.E_ref_DB, e.total()});
}
static J ecore(const energy_t& e) {
    J b = J::array();
    for (auto& i : e.bank_energy) b.push_back(ebank(i));
    return J{{"b", b}, {"s", J::array({e.E_bg_act_shared, e.E_PDNA, e.E_PDNP, e.E_sref, e.E_dsm, e.E_refab})},
             {"agg", ebank(e.aggregated_bank_energy())}, {"tot", e.total()}};
}
static J eif(const interface_energy_info_t& e) {
    return J::array({e.controller.dynamicEnergy, e.controller.staticEnergy, e.dram.dynamicEnergy, e.dram.staticEnergy, e.total()});
}

static CmdType cmdOf(const std::string& n) {
    static const std::map<std::string, CmdType> m = {
        {"NOP", CmdType::NOP}, {"RD", CmdType::RD}, {"WR", CmdType::WR}, {"RDA", CmdType::RDA}, {"WRA", CmdType::WRA},
        {"ACT", CmdType::ACT}, {"PRE", CmdType::PRE}, {"REFB", CmdType::REFB}, {"REFP2B", CmdType::REFP2B}, {"REFDB", CmdType::REFDB},
        {"PRESB", CmdType::PRESB}, {"REFSB", CmdType::REFSB}, {"PREA", CmdType::PREA}, {"REFA", CmdType::REFA}, {"PDEA", CmdType::PDEA},
        {"PDEP", CmdType::PDEP}, {"PDXA", CmdType::PDXA}, {"PDXP", CmdType::PDXP}, {"SREFEN", CmdType::SREFEN}, {"SREFEX", CmdType::SREFEX},
        {"DSMEN", CmdType::DSMEN}, {"DSMEX", CmdType::DSMEX}, {"END", CmdType::END_OF_SIMULATION}};
    return m.at(n);
}

template <typename Stats> static Stats statsFrom(const J& j) {   // arbitrary statistics record
    Stats s;
    auto B = [](const J& a) { util::bus_stats_t b; b.ones = a[0]; b.zeroes = a[1]; b.bit_changes = a[2]; b.ones_to_zeroes = a[3]; b.zeroes_to_ones = a[4]; return b; };
    auto C = [](const J& a) { command_stats_t c; c.act = a[0]; c.pre = a[1]; c.reads = a[2]; c.writes = a[3]; c.refAllBank = a[4]; c.refPerBank = a[5];
        c.refPerTwoBanks = a[6]; c.refDualBanks = a[7]; c.refSameBank = a[8]; c.readAuto = a[9]; c.writeAuto = a[10]; return c; };
    auto Y = [](const J& a) { cycles_t c; c.act = a[0]; c.pre = a[1]; c.powerDownAct = a[2]; c.powerDownPre = a[3]; c.selfRefresh = a[4]; c.deepSleepMode = a[5]; return c; };
    auto P = [](const J& a) { prepos_t p; p.readMerged = a[0]; p.readMergedTime = a[1]; p.writeMerged = a[2]; p.writeMergedTime = a[3]; p.readSeamless = a[4]; p.writeSeamless = a[5]; return p; };
    if (j.contains("cnt")) { s.bank.resize(j["cnt"].size()); for (size_t i = 0; i < s.bank.size(); i++) s.bank[i].counter = C(j["cnt"][i]); }
    if (j.contains("cyc")) { s.bank.resize(j["cyc"].size()); for (size_t i = 0; i < s.bank.size(); i++) s.bank[i].cycles = Y(j["cyc"][i]); }
    if (j.contains("bprepos")) { s.bank.resize(j["bprepos"].size()); for (size_t i = 0; i < s.bank.size(); i++) s.bank[i].prepos = P(j["bprepos"][i]); }
    if (j.contains("rcyc")) { s.rank_total.resize(j["rcyc"].size()); for (size_t i = 0; i < s.rank_total.size(); i++) s.rank_total[i].cycles = Y(j["rcyc"][i]); }
    if (j.contains("rcnt")) { s.rank_total.resize(j["rcnt"].size()); for (size_t i = 0; i < s.rank_total.size(); i++) s.rank_total[i].counter = C(j["rcnt"][i]); }
    if (j.contains("prepos")) { s.rank_total.resize(j["prepos"].size()); for (size_t i = 0; i < s.rank_total.size(); i++) s.rank_total[i].prepos = P(j["prepos"][i]); }
    auto set = [&](const char* k, util::bus_stats_t& b) { if (j.contains(k)) b = B(j[k]); };
    set("cmd", s.commandBus); set("rd", s.readBus); set("wr", s.writeBus); set("ck", s.clockStats); set("wck", s.wClockStats);
    set("rdbi", s.readDBI); set("wdbi", s.writeDBI); set("rtog", s.togglingStats.read); set("wtog", s.togglingStats.write);
    set("rdqs", s.readDQSStats); set("wdqs", s.writeDQSStats);
    return s;
}

// ------------------------------------------------------------------ replay
static J replay(const J& h) {
    Ctx x; x.K = h.value("K", (uint64_t)1); x.T0 = h.value("T0", (uint64_t)0);
    std::vector<std::string> want = h.value("want", std::vector<std::string>{});
    auto f = makeFactory(h);
    std::vector<std::unique_ptr<Mem>> objs;
    objs.push_back(f->make());
    size_t cur = 0;
    std::deque<std::vector<uint8_t>> datas;
    J out = J::array();
    auto command = [&](const J& op) {
        // kind, type, t, rank, bankgroup, bank, row, column, data
        TargetCoordinate tc{op[5].get<size_t>(), op[4].get<size_t>(), op[3].get<size_t>(),
                            op.size() > 6 ? op[6].get<size_t>() : 0, op.size() > 7 ? op[7].get<size_t>() : 0};
        const uint8_t* p = nullptr; size_t n = 0;
        if (op.size() > 8 && op[8].is_array() && !op[8].empty() && op[8][0].is_string()) {   // "B", bytes
            std::vector<uint8_t> d;
            for (size_t i = 1; i < op[8].size(); i++) d.push_back(op[8][i].get<uint8_t>());
            n = 8 * d.size();
            d.push_back(0xA5);
            datas.push_back(std::move(d));
            p = datas.back().data();
        } else if (op.size() > 8 && op[8].is_array()) {   // bits, first is bit 0 of the first byte
            n = op[8].size();
            std::vector<uint8_t> d((n + 7) / 8 + 1, 0);
            for (size_t i = 0; i < n; i++) if (op[8][i].get<int>()) d[i / 8] |= (uint8_t)(1u << (i % 8));
            datas.push_back(std::move(d));
            p = datas.back().data();
        } else if (op.size() > 8 && op[8].is_number()) n = op[8];   // length without data
        return Command{x.t(op[2]), cmdOf(op[1]), tc, p, n};
    };
    // a simulation that has been through half of what came before, with nothing left pending, and whose settings differ
    unsigned restores = 0;
    auto used = [&](const J* end) {
        auto n = f->make();
        const J* begin = &h.at("ops").front();
        const J* half = begin + (end - begin) / 2;
        uint64_t last = 0;
        for (const J* op = begin; op < half; op++) {
            const std::string& o = (*op)[0].get_ref<const std::string&>();
            try {
                if (o == "c" || o == "cc" || o == "ci") {
                    Command c = command(*op);
                    last = (*op)[2].get<uint64_t>();
                    if (o == "c") n->doCommand(c); else if (o == "cc") n->doCoreCommand(c); else n->doInterfaceCommand(c);
                    datas.clear();
                } else if (o == "new" || o == "copyc" || o == "movec" || o == "serto" || o == "loop") return f->make();
            } catch (const std::exception&) { datas.clear(); }
        }
        try { n->getWindowStats(x.t(last + 1000000)); } catch (const std::exception&) { return f->make(); }
        if (!n->isSerializable()) return f->make();
        bool on = true;
        objs[cur]->getExtensionManager().withExtension<extensions::DBI>([&](extensions::DBI& d) { on = !d.isEnabled(); });
        n->getExtensionManager().withExtension<extensions::DBI>([&](extensions::DBI& d) { d.enable(x.t(last + 1000000), on); });
        n->getExtensionManager().withExtension<extensions::MetaData>([&](extensions::MetaData& d) { d.setMetaData(0xA5C3, 0x3C5A); });
        return n;
    };
    unsigned both = 0;                                    // the older name of doCommand now and then
    for (auto& op : h.at("ops")) {
        const std::string& o = op[0].get_ref<const std::string&>();
        J r = nullptr;
        try {
            Mem& m = *objs[cur];
            if (o == "c" || o == "cc" || o == "ci") {
                Command c = command(op);
                if (o == "c" && both++ % 4 == 1) m.doCoreInterfaceCommand(c); else if (o == "c") m.doCommand(c); else if (o == "cc") m.doCoreCommand(c); else m.doInterfaceCommand(c);
                if (!datas.empty() && c.data) {                        // the caller may reuse its buffer
                    for (auto& b : datas.back()) b = (uint8_t)~b;
                    datas.clear();
                }
            }
            else if (o == "cx") {                                 // a command that may be refused; how, then as above
                const std::string& how = op[1].get_ref<const std::string&>();
                Command c = command(J(op.begin() + 1, op.end()));
                try {
                    if (how == "c") m.doCommand(c); else if (how == "cc") m.doCoreCommand(c); else m.doInterfaceCommand(c);
                    r = "taken";
                } catch (const std::exception&) { r = "refused"; }
            }
            else if (o == "loop") {                               // the commands again and again, a period apart
                std::vector<std::pair<char, Command>> cs;
                for (auto& i : op[3]) cs.emplace_back(i[0] == "c" ? 'b' : i[0] == "cc" ? 'c' : 'i', command(i));
                for (uint64_t k = 0, n = op[1]; k < n; k++)
                    for (auto& [w, c] : cs) {
                        if (w == 'b') m.doCommand(c); else if (w == 'c') m.doCoreCommand(c); else m.doInterfaceCommand(c);
                        c.timestamp += op[2].get<uint64_t>();
                    }
                datas.clear();
            }
            else if (o == "q") r = project(m.getWindowStats(x.t(op[1])), want, x);
            else if (o == "qw") r = project(m.getWindowStats(x.t(op[1])), op[2].get<std::vector<std::string>>(), x);
            else if (o == "g") r = project(m.getStats(), want, x);
            else if (o == "last") r = x.d0(m.getLastCommandTime());
            else if (o == "e") r = J{{"c", ecore(m.calcCoreEnergy(x.t(op[1])))}, {"i", eif(m.calcInterfaceEnergy(x.t(op[1])))}};
            else if (o == "ew") {                                 // the same from the statistics, and from the statistics' copy
                uint64_t t = x.t(op[1]);
                const SimulationStats s = m.getWindowStats(t);
                r = J::array({J{{"c", ecore(m.calcCoreEnergy(t))}, {"i", eif(m.calcInterfaceEnergy(t))}, {"t", m.getTotalEnergy(t)}},
                              J{{"c", ecore(m.calcCoreEnergyStats(s))}, {"i", eif(m.calcInterfaceEnergyStats(s))},
                                {"t", m.calcCoreEnergyStats(s).total() + m.calcInterfaceEnergyStats(s).total()}}});
            }
            else if (o == "el") {                                 // what is known at the last command
                uint64_t t = m.getLastCommandTime();
                J a, b;
                energy_t c = m.calcCoreEnergy(t); auto i = m.calcInterfaceEnergy(t);
                c.to_json(a); i.to_json(b);
                auto l = m.getCLIArchitectureConfig();
                r = J{{"c", ecore(c)}, {"i", eif(i)}, {"cj", a}, {"ij", b}, {"arch", {l.rankCount, l.deviceCount, l.bankCount}}};
            }
            else if (o == "tot") r = m.getTotalEnergy(x.t(op[1]));
            else if (o == "ecs") r = ecore(m.calcCoreEnergyStats(statsFrom<SimulationStats>(op[1])));
            else if (o == "eis") r = eif(m.calcInterfaceEnergyStats(statsFrom<SimulationStats>(op[1])));
            else if (o == "ecj") { J j; energy_t e = m.calcCoreEnergyStats(statsFrom<SimulationStats>(op[1])); e.to_json(j); r = J{{"j", j}, {"e", ecore(e)}}; }
            else if (o == "eij") { J j; auto e = m.calcInterfaceEnergyStats(statsFrom<SimulationStats>(op[1])); e.to_json(j); r = J{{"j", j}, {"e", eif(e)}}; }
            else if (o == "dbi") {
                bool res = false, has = false;
                m.getExtensionManager().withExtension<extensions::DBI>([&](extensions::DBI& d) { has = true; res = d.enable(x.t(op[1]), op[2].get<int>() != 0); });
                r = has ? J(res ? 1 : 0) : J("none");
            }
            else if (o == "isdbi") {
                bool has = false, res = false;
                m.getExtensionManager().withExtension<extensions::DBI>([&](extensions::DBI& d) { has = true; res = d.isEnabled(); });
                r = has ? J(res ? 1 : 0) : J("none");
            }
            else if (o == "meta") m.getExtensionManager().withExtension<extensions::MetaData>([&](extensions::MetaData& d) {
                d.setMetaData((uint16_t)op[1].get<unsigned>(), (uint16_t)op[2].get<unsigned>()); });
            else if (o == "getmeta") {
                r = "none";
                m.getExtensionManager().withExtension<extensions::MetaData>([&](extensions::MetaData& d) {
                    auto t = d.getMetaData(); r = J::array({std::get<0>(t), std::get<1>(t)}); });
            }
            else if (o == "par" || o == "ion" || o == "ioff" || o == "ifstate") {   // the interface of an LPDDR6 memory
                auto* l = dynamic_cast<LPDDR6*>(&m);
                if (!l) r = "none";
                else {
                    auto& f = l->getInterface();
                    if (o == "par") f.setParityCheckMode(op[1].get<int>() != 0);
                    else if (o == "ion") f.enable(x.t(op[1]));
                    else if (o == "ioff") f.disable(x.t(op[1]));
                    else r = J::array({f.isEnabled() ? 1 : 0, f.getParityCheckMode() ? 1 : 0});
                }
            }
            else if (o == "has") r = J::array({m.getExtensionManager().hasExtension<extensions::DBI>() ? 1 : 0, m.getExtensionManager().hasExtension<extensions::MetaData>() ? 1 : 0});
            else if (o == "isser") r = m.isSerializable() ? 1 : 0;
            else if (o == "ser") {                                // restore into a fresh or into a used object, if possible
                if (!m.isSerializable()) r = 0;
                else {
                    std::stringstream ss; m.serialize(ss);
                    auto n = restores++ % 2 ? used(&op) : f->make();
                    n->deserialize(ss);
                    bool ok = (bool)ss; ss.peek();
                    objs[cur] = std::move(n);
                    r = ok && ss.eof() ? J(1) : J("stream not consumed exactly");
                }
            }
            else if (o == "serto") {                              // keep both
                std::stringstream ss; m.serialize(ss);
                auto n = f->make(); n->deserialize(ss);
                objs.push_back(std::move(n));
            }
            else if (o == "new") objs.push_back(f->make());
            else if (o == "copyc") objs.push_back(f->copy(*objs[op[1].get<size_t>()]));
            else if (o == "movec") objs.push_back(f->move(*objs[op[1].get<size_t>()]));
            else if (o == "copya") f->assign(*objs[op[1].get<size_t>()], *objs[op[2].get<size_t>()]);
            else if (o == "movea") f->massign(*objs[op[1].get<size_t>()], *objs[op[2].get<size_t>()]);
            else if (o == "del") objs[op[1].get<size_t>()].reset();
            else if (o == "use") cur = op[1];
            else if (o == "spec") r = f->spec();
            else if (o == "arch") { auto c = m.getCLIArchitectureConfig(); r = J::array({c.deviceCount, c.rankCount, c.bankCount}); }
            else r = "unknown op";
        } catch (const std::exception& e) { r = J{{"exc", e.what()}}; }
        out.push_back(std::move(r));
    }
    return out;
}

int main(int argc, char** argv) {
    g_data = argc > 1 ? argv[1] : "data";
    std::cout.sync_with_stdio(false);
    std::ostringstream sink;                       // the library warns on stdout
    auto* real = std::cout.rdbuf(sink.rdbuf());
    std::ostream os(real);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J h = J::parse(line);
        J r = {{"id", h["id"]}};
        try { r["out"] = replay(h); } catch (const std::exception& e) { r["err"] = e.what(); }
        os << r.dump() << "\n";
        sink.str("");
    }
    os.flush();
    std::cout.rdbuf(real);
}
