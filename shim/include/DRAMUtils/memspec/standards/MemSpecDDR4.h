#ifndef DRAMUTILS_MEMSPEC_STANDARDS_DDR4_H
#define DRAMUTILS_MEMSPEC_STANDARDS_DDR4_H
#include "DRAMUtils/util/json_utils.h"
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR4 { REF_MODE_1 = 1, REF_MODE_2 = 2, REF_MODE_4 = 4, INVALID = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR4, { {RefModeTypeDDR4::INVALID, nullptr}, {RefModeTypeDDR4::REF_MODE_1, 1}, {RefModeTypeDDR4::REF_MODE_2, 2}, {RefModeTypeDDR4::REF_MODE_4, 4} })
struct MemArchitectureSpecTypeDDR4 {
    uint64_t nbrOfChannels{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfRows{};
    uint64_t width{};
    uint64_t burstLength{};
    uint64_t maxBurstLength{};
    uint64_t dataRate{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRanks{};
    uint64_t nbrOfDevices{};
    RefModeTypeDDR4 RefMode{};
};
inline void to_json(json_t& nlohmann_json_j, const MemArchitectureSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(nbrOfChannels)
    SHIM_EXT_TO(nbrOfColumns)
    SHIM_EXT_TO(nbrOfRows)
    SHIM_EXT_TO(width)
    SHIM_EXT_TO(burstLength)
    SHIM_EXT_TO(maxBurstLength)
    SHIM_EXT_TO(dataRate)
    SHIM_EXT_TO(nbrOfBankGroups)
    SHIM_EXT_TO(nbrOfBanks)
    SHIM_EXT_TO(nbrOfRanks)
    SHIM_EXT_TO(nbrOfDevices)
    SHIM_EXT_TO(RefMode)
}
inline void from_json(const json_t& nlohmann_json_j, MemArchitectureSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(nbrOfChannels)
    SHIM_EXT_FROM(nbrOfColumns)
    SHIM_EXT_FROM(nbrOfRows)
    SHIM_EXT_FROM(width)
    SHIM_EXT_FROM(burstLength)
    SHIM_EXT_FROM(maxBurstLength)
    SHIM_EXT_FROM(dataRate)
    SHIM_EXT_FROM(nbrOfBankGroups)
    SHIM_EXT_FROM(nbrOfBanks)
    SHIM_EXT_FROM(nbrOfRanks)
    SHIM_EXT_FROM(nbrOfDevices)
    SHIM_EXT_FROM(RefMode)
}
struct MemPowerSpecTypeDDR4 {
    double vdd{};
    double idd0{};
    double idd2n{};
    double idd3n{};
    double idd4r{};
    double idd4w{};
    double idd6n{};
    double idd2p{};
    double idd3p{};
    double idd5B{};
    double idd5F2{};
    double idd5F4{};
    double vpp{};
    double ipp0{};
    double ipp2n{};
    double ipp3n{};
    double ipp4r{};
    double ipp4w{};
    double ipp6n{};
    double ipp2p{};
    double ipp3p{};
    double ipp5B{};
    double ipp5F2{};
    double ipp5F4{};
    double vddq{};
    std::optional<double> iBeta_vdd{};
    std::optional<double> iBeta_vpp{};
};
inline void to_json(json_t& nlohmann_json_j, const MemPowerSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(vdd)
    SHIM_EXT_TO(idd0)
    SHIM_EXT_TO(idd2n)
    SHIM_EXT_TO(idd3n)
    SHIM_EXT_TO(idd4r)
    SHIM_EXT_TO(idd4w)
    SHIM_EXT_TO(idd6n)
    SHIM_EXT_TO(idd2p)
    SHIM_EXT_TO(idd3p)
    SHIM_EXT_TO(idd5B)
    SHIM_EXT_TO(idd5F2)
    SHIM_EXT_TO(idd5F4)
    SHIM_EXT_TO(vpp)
    SHIM_EXT_TO(ipp0)
    SHIM_EXT_TO(ipp2n)
    SHIM_EXT_TO(ipp3n)
    SHIM_EXT_TO(ipp4r)
    SHIM_EXT_TO(ipp4w)
    SHIM_EXT_TO(ipp6n)
    SHIM_EXT_TO(ipp2p)
    SHIM_EXT_TO(ipp3p)
    SHIM_EXT_TO(ipp5B)
    SHIM_EXT_TO(ipp5F2)
    SHIM_EXT_TO(ipp5F4)
    SHIM_EXT_TO(vddq)
    SHIM_EXT_TO(iBeta_vdd)
    SHIM_EXT_TO(iBeta_vpp)
}
inline void from_json(const json_t& nlohmann_json_j, MemPowerSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(vdd)
    SHIM_EXT_FROM(idd0)
    SHIM_EXT_FROM(idd2n)
    SHIM_EXT_FROM(idd3n)
    SHIM_EXT_FROM(idd4r)
    SHIM_EXT_FROM(idd4w)
    SHIM_EXT_FROM(idd6n)
    SHIM_EXT_FROM(idd2p)
    SHIM_EXT_FROM(idd3p)
    SHIM_EXT_FROM(idd5B)
    SHIM_EXT_FROM(idd5F2)
    SHIM_EXT_FROM(idd5F4)
    SHIM_EXT_FROM(vpp)
    SHIM_EXT_FROM(ipp0)
    SHIM_EXT_FROM(ipp2n)
    SHIM_EXT_FROM(ipp3n)
    SHIM_EXT_FROM(ipp4r)
    SHIM_EXT_FROM(ipp4w)
    SHIM_EXT_FROM(ipp6n)
    SHIM_EXT_FROM(ipp2p)
    SHIM_EXT_FROM(ipp3p)
    SHIM_EXT_FROM(ipp5B)
    SHIM_EXT_FROM(ipp5F2)
    SHIM_EXT_FROM(ipp5F4)
    SHIM_EXT_FROM(vddq)
    SHIM_EXT_FROM(iBeta_vdd)
    SHIM_EXT_FROM(iBeta_vpp)
}
struct MemTimingSpecTypeDDR4 {
    double tCK{};
    uint64_t CKE{};
    uint64_t CKESR{};
    uint64_t RAS{};
    uint64_t RC{};
    uint64_t RCD{};
    uint64_t RL{};
    uint64_t RPRE{};
    uint64_t RTP{};
    uint64_t WL{};
    uint64_t WPRE{};
    uint64_t WR{};
    uint64_t XP{};
    uint64_t XS{};
    uint64_t REFM{};
    uint64_t REFI{};
    uint64_t RFC1{};
    uint64_t RFC2{};
    uint64_t RFC4{};
    uint64_t RP{};
    uint64_t DQSCK{};
    uint64_t CCD_S{};
    uint64_t CCD_L{};
    uint64_t FAW{};
    uint64_t RRD_S{};
    uint64_t RRD_L{};
    uint64_t WTR_S{};
    uint64_t WTR_L{};
    uint64_t XPDLL{};
    uint64_t XSDLL{};
    uint64_t AL{};
    uint64_t ACTPDEN{};
    uint64_t PRPDEN{};
    uint64_t REFPDEN{};
    uint64_t RTRS{};
};
inline void to_json(json_t& nlohmann_json_j, const MemTimingSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(tCK)
    SHIM_EXT_TO(CKE)
    SHIM_EXT_TO(CKESR)
    SHIM_EXT_TO(RAS)
    SHIM_EXT_TO(RC)
    SHIM_EXT_TO(RCD)
    SHIM_EXT_TO(RL)
    SHIM_EXT_TO(RPRE)
    SHIM_EXT_TO(RTP)
    SHIM_EXT_TO(WL)
    SHIM_EXT_TO(WPRE)
    SHIM_EXT_TO(WR)
    SHIM_EXT_TO(XP)
    SHIM_EXT_TO(XS)
    SHIM_EXT_TO(REFM)
    SHIM_EXT_TO(REFI)
    SHIM_EXT_TO(RFC1)
    SHIM_EXT_TO(RFC2)
    SHIM_EXT_TO(RFC4)
    SHIM_EXT_TO(RP)
    SHIM_EXT_TO(DQSCK)
    SHIM_EXT_TO(CCD_S)
    SHIM_EXT_TO(CCD_L)
    SHIM_EXT_TO(FAW)
    SHIM_EXT_TO(RRD_S)
    SHIM_EXT_TO(RRD_L)
    SHIM_EXT_TO(WTR_S)
    SHIM_EXT_TO(WTR_L)
    SHIM_EXT_TO(XPDLL)
    SHIM_EXT_TO(XSDLL)
    SHIM_EXT_TO(AL)
    SHIM_EXT_TO(ACTPDEN)
    SHIM_EXT_TO(PRPDEN)
    SHIM_EXT_TO(REFPDEN)
    SHIM_EXT_TO(RTRS)
}
inline void from_json(const json_t& nlohmann_json_j, MemTimingSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(tCK)
    SHIM_EXT_FROM(CKE)
    SHIM_EXT_FROM(CKESR)
    SHIM_EXT_FROM(RAS)
    SHIM_EXT_FROM(RC)
    SHIM_EXT_FROM(RCD)
    SHIM_EXT_FROM(RL)
    SHIM_EXT_FROM(RPRE)
    SHIM_EXT_FROM(RTP)
    SHIM_EXT_FROM(WL)
    SHIM_EXT_FROM(WPRE)
    SHIM_EXT_FROM(WR)
    SHIM_EXT_FROM(XP)
    SHIM_EXT_FROM(XS)
    SHIM_EXT_FROM(REFM)
    SHIM_EXT_FROM(REFI)
    SHIM_EXT_FROM(RFC1)
    SHIM_EXT_FROM(RFC2)
    SHIM_EXT_FROM(RFC4)
    SHIM_EXT_FROM(RP)
    SHIM_EXT_FROM(DQSCK)
    SHIM_EXT_FROM(CCD_S)
    SHIM_EXT_FROM(CCD_L)
    SHIM_EXT_FROM(FAW)
    SHIM_EXT_FROM(RRD_S)
    SHIM_EXT_FROM(RRD_L)
    SHIM_EXT_FROM(WTR_S)
    SHIM_EXT_FROM(WTR_L)
    SHIM_EXT_FROM(XPDLL)
    SHIM_EXT_FROM(XSDLL)
    SHIM_EXT_FROM(AL)
    SHIM_EXT_FROM(ACTPDEN)
    SHIM_EXT_FROM(PRPDEN)
    SHIM_EXT_FROM(REFPDEN)
    SHIM_EXT_FROM(RTRS)
}
struct BankWiseSpecTypeDDR4 {
    std::optional<double> factRho{};
};
inline void to_json(json_t& nlohmann_json_j, const BankWiseSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(factRho)
}
inline void from_json(const json_t& nlohmann_json_j, BankWiseSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(factRho)
}
struct MemImpedanceSpecTypeDDR4 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wdqs_termination{};
    double wdqs_R_eq{};
    double wdqs_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
    bool wdbi_termination{};
    double wdbi_R_eq{};
    double wdbi_dyn_E{};
    bool rdbi_termination{};
    double rdbi_R_eq{};
    double rdbi_dyn_E{};
};
inline void to_json(json_t& nlohmann_json_j, const MemImpedanceSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(ck_termination)
    SHIM_EXT_TO(ck_R_eq)
    SHIM_EXT_TO(ck_dyn_E)
    SHIM_EXT_TO(ca_termination)
    SHIM_EXT_TO(ca_R_eq)
    SHIM_EXT_TO(ca_dyn_E)
    SHIM_EXT_TO(rdq_termination)
    SHIM_EXT_TO(rdq_R_eq)
    SHIM_EXT_TO(rdq_dyn_E)
    SHIM_EXT_TO(wdq_termination)
    SHIM_EXT_TO(wdq_R_eq)
    SHIM_EXT_TO(wdq_dyn_E)
    SHIM_EXT_TO(wdqs_termination)
    SHIM_EXT_TO(wdqs_R_eq)
    SHIM_EXT_TO(wdqs_dyn_E)
    SHIM_EXT_TO(rdqs_termination)
    SHIM_EXT_TO(rdqs_R_eq)
    SHIM_EXT_TO(rdqs_dyn_E)
    SHIM_EXT_TO(wdbi_termination)
    SHIM_EXT_TO(wdbi_R_eq)
    SHIM_EXT_TO(wdbi_dyn_E)
    SHIM_EXT_TO(rdbi_termination)
    SHIM_EXT_TO(rdbi_R_eq)
    SHIM_EXT_TO(rdbi_dyn_E)
}
inline void from_json(const json_t& nlohmann_json_j, MemImpedanceSpecTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(ck_termination)
    SHIM_EXT_FROM(ck_R_eq)
    SHIM_EXT_FROM(ck_dyn_E)
    SHIM_EXT_FROM(ca_termination)
    SHIM_EXT_FROM(ca_R_eq)
    SHIM_EXT_FROM(ca_dyn_E)
    SHIM_EXT_FROM(rdq_termination)
    SHIM_EXT_FROM(rdq_R_eq)
    SHIM_EXT_FROM(rdq_dyn_E)
    SHIM_EXT_FROM(wdq_termination)
    SHIM_EXT_FROM(wdq_R_eq)
    SHIM_EXT_FROM(wdq_dyn_E)
    SHIM_EXT_FROM(wdqs_termination)
    SHIM_EXT_FROM(wdqs_R_eq)
    SHIM_EXT_FROM(wdqs_dyn_E)
    SHIM_EXT_FROM(rdqs_termination)
    SHIM_EXT_FROM(rdqs_R_eq)
    SHIM_EXT_FROM(rdqs_dyn_E)
    SHIM_EXT_FROM(wdbi_termination)
    SHIM_EXT_FROM(wdbi_R_eq)
    SHIM_EXT_FROM(wdbi_dyn_E)
    SHIM_EXT_FROM(rdbi_termination)
    SHIM_EXT_FROM(rdbi_R_eq)
    SHIM_EXT_FROM(rdbi_dyn_E)
}
struct PrePostambleTypeDDR4 {
    double read_zeroes{};
    double write_zeroes{};
    double read_ones{};
    double write_ones{};
    uint64_t read_zeroes_to_ones{};
    uint64_t write_zeroes_to_ones{};
    uint64_t read_ones_to_zeroes{};
    uint64_t write_ones_to_zeroes{};
    uint64_t readMinTccd{};
    uint64_t writeMinTccd{};
};
inline void to_json(json_t& nlohmann_json_j, const PrePostambleTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(read_zeroes)
    SHIM_EXT_TO(write_zeroes)
    SHIM_EXT_TO(read_ones)
    SHIM_EXT_TO(write_ones)
    SHIM_EXT_TO(read_zeroes_to_ones)
    SHIM_EXT_TO(write_zeroes_to_ones)
    SHIM_EXT_TO(read_ones_to_zeroes)
    SHIM_EXT_TO(write_ones_to_zeroes)
    SHIM_EXT_TO(readMinTccd)
    SHIM_EXT_TO(writeMinTccd)
}
inline void from_json(const json_t& nlohmann_json_j, PrePostambleTypeDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(read_zeroes)
    SHIM_EXT_FROM(write_zeroes)
    SHIM_EXT_FROM(read_ones)
    SHIM_EXT_FROM(write_ones)
    SHIM_EXT_FROM(read_zeroes_to_ones)
    SHIM_EXT_FROM(write_zeroes_to_ones)
    SHIM_EXT_FROM(read_ones_to_zeroes)
    SHIM_EXT_FROM(write_ones_to_zeroes)
    SHIM_EXT_FROM(readMinTccd)
    SHIM_EXT_FROM(writeMinTccd)
}
struct MemSpecDDR4 {
    static constexpr std::string_view id = "DDR4";
    std::string memoryId;
    MemArchitectureSpecTypeDDR4 memarchitecturespec{};
    MemPowerSpecTypeDDR4 mempowerspec{};
    MemTimingSpecTypeDDR4 memtimingspec{};
    std::optional<BankWiseSpecTypeDDR4> bankwisespec{};
    MemImpedanceSpecTypeDDR4 memimpedancespec{};
    PrePostambleTypeDDR4 prepostamble{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecDDR4, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec, prepostamble)
}
#endif
