#ifndef DRAMUTILS_MEMSPEC_STANDARDS_LPDDR5_H
#define DRAMUTILS_MEMSPEC_STANDARDS_LPDDR5_H
#include "DRAMUtils/util/json_utils.h"
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR5 {
    uint64_t nbrOfChannels{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfRows{};
    uint64_t width{};
    uint64_t burstLength{};
    uint64_t maxBurstLength{};
    uint64_t dataRate{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRanks{};
    uint64_t nbrOfDevices{};
    uint64_t per2BankOffset{};
    bool WCKalwaysOn{};
};
inline void to_json(json_t& nlohmann_json_j, const MemArchitectureSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(nbrOfChannels)
    SHIM_EXT_TO(nbrOfColumns)
    SHIM_EXT_TO(nbrOfRows)
    SHIM_EXT_TO(width)
    SHIM_EXT_TO(burstLength)
    SHIM_EXT_TO(maxBurstLength)
    SHIM_EXT_TO(dataRate)
    SHIM_EXT_TO(nbrOfBankGroups)
    SHIM_EXT_TO(nbrOfBanks)
    SHIM_EXT_TO(nbrOfRanks)
    SHIM_EXT_TO(nbrOfDevices)
    SHIM_EXT_TO(per2BankOffset)
    SHIM_EXT_TO(WCKalwaysOn)
}
inline void from_json(const json_t& nlohmann_json_j, MemArchitectureSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(nbrOfChannels)
    SHIM_EXT_FROM(nbrOfColumns)
    SHIM_EXT_FROM(nbrOfRows)
    SHIM_EXT_FROM(width)
    SHIM_EXT_FROM(burstLength)
    SHIM_EXT_FROM(maxBurstLength)
    SHIM_EXT_FROM(dataRate)
    SHIM_EXT_FROM(nbrOfBankGroups)
    SHIM_EXT_FROM(nbrOfBanks)
    SHIM_EXT_FROM(nbrOfRanks)
    SHIM_EXT_FROM(nbrOfDevices)
    SHIM_EXT_FROM(per2BankOffset)
    SHIM_EXT_FROM(WCKalwaysOn)
}
struct MemPowerSpecTypeLPDDR5 {
    double vdd1{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pb1{};
    double idd61{};
    double idd6ds1{};
    double idd2p1{};
    double idd3p1{};
    double vdd2h{};
    double idd02h{};
    double idd2n2h{};
    double idd3n2h{};
    double idd4r2h{};
    double idd4w2h{};
    double idd52h{};
    double idd5pb2h{};
    double idd62h{};
    double idd6ds2h{};
    double idd2p2h{};
    double idd3p2h{};
    double vdd2l{};
    double idd02l{};
    double idd2n2l{};
    double idd3n2l{};
    double idd4r2l{};
    double idd4w2l{};
    double idd52l{};
    double idd5pb2l{};
    double idd62l{};
    double idd6ds2l{};
    double idd2p2l{};
    double idd3p2l{};
    double vddq{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2h{};
    std::optional<double> iBeta_vdd2l{};
};
inline void to_json(json_t& nlohmann_json_j, const MemPowerSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(vdd1)
    SHIM_EXT_TO(idd01)
    SHIM_EXT_TO(idd2n1)
    SHIM_EXT_TO(idd3n1)
    SHIM_EXT_TO(idd4r1)
    SHIM_EXT_TO(idd4w1)
    SHIM_EXT_TO(idd51)
    SHIM_EXT_TO(idd5pb1)
    SHIM_EXT_TO(idd61)
    SHIM_EXT_TO(idd6ds1)
    SHIM_EXT_TO(idd2p1)
    SHIM_EXT_TO(idd3p1)
    SHIM_EXT_TO(vdd2h)
    SHIM_EXT_TO(idd02h)
    SHIM_EXT_TO(idd2n2h)
    SHIM_EXT_TO(idd3n2h)
    SHIM_EXT_TO(idd4r2h)
    SHIM_EXT_TO(idd4w2h)
    SHIM_EXT_TO(idd52h)
    SHIM_EXT_TO(idd5pb2h)
    SHIM_EXT_TO(idd62h)
    SHIM_EXT_TO(idd6ds2h)
    SHIM_EXT_TO(idd2p2h)
    SHIM_EXT_TO(idd3p2h)
    SHIM_EXT_TO(vdd2l)
    SHIM_EXT_TO(idd02l)
    SHIM_EXT_TO(idd2n2l)
    SHIM_EXT_TO(idd3n2l)
    SHIM_EXT_TO(idd4r2l)
    SHIM_EXT_TO(idd4w2l)
    SHIM_EXT_TO(idd52l)
    SHIM_EXT_TO(idd5pb2l)
    SHIM_EXT_TO(idd62l)
    SHIM_EXT_TO(idd6ds2l)
    SHIM_EXT_TO(idd2p2l)
    SHIM_EXT_TO(idd3p2l)
    SHIM_EXT_TO(vddq)
    SHIM_EXT_TO(iBeta_vdd1)
    SHIM_EXT_TO(iBeta_vdd2h)
    SHIM_EXT_TO(iBeta_vdd2l)
}
inline void from_json(const json_t& nlohmann_json_j, MemPowerSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(vdd1)
    SHIM_EXT_FROM(idd01)
    SHIM_EXT_FROM(idd2n1)
    SHIM_EXT_FROM(idd3n1)
    SHIM_EXT_FROM(idd4r1)
    SHIM_EXT_FROM(idd4w1)
    SHIM_EXT_FROM(idd51)
    SHIM_EXT_FROM(idd5pb1)
    SHIM_EXT_FROM(idd61)
    SHIM_EXT_FROM(idd6ds1)
    SHIM_EXT_FROM(idd2p1)
    SHIM_EXT_FROM(idd3p1)
    SHIM_EXT_FROM(vdd2h)
    SHIM_EXT_FROM(idd02h)
    SHIM_EXT_FROM(idd2n2h)
    SHIM_EXT_FROM(idd3n2h)
    SHIM_EXT_FROM(idd4r2h)
    SHIM_EXT_FROM(idd4w2h)
    SHIM_EXT_FROM(idd52h)
    SHIM_EXT_FROM(idd5pb2h)
    SHIM_EXT_FROM(idd62h)
    SHIM_EXT_FROM(idd6ds2h)
    SHIM_EXT_FROM(idd2p2h)
    SHIM_EXT_FROM(idd3p2h)
    SHIM_EXT_FROM(vdd2l)
    SHIM_EXT_FROM(idd02l)
    SHIM_EXT_FROM(idd2n2l)
    SHIM_EXT_FROM(idd3n2l)
    SHIM_EXT_FROM(idd4r2l)
    SHIM_EXT_FROM(idd4w2l)
    SHIM_EXT_FROM(idd52l)
    SHIM_EXT_FROM(idd5pb2l)
    SHIM_EXT_FROM(idd62l)
    SHIM_EXT_FROM(idd6ds2l)
    SHIM_EXT_FROM(idd2p2l)
    SHIM_EXT_FROM(idd3p2l)
    SHIM_EXT_FROM(vddq)
    SHIM_EXT_FROM(iBeta_vdd1)
    SHIM_EXT_FROM(iBeta_vdd2h)
    SHIM_EXT_FROM(iBeta_vdd2l)
}
struct MemTimingSpecTypeLPDDR5 {
    double tCK{};
    uint64_t REFI{};
    uint64_t REFIpb{};
    uint64_t RFCab{};
    uint64_t RFCpb{};
    uint64_t RAS{};
    uint64_t RPab{};
    uint64_t RPpb{};
    uint64_t RCpb{};
    uint64_t RCab{};
    uint64_t PPD{};
    uint64_t RCD{};
    uint64_t RCD_L{};
    uint64_t RCD_S{};
    uint64_t FAW{};
    uint64_t RRD{};
    uint64_t RL{};
    uint64_t RBTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RTRS{};
    uint64_t BL_n_min_16{};
    uint64_t BL_n_max_16{};
    uint64_t BL_n_L_16{};
    uint64_t BL_n_S_16{};
    uint64_t BL_n_min_32{};
    uint64_t BL_n_max_32{};
    uint64_t BL_n_L_32{};
    uint64_t BL_n_S_32{};
    uint64_t WTR_L{};
    uint64_t WTR_S{};
    uint64_t RTW_L_32{};
    uint64_t RTW_L_16{};
    uint64_t RTW_S_32{};
    uint64_t RTW_S_16{};
    uint64_t WCK2DQO{};
    uint64_t WCK2CK{};
    uint64_t pbR2act{};
    uint64_t pbR2pbR{};
};
inline void to_json(json_t& nlohmann_json_j, const MemTimingSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(tCK)
    SHIM_EXT_TO(REFI)
    SHIM_EXT_TO(REFIpb)
    SHIM_EXT_TO(RFCab)
    SHIM_EXT_TO(RFCpb)
    SHIM_EXT_TO(RAS)
    SHIM_EXT_TO(RPab)
    SHIM_EXT_TO(RPpb)
    SHIM_EXT_TO(RCpb)
    SHIM_EXT_TO(RCab)
    SHIM_EXT_TO(PPD)
    SHIM_EXT_TO(RCD)
    SHIM_EXT_TO(RCD_L)
    SHIM_EXT_TO(RCD_S)
    SHIM_EXT_TO(FAW)
    SHIM_EXT_TO(RRD)
    SHIM_EXT_TO(RL)
    SHIM_EXT_TO(RBTP)
    SHIM_EXT_TO(WL)
    SHIM_EXT_TO(WR)
    SHIM_EXT_TO(RTRS)
    SHIM_EXT_TO(BL_n_min_16)
    SHIM_EXT_TO(BL_n_max_16)
    SHIM_EXT_TO(BL_n_L_16)
    SHIM_EXT_TO(BL_n_S_16)
    SHIM_EXT_TO(BL_n_min_32)
    SHIM_EXT_TO(BL_n_max_32)
    SHIM_EXT_TO(BL_n_L_32)
    SHIM_EXT_TO(BL_n_S_32)
    SHIM_EXT_TO(WTR_L)
    SHIM_EXT_TO(WTR_S)
    SHIM_EXT_TO(RTW_L_32)
    SHIM_EXT_TO(RTW_L_16)
    SHIM_EXT_TO(RTW_S_32)
    SHIM_EXT_TO(RTW_S_16)
    SHIM_EXT_TO(WCK2DQO)
    SHIM_EXT_TO(WCK2CK)
    SHIM_EXT_TO(pbR2act)
    SHIM_EXT_TO(pbR2pbR)
}
inline void from_json(const json_t& nlohmann_json_j, MemTimingSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(tCK)
    SHIM_EXT_FROM(REFI)
    SHIM_EXT_FROM(REFIpb)
    SHIM_EXT_FROM(RFCab)
    SHIM_EXT_FROM(RFCpb)
    SHIM_EXT_FROM(RAS)
    SHIM_EXT_FROM(RPab)
    SHIM_EXT_FROM(RPpb)
    SHIM_EXT_FROM(RCpb)
    SHIM_EXT_FROM(RCab)
    SHIM_EXT_FROM(PPD)
    SHIM_EXT_FROM(RCD)
    SHIM_EXT_FROM(RCD_L)
    SHIM_EXT_FROM(RCD_S)
    SHIM_EXT_FROM(FAW)
    SHIM_EXT_FROM(RRD)
    SHIM_EXT_FROM(RL)
    SHIM_EXT_FROM(RBTP)
    SHIM_EXT_FROM(WL)
    SHIM_EXT_FROM(WR)
    SHIM_EXT_FROM(RTRS)
    SHIM_EXT_FROM(BL_n_min_16)
    SHIM_EXT_FROM(BL_n_max_16)
    SHIM_EXT_FROM(BL_n_L_16)
    SHIM_EXT_FROM(BL_n_S_16)
    SHIM_EXT_FROM(BL_n_min_32)
    SHIM_EXT_FROM(BL_n_max_32)
    SHIM_EXT_FROM(BL_n_L_32)
    SHIM_EXT_FROM(BL_n_S_32)
    SHIM_EXT_FROM(WTR_L)
    SHIM_EXT_FROM(WTR_S)
    SHIM_EXT_FROM(RTW_L_32)
    SHIM_EXT_FROM(RTW_L_16)
    SHIM_EXT_FROM(RTW_S_32)
    SHIM_EXT_FROM(RTW_S_16)
    SHIM_EXT_FROM(WCK2DQO)
    SHIM_EXT_FROM(WCK2CK)
    SHIM_EXT_FROM(pbR2act)
    SHIM_EXT_FROM(pbR2pbR)
}
struct BankWiseSpecTypeLPDDR5 {
    std::optional<double> factRho{};
};
inline void to_json(json_t& nlohmann_json_j, const BankWiseSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(factRho)
}
inline void from_json(const json_t& nlohmann_json_j, BankWiseSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(factRho)
}
struct MemImpedanceSpecTypeLPDDR5 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wck_termination{};
    double wck_R_eq{};
    double wck_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
    bool wdbi_termination{};
    double wdbi_R_eq{};
    double wdbi_dyn_E{};
    bool rdbi_termination{};
    double rdbi_R_eq{};
    double rdbi_dyn_E{};
};
inline void to_json(json_t& nlohmann_json_j, const MemImpedanceSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(ck_termination)
    SHIM_EXT_TO(ck_R_eq)
    SHIM_EXT_TO(ck_dyn_E)
    SHIM_EXT_TO(ca_termination)
    SHIM_EXT_TO(ca_R_eq)
    SHIM_EXT_TO(ca_dyn_E)
    SHIM_EXT_TO(rdq_termination)
    SHIM_EXT_TO(rdq_R_eq)
    SHIM_EXT_TO(rdq_dyn_E)
    SHIM_EXT_TO(wdq_termination)
    SHIM_EXT_TO(wdq_R_eq)
    SHIM_EXT_TO(wdq_dyn_E)
    SHIM_EXT_TO(wck_termination)
    SHIM_EXT_TO(wck_R_eq)
    SHIM_EXT_TO(wck_dyn_E)
    SHIM_EXT_TO(rdqs_termination)
    SHIM_EXT_TO(rdqs_R_eq)
    SHIM_EXT_TO(rdqs_dyn_E)
    SHIM_EXT_TO(wdbi_termination)
    SHIM_EXT_TO(wdbi_R_eq)
    SHIM_EXT_TO(wdbi_dyn_E)
    SHIM_EXT_TO(rdbi_termination)
    SHIM_EXT_TO(rdbi_R_eq)
    SHIM_EXT_TO(rdbi_dyn_E)
}
inline void from_json(const json_t& nlohmann_json_j, MemImpedanceSpecTypeLPDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(ck_termination)
    SHIM_EXT_FROM(ck_R_eq)
    SHIM_EXT_FROM(ck_dyn_E)
    SHIM_EXT_FROM(ca_termination)
    SHIM_EXT_FROM(ca_R_eq)
    SHIM_EXT_FROM(ca_dyn_E)
    SHIM_EXT_FROM(rdq_termination)
    SHIM_EXT_FROM(rdq_R_eq)
    SHIM_EXT_FROM(rdq_dyn_E)
    SHIM_EXT_FROM(wdq_termination)
    SHIM_EXT_FROM(wdq_R_eq)
    SHIM_EXT_FROM(wdq_dyn_E)
    SHIM_EXT_FROM(wck_termination)
    SHIM_EXT_FROM(wck_R_eq)
    SHIM_EXT_FROM(wck_dyn_E)
    SHIM_EXT_FROM(rdqs_termination)
    SHIM_EXT_FROM(rdqs_R_eq)
    SHIM_EXT_FROM(rdqs_dyn_E)
    SHIM_EXT_FROM(wdbi_termination)
    SHIM_EXT_FROM(wdbi_R_eq)
    SHIM_EXT_FROM(wdbi_dyn_E)
    SHIM_EXT_FROM(rdbi_termination)
    SHIM_EXT_FROM(rdbi_R_eq)
    SHIM_EXT_FROM(rdbi_dyn_E)
}
struct MemSpecLPDDR5 {
    static constexpr std::string_view id = "LPDDR5";
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR5 memarchitecturespec{};
    MemPowerSpecTypeLPDDR5 mempowerspec{};
    MemTimingSpecTypeLPDDR5 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR5> bankwisespec{};
    MemImpedanceSpecTypeLPDDR5 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR5, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
}
#endif
