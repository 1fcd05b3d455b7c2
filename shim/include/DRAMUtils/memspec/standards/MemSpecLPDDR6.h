#ifndef DRAMUTILS_MEMSPEC_STANDARDS_LPDDR6_H
#define DRAMUTILS_MEMSPEC_STANDARDS_LPDDR6_H
#include "DRAMUtils/util/json_utils.h"
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR6 {
    uint64_t nbrOfChannels{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfRows{};
    uint64_t width{};
    uint64_t burstLength{};
    uint64_t maxBurstLength{};
    uint64_t dataRate{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRanks{};
    uint64_t nbrOfDevices{};
    bool WCKalwaysOn{};
    uint64_t per2BankOffset{};
};
inline void to_json(json_t& nlohmann_json_j, const MemArchitectureSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_TO(nbrOfChannels)
    SHIM_EXT_TO(nbrOfColumns)
    SHIM_EXT_TO(nbrOfRows)
    SHIM_EXT_TO(width)
    SHIM_EXT_TO(burstLength)
    SHIM_EXT_TO(maxBurstLength)
    SHIM_EXT_TO(dataRate)
    SHIM_EXT_TO(nbrOfBankGroups)
    SHIM_EXT_TO(nbrOfBanks)
    SHIM_EXT_TO(nbrOfRanks)
    SHIM_EXT_TO(nbrOfDevices)
    SHIM_EXT_TO(WCKalwaysOn)
    SHIM_EXT_TO(per2BankOffset)
}
inline void from_json(const json_t& nlohmann_json_j, MemArchitectureSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_FROM(nbrOfChannels)
    SHIM_EXT_FROM(nbrOfColumns)
    SHIM_EXT_FROM(nbrOfRows)
    SHIM_EXT_FROM(width)
    SHIM_EXT_FROM(burstLength)
    SHIM_EXT_FROM(maxBurstLength)
    SHIM_EXT_FROM(dataRate)
    SHIM_EXT_FROM(nbrOfBankGroups)
    SHIM_EXT_FROM(nbrOfBanks)
    SHIM_EXT_FROM(nbrOfRanks)
    SHIM_EXT_FROM(nbrOfDevices)
    SHIM_EXT_FROM(WCKalwaysOn)
    SHIM_EXT_FROM(per2BankOffset)
}
struct MemPowerSpecTypeLPDDR6 {
    double vdd1{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pdb1{};
    double idd61{};
    double idd6ds1{};
    double idd2p1{};
    double idd3p1{};
    double vdd2c{};
    double idd02c{};
    double idd2n2c{};
    double idd3n2c{};
    double idd4r2c{};
    double idd4w2c{};
    double idd52c{};
    double idd5pdb2c{};
    double idd62c{};
    double idd6ds2c{};
    double idd2p2c{};
    double idd3p2c{};
    double vdd2l{};
    double vdd2d{};
    double idd02d{};
    double idd2n2d{};
    double idd3n2d{};
    double idd4r2d{};
    double idd4w2d{};
    double idd52d{};
    double idd5pdb2d{};
    double idd62d{};
    double idd6ds2d{};
    double idd2p2d{};
    double idd3p2d{};
    double vddq{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2c{};
    std::optional<double> iBeta_vdd2d{};
};
inline void to_json(json_t& nlohmann_json_j, const MemPowerSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_TO(vdd1)
    SHIM_EXT_TO(idd01)
    SHIM_EXT_TO(idd2n1)
    SHIM_EXT_TO(idd3n1)
    SHIM_EXT_TO(idd4r1)
    SHIM_EXT_TO(idd4w1)
    SHIM_EXT_TO(idd51)
    SHIM_EXT_TO(idd5pdb1)
    SHIM_EXT_TO(idd61)
    SHIM_EXT_TO(idd6ds1)
    SHIM_EXT_TO(idd2p1)
    SHIM_EXT_TO(idd3p1)
    SHIM_EXT_TO(vdd2c)
    SHIM_EXT_TO(idd02c)
    SHIM_EXT_TO(idd2n2c)
    SHIM_EXT_TO(idd3n2c)
    SHIM_EXT_TO(idd4r2c)
    SHIM_EXT_TO(idd4w2c)
    SHIM_EXT_TO(idd52c)
    SHIM_EXT_TO(idd5pdb2c)
    SHIM_EXT_TO(idd62c)
    SHIM_EXT_TO(idd6ds2c)
    SHIM_EXT_TO(idd2p2c)
    SHIM_EXT_TO(idd3p2c)
    SHIM_EXT_TO(vdd2l)
    SHIM_EXT_TO(vdd2d)
    SHIM_EXT_TO(idd02d)
    SHIM_EXT_TO(idd2n2d)
    SHIM_EXT_TO(idd3n2d)
    SHIM_EXT_TO(idd4r2d)
    SHIM_EXT_TO(idd4w2d)
    SHIM_EXT_TO(idd52d)
    SHIM_EXT_TO(idd5pdb2d)
    SHIM_EXT_TO(idd62d)
    SHIM_EXT_TO(idd6ds2d)
    SHIM_EXT_TO(idd2p2d)
    SHIM_EXT_TO(idd3p2d)
    SHIM_EXT_TO(vddq)
    SHIM_EXT_TO(iBeta_vdd1)
    SHIM_EXT_TO(iBeta_vdd2c)
    SHIM_EXT_TO(iBeta_vdd2d)
}
inline void from_json(const json_t& nlohmann_json_j, MemPowerSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_FROM(vdd1)
    SHIM_EXT_FROM(idd01)
    SHIM_EXT_FROM(idd2n1)
    SHIM_EXT_FROM(idd3n1)
    SHIM_EXT_FROM(idd4r1)
    SHIM_EXT_FROM(idd4w1)
    SHIM_EXT_FROM(idd51)
    SHIM_EXT_FROM(idd5pdb1)
    SHIM_EXT_FROM(idd61)
    SHIM_EXT_FROM(idd6ds1)
    SHIM_EXT_FROM(idd2p1)
    SHIM_EXT_FROM(idd3p1)
    SHIM_EXT_FROM(vdd2c)
    SHIM_EXT_FROM(idd02c)
    SHIM_EXT_FROM(idd2n2c)
    SHIM_EXT_FROM(idd3n2c)
    SHIM_EXT_FROM(idd4r2c)
    SHIM_EXT_FROM(idd4w2c)
    SHIM_EXT_FROM(idd52c)
    SHIM_EXT_FROM(idd5pdb2c)
    SHIM_EXT_FROM(idd62c)
    SHIM_EXT_FROM(idd6ds2c)
    SHIM_EXT_FROM(idd2p2c)
    SHIM_EXT_FROM(idd3p2c)
    SHIM_EXT_FROM(vdd2l)
    SHIM_EXT_FROM(vdd2d)
    SHIM_EXT_FROM(idd02d)
    SHIM_EXT_FROM(idd2n2d)
    SHIM_EXT_FROM(idd3n2d)
    SHIM_EXT_FROM(idd4r2d)
    SHIM_EXT_FROM(idd4w2d)
    SHIM_EXT_FROM(idd52d)
    SHIM_EXT_FROM(idd5pdb2d)
    SHIM_EXT_FROM(idd62d)
    SHIM_EXT_FROM(idd6ds2d)
    SHIM_EXT_FROM(idd2p2d)
    SHIM_EXT_FROM(idd3p2d)
    SHIM_EXT_FROM(vddq)
    SHIM_EXT_FROM(iBeta_vdd1)
    SHIM_EXT_FROM(iBeta_vdd2c)
    SHIM_EXT_FROM(iBeta_vdd2d)
}
struct MemTimingSpecTypeLPDDR6 {
    double tCK{};
    uint64_t REFI{};
    uint64_t REFIpb{};
    uint64_t RFCab{};
    uint64_t RFCpb{};
    uint64_t RFCdb{};
    uint64_t RAS{};
    uint64_t RPab{};
    uint64_t RPpb{};
    uint64_t RCpb{};
    uint64_t RCab{};
    uint64_t PPD{};
    uint64_t RCD{};
    uint64_t RCD_L{};
    uint64_t RCD_S{};
    uint64_t FAW{};
    uint64_t RRD{};
    uint64_t RL{};
    uint64_t RBTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RTRS{};
    uint64_t BL_n_min_24{};
    uint64_t BL_n_max_24{};
    uint64_t BL_n_L_24{};
    uint64_t BL_n_S_24{};
    uint64_t BL_n_min_48{};
    uint64_t BL_n_max_48{};
    uint64_t BL_n_L_48{};
    uint64_t BL_n_S_48{};
    uint64_t WTR_L{};
    uint64_t WTR_S{};
    uint64_t WCK2DQO{};
    uint64_t WCK2CK{};
    uint64_t pbR2act{};
    uint64_t pbR2pbR{};
    uint64_t RTP_24{};
    uint64_t RTP_48{};
    uint64_t RTW_L_24{};
    uint64_t RTW_S_24{};
    uint64_t RTW_L_48{};
    uint64_t RTW_S_48{};
    uint64_t WCKPST{};
    uint64_t WCK2DQI{};
    uint64_t WTP{};
    uint64_t ACU{};
    uint64_t RCD_r{};
    uint64_t RCD_w{};
    uint64_t CMDPD{};
    uint64_t dbR2dbR{};
    uint64_t dbR2act{};
    uint64_t ESPD{};
    uint64_t SR{};
    uint64_t XSR{};
};
inline void to_json(json_t& nlohmann_json_j, const MemTimingSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_TO(tCK)
    SHIM_EXT_TO(REFI)
    SHIM_EXT_TO(REFIpb)
    SHIM_EXT_TO(RFCab)
    SHIM_EXT_TO(RFCpb)
    SHIM_EXT_TO(RFCdb)
    SHIM_EXT_TO(RAS)
    SHIM_EXT_TO(RPab)
    SHIM_EXT_TO(RPpb)
    SHIM_EXT_TO(RCpb)
    SHIM_EXT_TO(RCab)
    SHIM_EXT_TO(PPD)
    SHIM_EXT_TO(RCD)
    SHIM_EXT_TO(RCD_L)
    SHIM_EXT_TO(RCD_S)
    SHIM_EXT_TO(FAW)
    SHIM_EXT_TO(RRD)
    SHIM_EXT_TO(RL)
    SHIM_EXT_TO(RBTP)
    SHIM_EXT_TO(WL)
    SHIM_EXT_TO(WR)
    SHIM_EXT_TO(RTRS)
    SHIM_EXT_TO(BL_n_min_24)
    SHIM_EXT_TO(BL_n_max_24)
    SHIM_EXT_TO(BL_n_L_24)
    SHIM_EXT_TO(BL_n_S_24)
    SHIM_EXT_TO(BL_n_min_48)
    SHIM_EXT_TO(BL_n_max_48)
    SHIM_EXT_TO(BL_n_L_48)
    SHIM_EXT_TO(BL_n_S_48)
    SHIM_EXT_TO(WTR_L)
    SHIM_EXT_TO(WTR_S)
    SHIM_EXT_TO(WCK2DQO)
    SHIM_EXT_TO(WCK2CK)
    SHIM_EXT_TO(pbR2act)
    SHIM_EXT_TO(pbR2pbR)
    SHIM_EXT_TO(RTP_24)
    SHIM_EXT_TO(RTP_48)
    SHIM_EXT_TO(RTW_L_24)
    SHIM_EXT_TO(RTW_S_24)
    SHIM_EXT_TO(RTW_L_48)
    SHIM_EXT_TO(RTW_S_48)
    SHIM_EXT_TO(WCKPST)
    SHIM_EXT_TO(WCK2DQI)
    SHIM_EXT_TO(WTP)
    SHIM_EXT_TO(ACU)
    SHIM_EXT_TO(RCD_r)
    SHIM_EXT_TO(RCD_w)
    SHIM_EXT_TO(CMDPD)
    SHIM_EXT_TO(dbR2dbR)
    SHIM_EXT_TO(dbR2act)
    SHIM_EXT_TO(ESPD)
    SHIM_EXT_TO(SR)
    SHIM_EXT_TO(XSR)
}
inline void from_json(const json_t& nlohmann_json_j, MemTimingSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_FROM(tCK)
    SHIM_EXT_FROM(REFI)
    SHIM_EXT_FROM(REFIpb)
    SHIM_EXT_FROM(RFCab)
    SHIM_EXT_FROM(RFCpb)
    SHIM_EXT_FROM(RFCdb)
    SHIM_EXT_FROM(RAS)
    SHIM_EXT_FROM(RPab)
    SHIM_EXT_FROM(RPpb)
    SHIM_EXT_FROM(RCpb)
    SHIM_EXT_FROM(RCab)
    SHIM_EXT_FROM(PPD)
    SHIM_EXT_FROM(RCD)
    SHIM_EXT_FROM(RCD_L)
    SHIM_EXT_FROM(RCD_S)
    SHIM_EXT_FROM(FAW)
    SHIM_EXT_FROM(RRD)
    SHIM_EXT_FROM(RL)
    SHIM_EXT_FROM(RBTP)
    SHIM_EXT_FROM(WL)
    SHIM_EXT_FROM(WR)
    SHIM_EXT_FROM(RTRS)
    SHIM_EXT_FROM(BL_n_min_24)
    SHIM_EXT_FROM(BL_n_max_24)
    SHIM_EXT_FROM(BL_n_L_24)
    SHIM_EXT_FROM(BL_n_S_24)
    SHIM_EXT_FROM(BL_n_min_48)
    SHIM_EXT_FROM(BL_n_max_48)
    SHIM_EXT_FROM(BL_n_L_48)
    SHIM_EXT_FROM(BL_n_S_48)
    SHIM_EXT_FROM(WTR_L)
    SHIM_EXT_FROM(WTR_S)
    SHIM_EXT_FROM(WCK2DQO)
    SHIM_EXT_FROM(WCK2CK)
    SHIM_EXT_FROM(pbR2act)
    SHIM_EXT_FROM(pbR2pbR)
    SHIM_EXT_FROM(RTP_24)
    SHIM_EXT_FROM(RTP_48)
    SHIM_EXT_FROM(RTW_L_24)
    SHIM_EXT_FROM(RTW_S_24)
    SHIM_EXT_FROM(RTW_L_48)
    SHIM_EXT_FROM(RTW_S_48)
    SHIM_EXT_FROM(WCKPST)
    SHIM_EXT_FROM(WCK2DQI)
    SHIM_EXT_FROM(WTP)
    SHIM_EXT_FROM(ACU)
    SHIM_EXT_FROM(RCD_r)
    SHIM_EXT_FROM(RCD_w)
    SHIM_EXT_FROM(CMDPD)
    SHIM_EXT_FROM(dbR2dbR)
    SHIM_EXT_FROM(dbR2act)
    SHIM_EXT_FROM(ESPD)
    SHIM_EXT_FROM(SR)
    SHIM_EXT_FROM(XSR)
}
struct BankWiseSpecTypeLPDDR6 {
    std::optional<double> factRho{};
};
inline void to_json(json_t& nlohmann_json_j, const BankWiseSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_TO(factRho)
}
inline void from_json(const json_t& nlohmann_json_j, BankWiseSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_FROM(factRho)
}
struct MemImpedanceSpecTypeLPDDR6 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wck_termination{};
    double wck_R_eq{};
    double wck_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
};
inline void to_json(json_t& nlohmann_json_j, const MemImpedanceSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_TO(ck_termination)
    SHIM_EXT_TO(ck_R_eq)
    SHIM_EXT_TO(ck_dyn_E)
    SHIM_EXT_TO(ca_termination)
    SHIM_EXT_TO(ca_R_eq)
    SHIM_EXT_TO(ca_dyn_E)
    SHIM_EXT_TO(rdq_termination)
    SHIM_EXT_TO(rdq_R_eq)
    SHIM_EXT_TO(rdq_dyn_E)
    SHIM_EXT_TO(wdq_termination)
    SHIM_EXT_TO(wdq_R_eq)
    SHIM_EXT_TO(wdq_dyn_E)
    SHIM_EXT_TO(wck_termination)
    SHIM_EXT_TO(wck_R_eq)
    SHIM_EXT_TO(wck_dyn_E)
    SHIM_EXT_TO(rdqs_termination)
    SHIM_EXT_TO(rdqs_R_eq)
    SHIM_EXT_TO(rdqs_dyn_E)
}
inline void from_json(const json_t& nlohmann_json_j, MemImpedanceSpecTypeLPDDR6& nlohmann_json_t) {
    SHIM_EXT_FROM(ck_termination)
    SHIM_EXT_FROM(ck_R_eq)
    SHIM_EXT_FROM(ck_dyn_E)
    SHIM_EXT_FROM(ca_termination)
    SHIM_EXT_FROM(ca_R_eq)
    SHIM_EXT_FROM(ca_dyn_E)
    SHIM_EXT_FROM(rdq_termination)
    SHIM_EXT_FROM(rdq_R_eq)
    SHIM_EXT_FROM(rdq_dyn_E)
    SHIM_EXT_FROM(wdq_termination)
    SHIM_EXT_FROM(wdq_R_eq)
    SHIM_EXT_FROM(wdq_dyn_E)
    SHIM_EXT_FROM(wck_termination)
    SHIM_EXT_FROM(wck_R_eq)
    SHIM_EXT_FROM(wck_dyn_E)
    SHIM_EXT_FROM(rdqs_termination)
    SHIM_EXT_FROM(rdqs_R_eq)
    SHIM_EXT_FROM(rdqs_dyn_E)
}
struct MemSpecLPDDR6 {
    static constexpr std::string_view id = "LPDDR6";
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR6 memarchitecturespec{};
    MemPowerSpecTypeLPDDR6 mempowerspec{};
    MemTimingSpecTypeLPDDR6 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR6> bankwisespec{};
    MemImpedanceSpecTypeLPDDR6 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR6, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
}
#endif
