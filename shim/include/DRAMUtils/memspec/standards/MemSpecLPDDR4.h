#ifndef DRAMUTILS_MEMSPEC_STANDARDS_LPDDR4_H
#define DRAMUTILS_MEMSPEC_STANDARDS_LPDDR4_H
#include "DRAMUtils/util/json_utils.h"
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
namespace DRAMUtils::MemSpec {
enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, { {pasrModesType::Invalid, nullptr}, {pasrModesType::PASR_0, 0}, {pasrModesType::PASR_1, 1}, {pasrModesType::PASR_2, 2}, {pasrModesType::PASR_3, 3}, {pasrModesType::PASR_4, 4}, {pasrModesType::PASR_5, 5}, {pasrModesType::PASR_6, 6}, {pasrModesType::PASR_7, 7} })
struct MemArchitectureSpecTypeLPDDR4 {
    uint64_t nbrOfChannels{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfRows{};
    uint64_t width{};
    uint64_t burstLength{};
    uint64_t maxBurstLength{};
    uint64_t dataRate{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRanks{};
    uint64_t nbrOfDevices{};
};
inline void to_json(json_t& nlohmann_json_j, const MemArchitectureSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(nbrOfChannels)
    SHIM_EXT_TO(nbrOfColumns)
    SHIM_EXT_TO(nbrOfRows)
    SHIM_EXT_TO(width)
    SHIM_EXT_TO(burstLength)
    SHIM_EXT_TO(maxBurstLength)
    SHIM_EXT_TO(dataRate)
    SHIM_EXT_TO(nbrOfBankGroups)
    SHIM_EXT_TO(nbrOfBanks)
    SHIM_EXT_TO(nbrOfRanks)
    SHIM_EXT_TO(nbrOfDevices)
}
inline void from_json(const json_t& nlohmann_json_j, MemArchitectureSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(nbrOfChannels)
    SHIM_EXT_FROM(nbrOfColumns)
    SHIM_EXT_FROM(nbrOfRows)
    SHIM_EXT_FROM(width)
    SHIM_EXT_FROM(burstLength)
    SHIM_EXT_FROM(maxBurstLength)
    SHIM_EXT_FROM(dataRate)
    SHIM_EXT_FROM(nbrOfBankGroups)
    SHIM_EXT_FROM(nbrOfBanks)
    SHIM_EXT_FROM(nbrOfRanks)
    SHIM_EXT_FROM(nbrOfDevices)
}
struct MemPowerSpecTypeLPDDR4 {
    double vdd1{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pb1{};
    double idd61{};
    double idd2p1{};
    double idd3p1{};
    double vdd2{};
    double idd02{};
    double idd2n2{};
    double idd3n2{};
    double idd4r2{};
    double idd4w2{};
    double idd52{};
    double idd5pb2{};
    double idd62{};
    double idd2p2{};
    double idd3p2{};
    double vddq{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2{};
};
inline void to_json(json_t& nlohmann_json_j, const MemPowerSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(vdd1)
    SHIM_EXT_TO(idd01)
    SHIM_EXT_TO(idd2n1)
    SHIM_EXT_TO(idd3n1)
    SHIM_EXT_TO(idd4r1)
    SHIM_EXT_TO(idd4w1)
    SHIM_EXT_TO(idd51)
    SHIM_EXT_TO(idd5pb1)
    SHIM_EXT_TO(idd61)
    SHIM_EXT_TO(idd2p1)
    SHIM_EXT_TO(idd3p1)
    SHIM_EXT_TO(vdd2)
    SHIM_EXT_TO(idd02)
    SHIM_EXT_TO(idd2n2)
    SHIM_EXT_TO(idd3n2)
    SHIM_EXT_TO(idd4r2)
    SHIM_EXT_TO(idd4w2)
    SHIM_EXT_TO(idd52)
    SHIM_EXT_TO(idd5pb2)
    SHIM_EXT_TO(idd62)
    SHIM_EXT_TO(idd2p2)
    SHIM_EXT_TO(idd3p2)
    SHIM_EXT_TO(vddq)
    SHIM_EXT_TO(iBeta_vdd1)
    SHIM_EXT_TO(iBeta_vdd2)
}
inline void from_json(const json_t& nlohmann_json_j, MemPowerSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(vdd1)
    SHIM_EXT_FROM(idd01)
    SHIM_EXT_FROM(idd2n1)
    SHIM_EXT_FROM(idd3n1)
    SHIM_EXT_FROM(idd4r1)
    SHIM_EXT_FROM(idd4w1)
    SHIM_EXT_FROM(idd51)
    SHIM_EXT_FROM(idd5pb1)
    SHIM_EXT_FROM(idd61)
    SHIM_EXT_FROM(idd2p1)
    SHIM_EXT_FROM(idd3p1)
    SHIM_EXT_FROM(vdd2)
    SHIM_EXT_FROM(idd02)
    SHIM_EXT_FROM(idd2n2)
    SHIM_EXT_FROM(idd3n2)
    SHIM_EXT_FROM(idd4r2)
    SHIM_EXT_FROM(idd4w2)
    SHIM_EXT_FROM(idd52)
    SHIM_EXT_FROM(idd5pb2)
    SHIM_EXT_FROM(idd62)
    SHIM_EXT_FROM(idd2p2)
    SHIM_EXT_FROM(idd3p2)
    SHIM_EXT_FROM(vddq)
    SHIM_EXT_FROM(iBeta_vdd1)
    SHIM_EXT_FROM(iBeta_vdd2)
}
struct MemTimingSpecTypeLPDDR4 {
    double tCK{};
    uint64_t CKE{};
    uint64_t ESCKE{};
    uint64_t CMDCKE{};
    uint64_t RAS{};
    uint64_t RCD{};
    uint64_t RL{};
    uint64_t REFM{};
    uint64_t REFI{};
    uint64_t REFIpb{};
    uint64_t RFCpb{};
    uint64_t RFCab{};
    uint64_t RPpb{};
    uint64_t RPab{};
    uint64_t RCpb{};
    uint64_t RCab{};
    uint64_t PPD{};
    uint64_t FAW{};
    uint64_t RRD{};
    uint64_t CCD{};
    uint64_t CCDMW{};
    uint64_t RPST{};
    uint64_t DQSCK{};
    uint64_t RTP{};
    uint64_t WL{};
    uint64_t DQSS{};
    uint64_t DQS2DQ{};
    uint64_t WR{};
    uint64_t WPRE{};
    uint64_t WTR{};
    uint64_t XP{};
    uint64_t SR{};
    uint64_t XSR{};
    uint64_t RTRS{};
};
inline void to_json(json_t& nlohmann_json_j, const MemTimingSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(tCK)
    SHIM_EXT_TO(CKE)
    SHIM_EXT_TO(ESCKE)
    SHIM_EXT_TO(CMDCKE)
    SHIM_EXT_TO(RAS)
    SHIM_EXT_TO(RCD)
    SHIM_EXT_TO(RL)
    SHIM_EXT_TO(REFM)
    SHIM_EXT_TO(REFI)
    SHIM_EXT_TO(REFIpb)
    SHIM_EXT_TO(RFCpb)
    SHIM_EXT_TO(RFCab)
    SHIM_EXT_TO(RPpb)
    SHIM_EXT_TO(RPab)
    SHIM_EXT_TO(RCpb)
    SHIM_EXT_TO(RCab)
    SHIM_EXT_TO(PPD)
    SHIM_EXT_TO(FAW)
    SHIM_EXT_TO(RRD)
    SHIM_EXT_TO(CCD)
    SHIM_EXT_TO(CCDMW)
    SHIM_EXT_TO(RPST)
    SHIM_EXT_TO(DQSCK)
    SHIM_EXT_TO(RTP)
    SHIM_EXT_TO(WL)
    SHIM_EXT_TO(DQSS)
    SHIM_EXT_TO(DQS2DQ)
    SHIM_EXT_TO(WR)
    SHIM_EXT_TO(WPRE)
    SHIM_EXT_TO(WTR)
    SHIM_EXT_TO(XP)
    SHIM_EXT_TO(SR)
    SHIM_EXT_TO(XSR)
    SHIM_EXT_TO(RTRS)
}
inline void from_json(const json_t& nlohmann_json_j, MemTimingSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(tCK)
    SHIM_EXT_FROM(CKE)
    SHIM_EXT_FROM(ESCKE)
    SHIM_EXT_FROM(CMDCKE)
    SHIM_EXT_FROM(RAS)
    SHIM_EXT_FROM(RCD)
    SHIM_EXT_FROM(RL)
    SHIM_EXT_FROM(REFM)
    SHIM_EXT_FROM(REFI)
    SHIM_EXT_FROM(REFIpb)
    SHIM_EXT_FROM(RFCpb)
    SHIM_EXT_FROM(RFCab)
    SHIM_EXT_FROM(RPpb)
    SHIM_EXT_FROM(RPab)
    SHIM_EXT_FROM(RCpb)
    SHIM_EXT_FROM(RCab)
    SHIM_EXT_FROM(PPD)
    SHIM_EXT_FROM(FAW)
    SHIM_EXT_FROM(RRD)
    SHIM_EXT_FROM(CCD)
    SHIM_EXT_FROM(CCDMW)
    SHIM_EXT_FROM(RPST)
    SHIM_EXT_FROM(DQSCK)
    SHIM_EXT_FROM(RTP)
    SHIM_EXT_FROM(WL)
    SHIM_EXT_FROM(DQSS)
    SHIM_EXT_FROM(DQS2DQ)
    SHIM_EXT_FROM(WR)
    SHIM_EXT_FROM(WPRE)
    SHIM_EXT_FROM(WTR)
    SHIM_EXT_FROM(XP)
    SHIM_EXT_FROM(SR)
    SHIM_EXT_FROM(XSR)
    SHIM_EXT_FROM(RTRS)
}
struct BankWiseSpecTypeLPDDR4 {
    std::optional<double> factRho{};
    std::optional<double> factSigma{};
    std::optional<pasrModesType> pasrMode{};
    std::optional<bool> hasPASR{};
};
inline void to_json(json_t& nlohmann_json_j, const BankWiseSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(factRho)
    SHIM_EXT_TO(factSigma)
    SHIM_EXT_TO(pasrMode)
    SHIM_EXT_TO(hasPASR)
}
inline void from_json(const json_t& nlohmann_json_j, BankWiseSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(factRho)
    SHIM_EXT_FROM(factSigma)
    SHIM_EXT_FROM(pasrMode)
    SHIM_EXT_FROM(hasPASR)
}
struct MemImpedanceSpecTypeLPDDR4 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wdqs_termination{};
    double wdqs_R_eq{};
    double wdqs_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
    bool wdbi_termination{};
    double wdbi_R_eq{};
    double wdbi_dyn_E{};
    bool rdbi_termination{};
    double rdbi_R_eq{};
    double rdbi_dyn_E{};
};
inline void to_json(json_t& nlohmann_json_j, const MemImpedanceSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_TO(ck_termination)
    SHIM_EXT_TO(ck_R_eq)
    SHIM_EXT_TO(ck_dyn_E)
    SHIM_EXT_TO(ca_termination)
    SHIM_EXT_TO(ca_R_eq)
    SHIM_EXT_TO(ca_dyn_E)
    SHIM_EXT_TO(rdq_termination)
    SHIM_EXT_TO(rdq_R_eq)
    SHIM_EXT_TO(rdq_dyn_E)
    SHIM_EXT_TO(wdq_termination)
    SHIM_EXT_TO(wdq_R_eq)
    SHIM_EXT_TO(wdq_dyn_E)
    SHIM_EXT_TO(wdqs_termination)
    SHIM_EXT_TO(wdqs_R_eq)
    SHIM_EXT_TO(wdqs_dyn_E)
    SHIM_EXT_TO(rdqs_termination)
    SHIM_EXT_TO(rdqs_R_eq)
    SHIM_EXT_TO(rdqs_dyn_E)
    SHIM_EXT_TO(wdbi_termination)
    SHIM_EXT_TO(wdbi_R_eq)
    SHIM_EXT_TO(wdbi_dyn_E)
    SHIM_EXT_TO(rdbi_termination)
    SHIM_EXT_TO(rdbi_R_eq)
    SHIM_EXT_TO(rdbi_dyn_E)
}
inline void from_json(const json_t& nlohmann_json_j, MemImpedanceSpecTypeLPDDR4& nlohmann_json_t) {
    SHIM_EXT_FROM(ck_termination)
    SHIM_EXT_FROM(ck_R_eq)
    SHIM_EXT_FROM(ck_dyn_E)
    SHIM_EXT_FROM(ca_termination)
    SHIM_EXT_FROM(ca_R_eq)
    SHIM_EXT_FROM(ca_dyn_E)
    SHIM_EXT_FROM(rdq_termination)
    SHIM_EXT_FROM(rdq_R_eq)
    SHIM_EXT_FROM(rdq_dyn_E)
    SHIM_EXT_FROM(wdq_termination)
    SHIM_EXT_FROM(wdq_R_eq)
    SHIM_EXT_FROM(wdq_dyn_E)
    SHIM_EXT_FROM(wdqs_termination)
    SHIM_EXT_FROM(wdqs_R_eq)
    SHIM_EXT_FROM(wdqs_dyn_E)
    SHIM_EXT_FROM(rdqs_termination)
    SHIM_EXT_FROM(rdqs_R_eq)
    SHIM_EXT_FROM(rdqs_dyn_E)
    SHIM_EXT_FROM(wdbi_termination)
    SHIM_EXT_FROM(wdbi_R_eq)
    SHIM_EXT_FROM(wdbi_dyn_E)
    SHIM_EXT_FROM(rdbi_termination)
    SHIM_EXT_FROM(rdbi_R_eq)
    SHIM_EXT_FROM(rdbi_dyn_E)
}
struct MemSpecLPDDR4 {
    static constexpr std::string_view id = "LPDDR4";
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR4 memarchitecturespec{};
    MemPowerSpecTypeLPDDR4 mempowerspec{};
    MemTimingSpecTypeLPDDR4 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR4> bankwisespec{};
    MemImpedanceSpecTypeLPDDR4 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR4, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
}
#endif
