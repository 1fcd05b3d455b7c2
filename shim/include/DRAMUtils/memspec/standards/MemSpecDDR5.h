#ifndef DRAMUTILS_MEMSPEC_STANDARDS_DDR5_H
#define DRAMUTILS_MEMSPEC_STANDARDS_DDR5_H
#include "DRAMUtils/util/json_utils.h"
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR5 { REF_MODE_1 = 1, REF_MODE_2 = 2, INVALID = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR5, { {RefModeTypeDDR5::INVALID, nullptr}, {RefModeTypeDDR5::REF_MODE_1, 1}, {RefModeTypeDDR5::REF_MODE_2, 2} })
struct MemArchitectureSpecTypeDDR5 {
    uint64_t nbrOfChannels{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfRows{};
    uint64_t width{};
    uint64_t burstLength{};
    uint64_t maxBurstLength{};
    uint64_t dataRate{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRanks{};
    uint64_t nbrOfDevices{};
    uint64_t nbrOfDIMMRanks{};
    uint64_t nbrOfPhysicalRanks{};
    uint64_t nbrOfLogicalRanks{};
    uint64_t cmdMode{};
    RefModeTypeDDR5 RefMode{};
    uint64_t RAAIMT{};
    uint64_t RAAMMT{};
    uint64_t RAADEC{};
};
inline void to_json(json_t& nlohmann_json_j, const MemArchitectureSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(nbrOfChannels)
    SHIM_EXT_TO(nbrOfColumns)
    SHIM_EXT_TO(nbrOfRows)
    SHIM_EXT_TO(width)
    SHIM_EXT_TO(burstLength)
    SHIM_EXT_TO(maxBurstLength)
    SHIM_EXT_TO(dataRate)
    SHIM_EXT_TO(nbrOfBankGroups)
    SHIM_EXT_TO(nbrOfBanks)
    SHIM_EXT_TO(nbrOfRanks)
    SHIM_EXT_TO(nbrOfDevices)
    SHIM_EXT_TO(nbrOfDIMMRanks)
    SHIM_EXT_TO(nbrOfPhysicalRanks)
    SHIM_EXT_TO(nbrOfLogicalRanks)
    SHIM_EXT_TO(cmdMode)
    SHIM_EXT_TO(RefMode)
    SHIM_EXT_TO(RAAIMT)
    SHIM_EXT_TO(RAAMMT)
    SHIM_EXT_TO(RAADEC)
}
inline void from_json(const json_t& nlohmann_json_j, MemArchitectureSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(nbrOfChannels)
    SHIM_EXT_FROM(nbrOfColumns)
    SHIM_EXT_FROM(nbrOfRows)
    SHIM_EXT_FROM(width)
    SHIM_EXT_FROM(burstLength)
    SHIM_EXT_FROM(maxBurstLength)
    SHIM_EXT_FROM(dataRate)
    SHIM_EXT_FROM(nbrOfBankGroups)
    SHIM_EXT_FROM(nbrOfBanks)
    SHIM_EXT_FROM(nbrOfRanks)
    SHIM_EXT_FROM(nbrOfDevices)
    SHIM_EXT_FROM(nbrOfDIMMRanks)
    SHIM_EXT_FROM(nbrOfPhysicalRanks)
    SHIM_EXT_FROM(nbrOfLogicalRanks)
    SHIM_EXT_FROM(cmdMode)
    SHIM_EXT_FROM(RefMode)
    SHIM_EXT_FROM(RAAIMT)
    SHIM_EXT_FROM(RAAMMT)
    SHIM_EXT_FROM(RAADEC)
}
struct MemPowerSpecTypeDDR5 {
    double vdd{};
    double idd0{};
    double idd2n{};
    double idd3n{};
    double idd4r{};
    double idd4w{};
    double idd5b{};
    double idd5c{};
    double idd5f{};
    double idd6n{};
    double idd2p{};
    double idd3p{};
    double vpp{};
    double ipp0{};
    double ipp2n{};
    double ipp3n{};
    double ipp4r{};
    double ipp4w{};
    double ipp5b{};
    double ipp5c{};
    double ipp5f{};
    double ipp6n{};
    double ipp2p{};
    double ipp3p{};
    double vddq{};
    std::optional<double> iBeta_vdd{};
    std::optional<double> iBeta_vpp{};
};
inline void to_json(json_t& nlohmann_json_j, const MemPowerSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(vdd)
    SHIM_EXT_TO(idd0)
    SHIM_EXT_TO(idd2n)
    SHIM_EXT_TO(idd3n)
    SHIM_EXT_TO(idd4r)
    SHIM_EXT_TO(idd4w)
    SHIM_EXT_TO(idd5b)
    SHIM_EXT_TO(idd5c)
    SHIM_EXT_TO(idd5f)
    SHIM_EXT_TO(idd6n)
    SHIM_EXT_TO(idd2p)
    SHIM_EXT_TO(idd3p)
    SHIM_EXT_TO(vpp)
    SHIM_EXT_TO(ipp0)
    SHIM_EXT_TO(ipp2n)
    SHIM_EXT_TO(ipp3n)
    SHIM_EXT_TO(ipp4r)
    SHIM_EXT_TO(ipp4w)
    SHIM_EXT_TO(ipp5b)
    SHIM_EXT_TO(ipp5c)
    SHIM_EXT_TO(ipp5f)
    SHIM_EXT_TO(ipp6n)
    SHIM_EXT_TO(ipp2p)
    SHIM_EXT_TO(ipp3p)
    SHIM_EXT_TO(vddq)
    SHIM_EXT_TO(iBeta_vdd)
    SHIM_EXT_TO(iBeta_vpp)
}
inline void from_json(const json_t& nlohmann_json_j, MemPowerSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(vdd)
    SHIM_EXT_FROM(idd0)
    SHIM_EXT_FROM(idd2n)
    SHIM_EXT_FROM(idd3n)
    SHIM_EXT_FROM(idd4r)
    SHIM_EXT_FROM(idd4w)
    SHIM_EXT_FROM(idd5b)
    SHIM_EXT_FROM(idd5c)
    SHIM_EXT_FROM(idd5f)
    SHIM_EXT_FROM(idd6n)
    SHIM_EXT_FROM(idd2p)
    SHIM_EXT_FROM(idd3p)
    SHIM_EXT_FROM(vpp)
    SHIM_EXT_FROM(ipp0)
    SHIM_EXT_FROM(ipp2n)
    SHIM_EXT_FROM(ipp3n)
    SHIM_EXT_FROM(ipp4r)
    SHIM_EXT_FROM(ipp4w)
    SHIM_EXT_FROM(ipp5b)
    SHIM_EXT_FROM(ipp5c)
    SHIM_EXT_FROM(ipp5f)
    SHIM_EXT_FROM(ipp6n)
    SHIM_EXT_FROM(ipp2p)
    SHIM_EXT_FROM(ipp3p)
    SHIM_EXT_FROM(vddq)
    SHIM_EXT_FROM(iBeta_vdd)
    SHIM_EXT_FROM(iBeta_vpp)
}
struct MemTimingSpecTypeDDR5 {
    double tCK{};
    uint64_t RAS{};
    uint64_t RCD{};
    uint64_t RTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RP{};
    uint64_t RFCsb{};
    uint64_t RFC1{};
    uint64_t RFC2{};
    uint64_t PPD{};
    uint64_t RL{};
    uint64_t RPRE{};
    uint64_t RPST{};
    uint64_t RDDQS{};
    uint64_t WPRE{};
    uint64_t WPST{};
    uint64_t CCD_L_slr{};
    uint64_t CCD_L_WR_slr{};
    uint64_t CCD_L_WR2_slr{};
    uint64_t CCD_M_slr{};
    uint64_t CCD_M_WR_slr{};
    uint64_t CCD_S_slr{};
    uint64_t CCD_S_WR_slr{};
    uint64_t CCD_dlr{};
    uint64_t CCD_WR_dlr{};
    uint64_t CCD_WR_dpr{};
    uint64_t RRD_L_slr{};
    uint64_t RRD_S_slr{};
    uint64_t RRD_dlr{};
    uint64_t FAW_slr{};
    uint64_t FAW_dlr{};
    uint64_t WTR_L{};
    uint64_t WTR_M{};
    uint64_t WTR_S{};
    uint64_t RFC1_slr{};
    uint64_t RFC2_slr{};
    uint64_t RFC1_dlr{};
    uint64_t RFC2_dlr{};
    uint64_t RFC1_dpr{};
    uint64_t RFC2_dpr{};
    uint64_t RFCsb_slr{};
    uint64_t RFCsb_dlr{};
    uint64_t REFI1{};
    uint64_t REFI2{};
    uint64_t REFISB{};
    uint64_t REFSBRD_slr{};
    uint64_t REFSBRD_dlr{};
    uint64_t RTRS{};
    uint64_t CPDED{};
    uint64_t PD{};
    uint64_t XP{};
    uint64_t ACTPDEN{};
    uint64_t PRPDEN{};
    uint64_t REFPDEN{};
};
inline void to_json(json_t& nlohmann_json_j, const MemTimingSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(tCK)
    SHIM_EXT_TO(RAS)
    SHIM_EXT_TO(RCD)
    SHIM_EXT_TO(RTP)
    SHIM_EXT_TO(WL)
    SHIM_EXT_TO(WR)
    SHIM_EXT_TO(RP)
    SHIM_EXT_TO(RFCsb)
    SHIM_EXT_TO(RFC1)
    SHIM_EXT_TO(RFC2)
    SHIM_EXT_TO(PPD)
    SHIM_EXT_TO(RL)
    SHIM_EXT_TO(RPRE)
    SHIM_EXT_TO(RPST)
    SHIM_EXT_TO(RDDQS)
    SHIM_EXT_TO(WPRE)
    SHIM_EXT_TO(WPST)
    SHIM_EXT_TO(CCD_L_slr)
    SHIM_EXT_TO(CCD_L_WR_slr)
    SHIM_EXT_TO(CCD_L_WR2_slr)
    SHIM_EXT_TO(CCD_M_slr)
    SHIM_EXT_TO(CCD_M_WR_slr)
    SHIM_EXT_TO(CCD_S_slr)
    SHIM_EXT_TO(CCD_S_WR_slr)
    SHIM_EXT_TO(CCD_dlr)
    SHIM_EXT_TO(CCD_WR_dlr)
    SHIM_EXT_TO(CCD_WR_dpr)
    SHIM_EXT_TO(RRD_L_slr)
    SHIM_EXT_TO(RRD_S_slr)
    SHIM_EXT_TO(RRD_dlr)
    SHIM_EXT_TO(FAW_slr)
    SHIM_EXT_TO(FAW_dlr)
    SHIM_EXT_TO(WTR_L)
    SHIM_EXT_TO(WTR_M)
    SHIM_EXT_TO(WTR_S)
    SHIM_EXT_TO(RFC1_slr)
    SHIM_EXT_TO(RFC2_slr)
    SHIM_EXT_TO(RFC1_dlr)
    SHIM_EXT_TO(RFC2_dlr)
    SHIM_EXT_TO(RFC1_dpr)
    SHIM_EXT_TO(RFC2_dpr)
    SHIM_EXT_TO(RFCsb_slr)
    SHIM_EXT_TO(RFCsb_dlr)
    SHIM_EXT_TO(REFI1)
    SHIM_EXT_TO(REFI2)
    SHIM_EXT_TO(REFISB)
    SHIM_EXT_TO(REFSBRD_slr)
    SHIM_EXT_TO(REFSBRD_dlr)
    SHIM_EXT_TO(RTRS)
    SHIM_EXT_TO(CPDED)
    SHIM_EXT_TO(PD)
    SHIM_EXT_TO(XP)
    SHIM_EXT_TO(ACTPDEN)
    SHIM_EXT_TO(PRPDEN)
    SHIM_EXT_TO(REFPDEN)
}
inline void from_json(const json_t& nlohmann_json_j, MemTimingSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(tCK)
    SHIM_EXT_FROM(RAS)
    SHIM_EXT_FROM(RCD)
    SHIM_EXT_FROM(RTP)
    SHIM_EXT_FROM(WL)
    SHIM_EXT_FROM(WR)
    SHIM_EXT_FROM(RP)
    SHIM_EXT_FROM(RFCsb)
    SHIM_EXT_FROM(RFC1)
    SHIM_EXT_FROM(RFC2)
    SHIM_EXT_FROM(PPD)
    SHIM_EXT_FROM(RL)
    SHIM_EXT_FROM(RPRE)
    SHIM_EXT_FROM(RPST)
    SHIM_EXT_FROM(RDDQS)
    SHIM_EXT_FROM(WPRE)
    SHIM_EXT_FROM(WPST)
    SHIM_EXT_FROM(CCD_L_slr)
    SHIM_EXT_FROM(CCD_L_WR_slr)
    SHIM_EXT_FROM(CCD_L_WR2_slr)
    SHIM_EXT_FROM(CCD_M_slr)
    SHIM_EXT_FROM(CCD_M_WR_slr)
    SHIM_EXT_FROM(CCD_S_slr)
    SHIM_EXT_FROM(CCD_S_WR_slr)
    SHIM_EXT_FROM(CCD_dlr)
    SHIM_EXT_FROM(CCD_WR_dlr)
    SHIM_EXT_FROM(CCD_WR_dpr)
    SHIM_EXT_FROM(RRD_L_slr)
    SHIM_EXT_FROM(RRD_S_slr)
    SHIM_EXT_FROM(RRD_dlr)
    SHIM_EXT_FROM(FAW_slr)
    SHIM_EXT_FROM(FAW_dlr)
    SHIM_EXT_FROM(WTR_L)
    SHIM_EXT_FROM(WTR_M)
    SHIM_EXT_FROM(WTR_S)
    SHIM_EXT_FROM(RFC1_slr)
    SHIM_EXT_FROM(RFC2_slr)
    SHIM_EXT_FROM(RFC1_dlr)
    SHIM_EXT_FROM(RFC2_dlr)
    SHIM_EXT_FROM(RFC1_dpr)
    SHIM_EXT_FROM(RFC2_dpr)
    SHIM_EXT_FROM(RFCsb_slr)
    SHIM_EXT_FROM(RFCsb_dlr)
    SHIM_EXT_FROM(REFI1)
    SHIM_EXT_FROM(REFI2)
    SHIM_EXT_FROM(REFISB)
    SHIM_EXT_FROM(REFSBRD_slr)
    SHIM_EXT_FROM(REFSBRD_dlr)
    SHIM_EXT_FROM(RTRS)
    SHIM_EXT_FROM(CPDED)
    SHIM_EXT_FROM(PD)
    SHIM_EXT_FROM(XP)
    SHIM_EXT_FROM(ACTPDEN)
    SHIM_EXT_FROM(PRPDEN)
    SHIM_EXT_FROM(REFPDEN)
}
struct BankWiseSpecTypeDDR5 {
    std::optional<double> factRho{};
};
inline void to_json(json_t& nlohmann_json_j, const BankWiseSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(factRho)
}
inline void from_json(const json_t& nlohmann_json_j, BankWiseSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(factRho)
}
struct MemImpedanceSpecTypeDDR5 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wdqs_termination{};
    double wdqs_R_eq{};
    double wdqs_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
};
inline void to_json(json_t& nlohmann_json_j, const MemImpedanceSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(ck_termination)
    SHIM_EXT_TO(ck_R_eq)
    SHIM_EXT_TO(ck_dyn_E)
    SHIM_EXT_TO(ca_termination)
    SHIM_EXT_TO(ca_R_eq)
    SHIM_EXT_TO(ca_dyn_E)
    SHIM_EXT_TO(rdq_termination)
    SHIM_EXT_TO(rdq_R_eq)
    SHIM_EXT_TO(rdq_dyn_E)
    SHIM_EXT_TO(wdq_termination)
    SHIM_EXT_TO(wdq_R_eq)
    SHIM_EXT_TO(wdq_dyn_E)
    SHIM_EXT_TO(wdqs_termination)
    SHIM_EXT_TO(wdqs_R_eq)
    SHIM_EXT_TO(wdqs_dyn_E)
    SHIM_EXT_TO(rdqs_termination)
    SHIM_EXT_TO(rdqs_R_eq)
    SHIM_EXT_TO(rdqs_dyn_E)
}
inline void from_json(const json_t& nlohmann_json_j, MemImpedanceSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(ck_termination)
    SHIM_EXT_FROM(ck_R_eq)
    SHIM_EXT_FROM(ck_dyn_E)
    SHIM_EXT_FROM(ca_termination)
    SHIM_EXT_FROM(ca_R_eq)
    SHIM_EXT_FROM(ca_dyn_E)
    SHIM_EXT_FROM(rdq_termination)
    SHIM_EXT_FROM(rdq_R_eq)
    SHIM_EXT_FROM(rdq_dyn_E)
    SHIM_EXT_FROM(wdq_termination)
    SHIM_EXT_FROM(wdq_R_eq)
    SHIM_EXT_FROM(wdq_dyn_E)
    SHIM_EXT_FROM(wdqs_termination)
    SHIM_EXT_FROM(wdqs_R_eq)
    SHIM_EXT_FROM(wdqs_dyn_E)
    SHIM_EXT_FROM(rdqs_termination)
    SHIM_EXT_FROM(rdqs_R_eq)
    SHIM_EXT_FROM(rdqs_dyn_E)
}
struct DataRateSpecTypeDDR5 {
    uint64_t ca_bus_rate{};
    uint64_t dq_bus_rate{};
    uint64_t dqs_bus_rate{};
};
inline void to_json(json_t& nlohmann_json_j, const DataRateSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_TO(ca_bus_rate)
    SHIM_EXT_TO(dq_bus_rate)
    SHIM_EXT_TO(dqs_bus_rate)
}
inline void from_json(const json_t& nlohmann_json_j, DataRateSpecTypeDDR5& nlohmann_json_t) {
    SHIM_EXT_FROM(ca_bus_rate)
    SHIM_EXT_FROM(dq_bus_rate)
    SHIM_EXT_FROM(dqs_bus_rate)
}
struct MemSpecDDR5 {
    static constexpr std::string_view id = "DDR5";
    std::string memoryId;
    MemArchitectureSpecTypeDDR5 memarchitecturespec{};
    MemPowerSpecTypeDDR5 mempowerspec{};
    MemTimingSpecTypeDDR5 memtimingspec{};
    std::optional<BankWiseSpecTypeDDR5> bankwisespec{};
    MemImpedanceSpecTypeDDR5 memimpedancespec{};
    std::optional<DataRateSpecTypeDDR5> dataratespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecDDR5, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec, dataratespec)
}
#endif
