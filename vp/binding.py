"""Binding of the specification's names to the memory-specification files of the library."""

STDS = ["DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"]


def memspec(std, m):
    """overrides of the base specification for the raw fields m of MemSpecDerive"""
    arch, tim = {}, {}

    def a(field, key):
        if key in m: arch[field] = m[key]

    def t(field, key):
        if key in m: tim[field] = m[key]
    for f, k in (("nbrOfRanks", "NR"), ("nbrOfBanks", "NB"), ("nbrOfBankGroups", "NBG"), ("nbrOfDevices", "ND"), ("width", "W"),
                 ("burstLength", "BL"), ("dataRate", "DR"), ("nbrOfRows", "ROWS"), ("nbrOfColumns", "COLS")):
        a(f, k)
    if "GIVEN" in m: arch["nbrOfBanks"], arch["nbrOfBankGroups"] = m["GIVEN"]
    if "BL" in m: arch["maxBurstLength"] = max(m["BL"], m.get("MAXBL", 0))
    for f, k in (("RAS", "RAS"), ("WL", "WL"), ("WR", "WR")):
        t(f, k)
    if std == "DDR4":
        a("RefMode", "REFM")
        for f, k in (("RP", "RP"), ("RCD", "RCD"), ("RTP", "RTP"), ("AL", "AL"), ("RFC1", "RFC"), ("RFC2", "RFC2"), ("RFC4", "RFC4")): t(f, k)
    elif std == "DDR5":
        a("RefMode", "REFM")
        for f, k in (("RP", "RP"), ("RCD", "RCD"), ("RTP", "RTP"), ("RFC1_slr", "RFC"), ("RFC2_slr", "RFC2"), ("RFCsb_slr", "RFCp")): t(f, k)
    elif std == "LPDDR4":
        for f, k in (("RPpb", "RP"), ("RCD", "RCD"), ("RTP", "RTP"), ("RFCab", "RFC"), ("RFCpb", "RFCp"), ("REFI", "REFI")): t(f, k)
    elif std == "LPDDR5":
        for f, k in (("RPpb", "RP"), ("RCD_S", "RCD"), ("RBTP", "RTP"), ("RFCab", "RFC"), ("RFCpb", "RFCp"), ("REFI", "REFI"), ("WCK2CK", "WCK2CK")): t(f, k)
        if "WCKON" in m: arch["WCKalwaysOn"] = bool(m["WCKON"])
    elif std == "LPDDR6":
        for f, k in (("RPpb", "RP"), ("RCD_r", "RCD"), ("RCD_w", "RCD2"), ("RBTP", "RTP"), ("RFCab", "RFC"), ("RFCdb", "RFCp"), ("REFI", "REFI"), ("WCK2CK", "WCK2CK")): t(f, k)
        if "WCKON" in m: arch["WCKalwaysOn"] = bool(m["WCKON"])
    r = {"memarchitecturespec": arch, "memtimingspec": tim}
    if std == "DDR5" and "DQSR" in m:
        r["dataratespec"] = {"dqs_bus_rate": m["DQSR"]}
    return r


def simcfg(sim):
    """toggling definition in sixteenths"""
    if not sim: return None
    return {"toggleRateDefinition": {"togglingRateRead": sim[0] / 16, "togglingRateWrite": sim[1] / 16, "dutyCycleRead": sim[2] / 16,
                                     "dutyCycleWrite": sim[3] / 16, "idlePatternRead": sim[4], "idlePatternWrite": sim[5]}}


# timing fields that scale with the clock period (used by the large-number variants)
KTIME = {
    "DDR4": ["RP", "RCD", "RTP", "AL", "RFC1", "RFC2", "RFC4", "RAS", "WL", "WR"],
    "DDR5": ["RP", "RCD", "RTP", "RFC1_slr", "RFC2_slr", "RFCsb_slr", "RAS", "WL", "WR"],
    "LPDDR4": ["RPpb", "RCD", "RTP", "RFCab", "RFCpb", "RAS", "WL", "WR"],
    "LPDDR5": ["RPpb", "RCD_S", "RBTP", "RFCab", "RFCpb", "RAS", "WL", "WR"],
    "LPDDR6": ["RPpb", "RCD_r", "RCD_w", "RBTP", "RFCab", "RFCdb", "RAS", "WL", "WR"],
}
