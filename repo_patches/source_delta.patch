From a0eb6c7bf00d080a47d3400ee8cfff0559c54228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 01/27] fix: active power-down exit reopens exactly the banks
 that are still open

A bank whose row was closed by an automatic precharge (or whose refresh ended)
at the entry cycle was accounted active again after the exit (DDR5, LPDDR4/5/6),
and LPDDR6 made the rank active even with no open bank.
---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 8 ++++++--
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..5425ceb 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -246,12 +246,16 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         auto& rank = self.m_ranks[rank_idx];
         rank.memState = MemState::NOT_IN_PD;
         rank.cycles.powerDownAct.close_interval(exitTime);
-        rank.cycles.act.start_interval(exitTime);
+        bool rank_active = false;
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
+                rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
         }
+        if (rank_active) {
+            rank.cycles.act.start_interval(exitTime);
+        }
     });
 }
 
-- 
2.43.0


From 3cae2625d0d5d1c259139de365c9fae5fc55f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 02/27] fix: automatic precharge and power-down use the
 activation time of the bank

After an active power-down the start of the current active interval is the exit
time, and a refresh starts an interval as well; both were used as activation time
for tRAS and tRCD.
---
 src/DRAMPower/DRAMPower/dram/Bank.h                     | 3 +++
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp     | 7 ++++---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 7 ++++---
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 7 ++++---
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 7 ++++---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 7 ++++---
 6 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/dram/Bank.h b/src/DRAMPower/DRAMPower/dram/Bank.h
index d7f911d..171e04b 100644
--- a/src/DRAMPower/DRAMPower/dram/Bank.h
+++ b/src/DRAMPower/DRAMPower/dram/Bank.h
@@ -27,11 +27,13 @@ public:
 
     BankState bankState;
 public:
+    timestamp_t latestAct = 0;
     timestamp_t latestPre = 0;
     timestamp_t refreshEndTime = 0;
 
     void serialize(std::ostream& stream) const override {
         stream.write(reinterpret_cast<const char *>(&bankState), sizeof(bankState));
+        stream.write(reinterpret_cast<const char *>(&latestAct), sizeof(latestAct));
         stream.write(reinterpret_cast<const char *>(&latestPre), sizeof(latestPre));
         stream.write(reinterpret_cast<const char *>(&refreshEndTime), sizeof(refreshEndTime));
         cycles.act.serialize(stream);
@@ -41,6 +43,7 @@ public:
     }
     void deserialize(std::istream& stream) override {
         stream.read(reinterpret_cast<char *>(&bankState), sizeof(bankState));
+        stream.read(reinterpret_cast<char *>(&latestAct), sizeof(latestAct));
         stream.read(reinterpret_cast<char *>(&latestPre), sizeof(latestPre));
         stream.read(reinterpret_cast<char *>(&refreshEndTime), sizeof(refreshEndTime));
         cycles.act.deserialize(stream);
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..b010701 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -75,6 +75,7 @@ void DDR4Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     
     rank.cycles.act.start_interval_if_not_running(timestamp);
     //rank.cycles.pre.close_interval(timestamp);
+    bank.latestAct = timestamp;
 }
 
 void DDR4Core::handlePre(Rank &rank, Bank &bank, timestamp_t timestamp) {
@@ -142,7 +143,7 @@ void DDR4Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, timest
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -161,7 +162,7 @@ void DDR4Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, times
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minWriteActiveTime =  timestamp + m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -282,7 +283,7 @@ timestamp_t DDR4Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 
     for (const auto & bank : rank.banks) {
         entryTime = std::max({ entryTime,
-                                bank.counter.act == 0 ? 0 :  bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                bank.counter.act == 0 ? 0 :  bank.latestAct + m_memSpec.tRCD,
                                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                                 bank.refreshEndTime
                                 });
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index fe70f9e..464f1df 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -82,6 +82,7 @@ void DDR5Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     };
 
     bank.bankState = Bank::BankState::BANK_ACTIVE;
+    bank.latestAct = timestamp;
 }
 
 void DDR5Core::handlePre(Rank &rank, Bank &bank, timestamp_t timestamp) {
@@ -170,7 +171,7 @@ void DDR5Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, timest
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -191,7 +192,7 @@ void DDR5Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, times
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -301,7 +302,7 @@ timestamp_t DDR5Core::earliestPossiblePowerDownEntryTime(Rank &rank) {
         entryTime = std::max(
             {entryTime,
                 bank.counter.act == 0 ? 0
-                                    : bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                    : bank.latestAct + m_memSpec.tRCD,
                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                 bank.refreshEndTime});
     }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index 9acf224..87f355c 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -78,6 +78,7 @@ void LPDDR4Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     }
 
     bank.bankState = Bank::BankState::BANK_ACTIVE;
+    bank.latestAct = timestamp;
 }
 
 void LPDDR4Core::handlePre(Rank &rank, Bank &bank, timestamp_t timestamp) {
@@ -241,7 +242,7 @@ void LPDDR4Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, time
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -258,7 +259,7 @@ void LPDDR4Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, tim
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -276,7 +277,7 @@ timestamp_t LPDDR4Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 
     for (const auto & bank : rank.banks) {
         entryTime = std::max({ entryTime,
-                                bank.counter.act == 0 ? 0 :  bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                bank.counter.act == 0 ? 0 :  bank.latestAct + m_memSpec.tRCD,
                                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                                 bank.refreshEndTime
                                 });
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index 263740b..015bf29 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -91,6 +91,7 @@ void LPDDR5Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     }
 
     bank.bankState = Bank::BankState::BANK_ACTIVE;
+    bank.latestAct = timestamp;
 }
 
 void LPDDR5Core::handlePre(Rank &rank, Bank &bank, timestamp_t timestamp) {
@@ -170,7 +171,7 @@ void LPDDR5Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, time
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + this->m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -191,7 +192,7 @@ void LPDDR5Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, tim
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + this->m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -310,7 +311,7 @@ timestamp_t LPDDR5Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
         entryTime = std::max(
             {entryTime,
                 bank.counter.act == 0 ? 0
-                                    : bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                    : bank.latestAct + m_memSpec.tRCD,
                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                 bank.refreshEndTime});
     }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 5425ceb..01e0d38 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -91,6 +91,7 @@ void LPDDR6Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     }
 
     bank.bankState = Bank::BankState::BANK_ACTIVE;
+    bank.latestAct = timestamp;
 }
 
 void LPDDR6Core::handlePre(Rank &rank, Bank &bank, timestamp_t timestamp) {
@@ -168,7 +169,7 @@ void LPDDR6Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, time
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + this->m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -189,7 +190,7 @@ void LPDDR6Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, tim
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + this->m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -289,7 +290,7 @@ timestamp_t LPDDR6Core::earliestPossiblePowerDownEntryTime(Rank& rank) const {
         entryTime = std::max(
             {entryTime,
                 bank.counter.act == 0 ? 0
-                    : bank.cycles.act.get_start() + std::max(m_memSpec.tRCDR, m_memSpec.tRCDW),
+                    : bank.latestAct + std::max(m_memSpec.tRCDR, m_memSpec.tRCDW),
                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                 bank.refreshEndTime});
     }
-- 
2.43.0


From b4308d4f7c9f3a3ce5941aab7b5f6e203b3909c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 03/27] fix: read END_OF_SIMULATION back from its own name

---
 src/DRAMPower/DRAMPower/command/CmdType.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/command/CmdType.h b/src/DRAMPower/DRAMPower/command/CmdType.h
index 67a4a07..2a1b764 100644
--- a/src/DRAMPower/DRAMPower/command/CmdType.h
+++ b/src/DRAMPower/DRAMPower/command/CmdType.h
@@ -102,7 +102,7 @@ namespace CmdTypeUtil
 			return CmdType::DSMEN;
 		if (str == "DSMEX")
 			return CmdType::DSMEX;
-		if (str == "END")
+		if (str == "END" || str == "END_OF_SIMULATION")
 			return CmdType::END_OF_SIMULATION;
 		return CmdType::NOP;
 	};
-- 
2.43.0


From b38f34fe0b23ed02d16e6da09115bccb5eeffc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 04/27] fix: reject data words of a command list that are not
 hexadecimal

---
 src/cli/lib/DRAMPower/cli/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/util.cpp b/src/cli/lib/DRAMPower/cli/util.cpp
index 290b477..c459651 100644
--- a/src/cli/lib/DRAMPower/cli/util.cpp
+++ b/src/cli/lib/DRAMPower/cli/util.cpp
@@ -24,6 +24,12 @@ std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view da
 	{
 		hexString = data;
 	}
+
+	// std::stoi would accept signs, blanks and a trailing invalid digit
+	if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+	{
+		throw std::invalid_argument("Invalid hex string digit");
+	}
 	
 	// Allocate memory for the array and fill it
 	auto content = std::make_unique<uint8_t[]>(size);
-- 
2.43.0


From ee0f5cff26ccb284395522cd13968fcf1ae123f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 05/27] fix: LPDDR5 specification without bank groups no longer
 divides by zero

---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5eb179a..98a7547 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -8,7 +8,8 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
 {
     numberOfBankGroups      = memspec.memarchitecturespec.nbrOfBankGroups;
     numberOfRanks           = memspec.memarchitecturespec.nbrOfRanks;
-    banksPerGroup           = numberOfBanks / numberOfBankGroups;
+    // Zero bank groups is accepted as 16B/8B architecture
+    banksPerGroup           = numberOfBankGroups == 0 ? numberOfBanks : numberOfBanks / numberOfBankGroups;
 
     memTimingSpec.tCK       = memspec.memtimingspec.tCK;
     memTimingSpec.WCKtoCK   = memspec.memtimingspec.WCK2CK;
-- 
2.43.0


From ad1898932ad5e05bd75a083723ee92ec2f370b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 06/27] fix: simulations can be assigned

DDR4, LPDDR4 and LPDDR5 declare copy and move assignment, but a const member of
their DBI pins made the declared operators impossible to use.
---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..9679166 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -221,7 +221,7 @@ private:
     pin_stats_t m_stats;
 
     PinState m_last_state = PinState::Z;
-    const PinState m_idle_state = PinState::L;
+    PinState m_idle_state = PinState::L;
 
     bool m_init_load = true;
 
-- 
2.43.0


From 6531aef209f5e7bcdbf9788d9a3693feaa8da89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 07/27] fix: DDR5 self-refresh exit has a command pattern

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..b35686d 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX (signalled with NOP)
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From 9e25260bbd6d5aea312a209d9c8f628c1940a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 08/27] fix: data bus inversion lines idle between bursts
 without an extra beat

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp    | 6 +++++-
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp          | 6 +++++-
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp          | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..7f8ec0d 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -32,7 +32,11 @@ namespace DRAMPower {
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
         , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+            [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+            // The pin idles after its burst; a reset of an earlier burst is no beat of this burst
+            if (chunk_timestamp < load_timestamp) {
+                return;
+            }
             this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
         }, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..142877a 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -32,7 +32,11 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // The pin idles after its burst; a reset of an earlier burst is no beat of this burst
+        if (chunk_timestamp < load_timestamp) {
+            return;
+        }
         this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
     }, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..b90af99 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -31,7 +31,11 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // The pin idles after its burst; a reset of an earlier burst is no beat of this burst
+        if (chunk_timestamp < load_timestamp) {
+            return;
+        }
         this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
     }, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
-- 
2.43.0


From 73049e5eba9fa8d4f89867129e1ced53998e4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 09/27] fix: data bus inversion decides on all bytes of a group

---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..7c5b2f2 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return COUNT_DATA - 1 == m_current_data_idx;
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From fcca3fae6d399e1a456d0839aa1288d2d3a543f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 10/27] fix: inversion flags of a burst longer than the first
 one are kept

---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..9f2bae1 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From 22a71da5c4e6a8a162d8c1df55b658ecb883824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 11/27] fix: LPDDR6 command/address parity bit is driven

---
 .../DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index b7a9320..3ee7f6d 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -154,13 +154,19 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         }
 
         // Parity
-        if (extraData.parity_check_mode && PAR == pattern[2]) {
+        if (extraData.parity_check_mode) {
             // When CA Parity is enabled, the Host 
             // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
             // signals, excluding the CA Parity bit
-            bitset[pattern.size() - 3] = (1 == bitset.count() % 2);
+            constexpr std::size_t word_size = 16; // 2 rising and 2 falling edges of 4 signals
+            for (std::size_t begin = 0; begin + word_size <= pattern.size(); begin += word_size) {
+                if (PAR == pattern[begin + 3]) {
+                    const std::size_t low = pattern.size() - begin - word_size;
+                    const std::bitset<word_size> word((bitset >> low).to_ullong() & 0xFFFF);
+                    bitset[low + word_size - 1 - 3] = (1 == word.count() % 2);
+                }
+            }
         }
-
         return bitset.to_ullong();
 }
 
-- 
2.43.0


From 7dcfad74fdd0dbb9582eafc5c52c841d1809df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 12/27] fix: data bus inversion lines are counted at the data
 rate of the bus

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 7f8ec0d..0884c89 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -368,10 +368,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index 142877a..d1b8e52 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -258,10 +258,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index b90af99..11465a8 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -389,10 +389,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From 970f5bef997ee6d370a884f0e4556efeeafafc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 13/27] fix: data bus inversion state and LPDDR6 metadata are
 part of a saved simulation

LPDDR4, LPDDR5 and LPDDR6 did not save the inversion state (enable, pins, last
burst); LPDDR6 did not save the metadata either. DBI read its last beat and
inverted data with another element type than it wrote.
---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 10 ++++++++++
 src/DRAMPower/DRAMPower/util/dbi.h                 |  4 ++--
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index d1b8e52..d3421d6 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -278,6 +278,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -287,6 +294,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 11465a8..3cd53c5 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -404,6 +404,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -413,6 +420,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..b7d7d4e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,11 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& metaData : m_formatter.m_metaData) {
+        stream.write(reinterpret_cast<const char*>(&metaData), sizeof(metaData));
+    }
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +393,11 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& metaData : m_formatter.m_metaData) {
+        stream.read(reinterpret_cast<char*>(&metaData), sizeof(metaData));
+    }
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 9f2bae1..cc72bfc 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -341,7 +341,7 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
+            DataType_t byte;
             stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
             m_invertedData.push_back(byte);
         }
-- 
2.43.0


From dd78682fdc6cc48941a30e027a5a29a700a75d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 14/27] fix: dynamic_bitset keeps bits beyond its size out of
 comparison and access

set(), flip() and the complement filled the unused bits of the last block,
so equal bit vectors compared unequal, and elements beyond the size could be
read and written.
---
 src/DRAMPower/DRAMPower/util/dynamic_bitset.h | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
index cc0eb2b..ac29dcc 100644
--- a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
+++ b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
@@ -10,6 +10,7 @@
 #include <cstdint>
 #include <cassert>
 #include <bitset>
+#include <stdexcept>
 #include <type_traits>
 
 namespace DRAMPower::util
@@ -47,6 +48,18 @@ public:
         }
     }
     dynamic_bitset() = default;
+private:
+    // Bits beyond the size stay zero
+    void trim() {
+        if (num_bits % blocksize != 0) {
+            buffer.back() &= lastelementmask;
+        }
+    }
+    void checkRange(std::size_t n) const {
+        if (n >= num_bits) {
+            throw std::out_of_range("Index out of range");
+        }
+    }
 public:
     dynamic_bitset(const dynamic_bitset&) = default;
     dynamic_bitset(dynamic_bitset&&) noexcept = default;
@@ -86,12 +99,14 @@ public: // element manipulation
         makeLastElementMask();
     }
     void set(std::size_t n, bool value) {
+        checkRange(n);
         buffer.at(n / blocksize).set(n % blocksize, value);
     }
     void set() {
         for (auto &element : buffer) {
             element.set();
         }
+        trim();
     }
     void reset() {
         for (auto &element : buffer) {
@@ -102,8 +117,10 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.flip();
         }
+        trim();
     }
     void flip(std::size_t n) {
+        checkRange(n);
         buffer.at(n / blocksize).flip(n % blocksize);
     }
     void clear() {
@@ -114,8 +131,8 @@ public: // element access
     // inline auto at(std::size_t n) -> decltype(buffer.at(n)) { return buffer.at(n); }
     // inline auto at(std::size_t n) -> decltype(buffer.at(n)) const { return buffer.at(n); }
 public:
-    inline auto operator[](std::size_t n) { return buffer.at(n / blocksize).test(n % blocksize); };
-    inline auto operator[](std::size_t n) const { return buffer.at(n / blocksize).test(n % blocksize); };
+    inline auto operator[](std::size_t n) { checkRange(n); return buffer.at(n / blocksize).test(n % blocksize); };
+    inline auto operator[](std::size_t n) const { checkRange(n); return buffer.at(n / blocksize).test(n % blocksize); };
 public: // comparison operations
     template <std::size_t blocksize_rhs, std::enable_if_t<blocksize == blocksize_rhs, int> = 0>
     bool operator==(const dynamic_bitset<blocksize_rhs>& rhs) const {
@@ -162,6 +179,7 @@ public: // bitset operations
         for (std::size_t i = 0; i < this->buffer.size(); ++i) {
             bitset.buffer.at(i) = ~buffer.at(i);
         };
+        bitset.trim();
     
         return bitset;
     }
-- 
2.43.0


From f684433de3cb33d0b789f4f06d9c977e9288d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 15/27] fix: extension hooks beyond bit 31 are cached under
 their own position

The mask 1 << i is an int shift, undefined (in practice wrapping) for the
upper hooks of a 64-bit hook enumeration: extensions were called for hooks
they do not support and not called for hooks they do.
---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..09173ec 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -179,7 +179,7 @@ private:
 
         const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());
         for (std::size_t i = 0; i < m_hookCache.size(); ++i) {
-            if ((supportedHooks & (1 << i)) != 0) {
+            if ((supportedHooks & (HookValue_t{1} << i)) != 0) {
                 m_hookCache[i].push_back(extension);
             }
         }
-- 
2.43.0


From 0abaac3472f10473d39e92287f9f5a3e7b11b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 16/27] fix: DDR5 toggling-rate data energy asks the
 termination setting, not the resistance

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From f7f47bc7fc245db3e1765237b41a51442c4ac3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 17/27] fix: DDR4 rank statistics carry the command counts the
 strobe energy is computed from

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index b010701..3a18c23 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -302,8 +302,10 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
     for (size_t i = 0; i < m_memSpec.numberOfRanks; ++i) {
         const Rank &rank = m_ranks[i];
         size_t bank_offset = i * m_memSpec.numberOfBanks;
+        stats.rank_total[i].counter = command_stats_t{};
         for (size_t j = 0; j < m_memSpec.numberOfBanks; ++j) {
             stats.bank[bank_offset + j].counter = rank.banks[j].counter;
+            stats.rank_total[i].counter += rank.banks[j].counter;
             stats.bank[bank_offset + j].cycles.act =
                 rank.banks[j].cycles.act.get_count_at(timestamp);
             stats.bank[bank_offset + j].cycles.selfRefresh =
-- 
2.43.0


From 9fef3c8f4ca63127046f0b75a0f0a49b144b9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 18/27] fix: print the dual-bank refresh energy in the command
 line result

---
 src/cli/lib/DRAMPower/cli/util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/util.hpp b/src/cli/lib/DRAMPower/cli/util.hpp
index 96e56f7..b622a7f 100644
--- a/src/cli/lib/DRAMPower/cli/util.hpp
+++ b/src/cli/lib/DRAMPower/cli/util.hpp
@@ -81,7 +81,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               "REF_AB: {} "
                               "REF_PB: {} "
                               "REF_SB: {} "
-                              "REF_2B: {}",
+                              "REF_2B: {} "
+                              "REF_DB: {}",
                               ei.E_act,
                               ei.E_pre,
                               ei.E_bg_act,
@@ -95,7 +96,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               ei.E_ref_AB,
                               ei.E_ref_PB,
                               ei.E_ref_SB,
-                              ei.E_ref_2B);
+                              ei.E_ref_2B,
+                              ei.E_ref_DB);
     }
 };
 
-- 
2.43.0


From 3c2a09f103a5ec25af2cf1fca1640c804bed0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 19/27] fix: resolve relative symlinks of the result file
 against their own directory

---
 src/cli/main/validators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 9ad3bb4..964ed38 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -28,7 +28,8 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     // The path exists and is a symlink -> resolve the symlink chain
     std::filesystem::path resolved = filepath;
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
-        resolved = std::filesystem::read_symlink(resolved);
+        // A relative target is relative to the directory of the link
+        resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From d146ee4fc06f494f2f12e895738aa1ef3c1cc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 20/27] fix: count a bus switched off and on again from the
 switching-on only

The end of the burst storage was used as the start of the idle time even
after the storage was cleared by disable(), so every re-enabled bus counted
its idle beats from time zero again, and the pending statistics of a burst
loaded at the very time of disable() were counted although the bus was off.
---
 src/DRAMPower/DRAMPower/util/bus.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..3c22301 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -91,14 +91,16 @@ private:
 
 	void advance_stats(timestamp_t virtual_timestamp, stats_t& stats) const {
 		// Advance counters to new timestamp
-		timestamp_t burstStorageEndTime = this->burst_storage.endTime();
+		// Without a burst since the (re-)enable the bus is idle from last_load on
+		const bool burstLoaded = this->burst_storage.size() != 0;
+		timestamp_t burstStorageEndTime = burstLoaded ? this->burst_storage.endTime() : this->last_load;
 		// Burst storage
 		timestamp_t lastburstEnd = std::min(burstStorageEndTime, virtual_timestamp);
 		for (timestamp_t t = this->last_load; 0 != lastburstEnd && t < lastburstEnd - 1; ++t) {
 			stats += diff(this->at(t), this->at(t + 1)); // Last: (virtual_timestamp - 2, virtual_timestamp - 1)
 		}
 		// Burst to idle
-		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > 0) {
+		if (virtual_timestamp > burstStorageEndTime && burstLoaded) {
 			// Burst to idle
 			stats += diff(this->at(burstStorageEndTime - 1), this->at(burstStorageEndTime));
 		}
@@ -201,6 +203,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
-- 
2.43.0


From 962138616d09a3982c86a20f8c6587a5df797b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 21/27] fix: an extension registered again replaces the earlier
 one

The replaced extension stayed in the list of saved extensions, where its
expired pointer made every save fail, and in the hook lists, where its
hooks kept running.
---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 09173ec..fd514f7 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -2,6 +2,7 @@
 #define DRAMPOWER_UTIL_EXTENSION_MANAGER
 
 #include "DRAMPower/util/Serialize.h"
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
 #include <typeindex>
@@ -63,6 +64,11 @@ protected:
 
         auto ext = std::make_shared<T>(std::forward<Args>(args)...);
         auto typeIndex = std::type_index(typeid(T));
+        if (auto it = m_extensions.find(typeIndex); it != m_extensions.end()) {
+            // The extension replaces the one registered before
+            m_serStorage.erase(std::remove_if(m_serStorage.begin(), m_serStorage.end(),
+                [&it](const auto& wp) { return wp.lock() == it->second; }), m_serStorage.end());
+        }
         m_extensions[typeIndex] = ext;
         m_serStorage.emplace_back(ext);
         return ext;
@@ -195,6 +201,11 @@ public:
     // Register an extension, forwarding any additional arguments.
     template <typename T, typename... Args>
     void registerExtension(Args&&... args) {
+        if (auto replaced = this->template getExtension<T>().lock()) {
+            for (auto& extensions : m_hookCache) {
+                extensions.erase(std::remove(extensions.begin(), extensions.end(), replaced), extensions.end());
+            }
+        }
         updateHookCache(this->template registerExtension_impl<T>(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From b9e25f2543992cc2a6872bdf0ac5589bd3d21a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 22/27] fix: banks per group of an LPDDR5 memory whose bank
 architecture is not known

---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 98a7547..e1bfb89 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -95,6 +95,7 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
         bank_arch = BankArchitectureMode::M16B;
         numberOfBanks = 16;
         numberOfBankGroups = 1;
+        banksPerGroup = 16;
     };
 
     if (numberOfBanks == 16) {
-- 
2.43.0


From 27cd8b612261b4aa9277daa849ddbe818a554a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 23/27] fix: an implicit command that adds another one

---
 src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h b/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
index 8a2946d..f5f4c1e 100644
--- a/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
+++ b/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
@@ -51,10 +51,11 @@ public:
     void processImplicitCommandQueue(CommandContext_t context, timestamp_t timestamp, timestamp_t &last_command_time) {
         while (!m_implicitCommandList.empty() && m_implicitCommandList.front().first <= timestamp) {
             // Execute implicit command functor
-            auto& [i_timestamp, i_implicitCommand] = m_implicitCommandList.front();
+            // The entry leaves the list first: the functor may add implicit commands
+            auto [i_timestamp, i_implicitCommand] = std::move(m_implicitCommandList.front());
+            m_implicitCommandList.pop_front();
             i_implicitCommand(context);
             last_command_time = i_timestamp;
-            m_implicitCommandList.pop_front();
         }
     }
 
@@ -86,10 +87,11 @@ public:
     void processImplicitCommandQueue(timestamp_t timestamp, timestamp_t &last_command_time) {
         while (!m_implicitCommandList.empty() && m_implicitCommandList.front().first <= timestamp) {
             // Execute implicit command functor
-            auto& [i_timestamp, i_implicitCommand] = m_implicitCommandList.front();
+            // The entry leaves the list first: the functor may add implicit commands
+            auto [i_timestamp, i_implicitCommand] = std::move(m_implicitCommandList.front());
+            m_implicitCommandList.pop_front();
             i_implicitCommand();
             last_command_time = i_timestamp;
-            m_implicitCommandList.pop_front();
         }
     }
 
-- 
2.43.0


From 7586ec8f4b560c99d72764977e78d1f47861e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 24/27] fix: commands for a rank or bank the memory does not
 have

---
 src/DRAMPower/DRAMPower/util/RegisterHelper.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/RegisterHelper.h b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
index e5c2d35..b455d0d 100644
--- a/src/DRAMPower/DRAMPower/util/RegisterHelper.h
+++ b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
@@ -24,6 +24,9 @@ namespace coreHelpers {
     decltype(auto) bankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
         assert(ranks.at(cmd.targetCoordinate.rank).banks.size()>cmd.targetCoordinate.bank);
+        if (cmd.targetCoordinate.bank >= ranks.at(cmd.targetCoordinate.rank).banks.size()) {
+            throw std::invalid_argument("Invalid bank targetcoordinate");
+        }
 
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.targetCoordinate.bank, cmd.timestamp);
     }
@@ -39,6 +42,9 @@ namespace coreHelpers {
     template<typename Func, typename Owner, typename Command_t = Command>
     decltype(auto) rankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
+        if (cmd.targetCoordinate.rank >= ranks.size()) {
+            throw std::invalid_argument("Invalid rank targetcoordinate");
+        }
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.timestamp);
     }
 
-- 
2.43.0


From f0dd3f88614f168dde288bf29fd2f81c39ae66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 25/27] fix: bursts of a pin at a data rate above one

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 9679166..1005268 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From e74753dd321ec05b152dba38a7642b3cd28878a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 26/27] fix: dynamic inversion after a burst of one beat

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index cc72bfc..5e835b7 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -352,7 +352,7 @@ public:
 private:
     void saveLastBurst(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
         if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
+            && m_lastBurst.beats() != 0 && m_invertedData.size() >= m_width.value() / DATATYPEDIGITS) // at least one beat is required
         {
             assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
             m_lastBurst.m_lastbeat.clear();
@@ -364,7 +364,7 @@ private:
 
     AlgorithmPreviousOptional_t createPreviousIterator(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
         if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
+            && m_lastBurst.beats() != 0 && m_invertedData.size() >= m_width.value() / DATATYPEDIGITS) // at least one beat is required
         {
             assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
             // Create concat iterator of lastburst and current burst
-- 
2.43.0


From 6bcdd5fa8dbbac7ff5b2ffae4a7693f633b702c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 27/27] fix: dynamic inversion tells each chunk once when the
 bus width is unknown

---
 src/DRAMPower/DRAMPower/util/dbialgos.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbialgos.h b/src/DRAMPower/DRAMPower/util/dbialgos.h
index a3b5482..aa599c4 100644
--- a/src/DRAMPower/DRAMPower/util/dbialgos.h
+++ b/src/DRAMPower/DRAMPower/util/dbialgos.h
@@ -73,8 +73,10 @@ struct DynamicDBI {
         if (!previous) {
             // No previous burst -> cannot compute transitions
             for (; cur_it != cur_end; ++cur_it) {
-                std::forward<InvertCallbackFunctor>(invert_callback)(
-                    false, cur_it.getTotalChunkIdx());
+                if (cur_it.last()) {
+                    std::forward<InvertCallbackFunctor>(invert_callback)(
+                        false, cur_it.getTotalChunkIdx());
+                }
             }
         } else {
             auto [prev_it, prev_end] = *previous;
-- 
2.43.0

