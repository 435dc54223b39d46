From 2533607a581e76bbede03876f8f687747a4c1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 01/22] fix: poll only read-period registers while the read
 rate limit is exceeded

TScheduler::AccumulateNext() ignored TItemSelectionPolicy::OnlyHighPriority when no
high priority item was ready and selected low priority items, so one more range of
registers was read after rate_limit had already been exceeded.
---
 src/poll_plan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poll_plan.h b/src/poll_plan.h
index d4ece20..444e653 100644
--- a/src/poll_plan.h
+++ b/src/poll_plan.h
@@ -268,7 +268,7 @@ public:
                 firstItem = false;
             }
         } else {
-            if (LowPriorityQueue.HasReadyItems(currentTime)) {
+            if (policy == TItemSelectionPolicy::All && LowPriorityQueue.HasReadyItems(currentTime)) {
                 const auto pollLimit = GetLowPriorityPollLimit(currentTime);
                 bool firstItem = true;
                 // Set maximum allowed poll limit to first low priority item,
-- 
2.43.0


From 4f2404396de3c5f6d79cda50cd0dc668d4ac5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 02/22] fix: reject read responses with less data than
 requested

---
 src/modbus_common.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..9177595 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -634,6 +634,17 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // Response PDU with correct byte count field can still contain less data than requested
+    void CheckReadDataSize(const std::vector<uint8_t>& data, Modbus::EFunction function, size_t registerCount)
+    {
+        // 2 bytes of function code and byte count
+        auto expectedSize = Modbus::CalcResponsePDUSize(function, registerCount) - 2;
+        if (data.size() < expectedSize) {
+            throw Modbus::TMalformedResponseError("not enough data: " + std::to_string(data.size()) +
+                                                  " bytes, expected " + std::to_string(expectedSize));
+        }
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
@@ -641,6 +652,7 @@ namespace Modbus // modbus protocol common utilities
                            Modbus::TRegisterCache& cache)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
+        CheckReadDataSize(data, function, range.GetCount());
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1073,6 +1085,7 @@ namespace Modbus // modbus protocol common utilities
                                       frameTimeout);
 
         auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        CheckReadDataSize(data, function, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From 4c30a9ead1dca1187e8e2ce09b11fc1accccc0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 03/22] fix: keep register cache up to date on single word
 writes, do not use absent address of write-only registers

---
 src/modbus_common.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 9177595..7e2ebb8 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -517,14 +517,14 @@ namespace Modbus // modbus protocol common utilities
                                           Modbus::TRegisterCache& tmpCache)
     {
         uint16_t cachedValue = 0;
-        auto address = 0;
+        uint32_t address = 0;
         auto bitWidth = reg.GetDataWidth();
         auto updateCache = false;
 
-        // use cache only for "partial" registers
-        if (bitWidth < 16) {
+        if (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
             address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
-            if (cache.count(address)) {
+            // "full" registers don't need old value, but other registers can share the same word
+            if (bitWidth < 16 && cache.count(address)) {
                 cachedValue = cache.at(address);
             }
             updateCache = true;
-- 
2.43.0


From 13305e3cc41518f8da45982028d5811d78a0ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 04/22] fix: do not keep unsupported registers in the polling
 queue

A device without readable registers stayed on the top of the scheduler with nothing to read
and blocked polling of all other devices of the port.
---
 src/pollable_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 057d43b..5a06af0 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -145,7 +145,10 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
     if (reg->IsExcludedFromPolling()) {
         // If register is sporadic it must be read once to get actual value
         // Keep polling it until successful read
-        if (reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined) {
+        // Unavailable register will never be read, so it must not occupy the queue
+        if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE &&
+            reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
+        {
             Registers.AddEntry(reg, currentTime + std::chrono::microseconds(1));
         }
         return;
-- 
2.43.0


From e138befaedf9a56f0be74041269553ae40b0f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 05/22] fix: do not schedule disconnected device before its
 registers are ready to be read

Such a device had nothing to read when its turn came and blocked polling of all other devices of the port.
---
 src/serial_client_register_poller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..2218af3 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -143,7 +143,7 @@ void TSerialClientRegisterPoller::ScheduleNextPoll(PPollableDevice device, stead
         if (device->GetDevice()->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
             delay = device->GetDisconnectedPollDelay();
             if (delay.count()) {
-                deadline = currentTime + delay;
+                deadline = std::max(deadline, currentTime + delay);
                 LOG(Debug) << "Device " << device->GetDevice()->ToString() << " poll delayed for " << delay.count()
                            << " ms";
             }
-- 
2.43.0


From 19c7dbe8867854b63e11916a51df037a14077733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 06/22] fix: do not crash on writing of a string register by
 single word requests

Value of the register was treated as a number, the exception was not caught by the polling thread.
---
 src/modbus_common.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 7e2ebb8..ed22bdf 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -749,6 +749,20 @@ namespace Modbus // modbus protocol common utilities
                              requestDelay,
                              responseTimeout,
                              frameTimeout);
+        } else if (reg.IsString()) {
+            // Every word of the string has its own request
+            size_t regCount = ComposeRawMultipleWriteRequestData(data, reg, value, cache, tmpCache);
+            for (size_t i = 0; i < regCount; ++i) {
+                WriteTransaction(traits,
+                                 port,
+                                 slaveId,
+                                 fn,
+                                 Modbus::CalcResponsePDUSize(fn, 1),
+                                 Modbus::MakePDU(fn, addr + i, 1, {data[i * 2], data[i * 2 + 1]}),
+                                 requestDelay,
+                                 responseTimeout,
+                                 frameTimeout);
+            }
         } else {
             // Note: word order feature currently is not supported by HOLDING_SINGLE registers.
             auto requestsCount = InferWriteRequestsCount(reg);
-- 
2.43.0


From 90d1e6de0b3e43ab472a17a19b3d25f6570a4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 07/22] fix: write empty strings and chars with codes over 127
 correctly

Sign extension of the second char of a word corrupted the first one. Empty string led to a request without registers.
---
 src/modbus_common.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index ed22bdf..946b8fe 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -422,11 +422,14 @@ namespace Modbus // modbus protocol common utilities
                                         const TRegisterConfig& reg,
                                         const std::string& str)
     {
-        auto size = reg.Format == RegisterFormat::String8 ? str.size() / 2 + str.size() % 2 : str.size();
+        // Empty string is written as a single terminating zero
+        auto size = std::max(reg.Format == RegisterFormat::String8 ? (str.size() + 1) / 2 : str.size(), size_t(1));
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
+        auto getChar = [&](size_t i) { return i < str.size() ? static_cast<uint8_t>(str[i]) : uint8_t(0); };
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            words[i] =
+                reg.Format == RegisterFormat::String8 ? getChar(i * 2) << 8 | getChar(i * 2 + 1) : getChar(i);
         }
     }
 
-- 
2.43.0


From fc0d9d87f103ddf62e0f8eced9297673e3b05d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 08/22] fix: do not lose setup items preceding a bit field item
 of the same type

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 946b8fe..08ea20b 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -906,7 +906,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From f2d59f4cd8ce8e36ac468f8939db24d9b9e67691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 09/22] fix: read bit field setup items of modbus-io devices
 from their own addresses

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 08ea20b..76cb98d 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -874,7 +874,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From 16ca649b63ef2c39c21f63ab56e28c69b3262ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 10/22] fix: prepare device again if writing of its setup items
 failed

---
 src/serial_device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..5041539 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -117,6 +117,11 @@ void TSerialDevice::Prepare(TPort& port, TDevicePrepareMode prepareMode)
         }
     } catch (const TSerialDeviceException& ex) {
         SetTransferResult(false);
+        // Some requests of the failed preparation could succeed and mark the device as connected.
+        // It must be prepared again from the beginning
+        if (deviceWasDisconnected && ConnectionState == TDeviceConnectionState::CONNECTED) {
+            SetDisconnected();
+        }
         throw;
     }
 }
-- 
2.43.0


From 7abc781a45e17fa781aead6345438cdd1860aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 11/22] fix: take into account only holes between registers
 that are really read together

---
 src/modbus_common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 76cb98d..c3bf0c9 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -135,6 +135,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         size_t extend;
+        bool hasHoles = false;
         if (RegisterList().empty()) {
             extend = widthInWords;
         } else {
@@ -156,10 +157,8 @@ namespace Modbus // modbus protocol common utilities
                 return false;
             }
 
-            auto hasHoles = Start + Count < addr;
-            if (continuousReadEnabled) {
-                HasHolesFlg = HasHolesFlg || hasHoles;
-            } else {
+            hasHoles = Start + Count < addr;
+            if (!continuousReadEnabled) {
                 if (RegisterList().back()->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                     // Read UNKNOWN 2 byte registers one by one to find availability
                     if (!isSingleBit) {
@@ -183,7 +182,6 @@ namespace Modbus // modbus protocol common utilities
                     if (reg->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                         return false;
                     }
-                    HasHolesFlg = HasHolesFlg || hasHoles;
                 }
             }
 
@@ -216,6 +214,7 @@ namespace Modbus // modbus protocol common utilities
 
             RegisterList().push_back(reg);
             Count += extend;
+            HasHolesFlg = HasHolesFlg || hasHoles;
             return true;
         }
         if (newPollTime > pollLimit) {
-- 
2.43.0


From 5c40c55367cf9469221eb023514c1c1729c98a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 12/22] fix: do not poll disconnected device while its polling
 is suspended

---
 src/serial_client_register_poller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 2218af3..c81faf8 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -340,6 +340,10 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        // The device will be rescheduled on resuming of its poll
+        if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-- 
2.43.0


From ec49c7ce8a972e2433bd41900e24d83b7168a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 13/22] fix: do not stop polling of low priority registers
 because of one with too long read time

---
 src/serial_client_register_poller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index c81faf8..e818571 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -246,6 +246,10 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
         } else {
             // Low priority registers are limited by high priority and maxPollingTime
             res.Deadline = std::min(Scheduler.GetHighPriorityDeadline(), spentTime.GetStartTime() + maxPollingTime);
+            // Registers with too long read time must not block polling of all low priority registers,
+            // so count waiting time as high priority poll time to reach time balancing threshold
+            Scheduler.UpdateSelectionTime(ceil<milliseconds>(res.Deadline - spentTime.GetStartTime()),
+                                          TPriority::High);
         }
         return res;
     }
-- 
2.43.0


From fc7a15ea38b264c3a3c8bd7b6b64d85aad6532fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 14/22] fix: keep increasing poll delay of a device that
 disconnects again and again

---
 src/serial_client_register_poller.cpp | 14 ++++++++++----
 src/serial_client_register_poller.h   |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index e818571..760b23c 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -160,7 +160,7 @@ void TSerialClientRegisterPoller::ClosedPortCycle(steady_clock::time_point curre
 {
     Scheduler.ResetLoadBalancing();
 
-    RescheduleDisconnectedDevices();
+    RescheduleDisconnectedDevices(currentTime);
     RescheduleDevicesWithSpendedPoll(currentTime);
 
     std::unique_lock lock(Mutex);
@@ -208,7 +208,7 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
                                                        TSerialClientDeviceAccessHandler& lastAccessedDevice,
                                                        TRegisterCallback callback)
 {
-    RescheduleDisconnectedDevices();
+    RescheduleDisconnectedDevices(spentTime.GetStartTime());
     RescheduleDevicesWithSpendedPoll(spentTime.GetStartTime());
 
     std::unique_lock lock(Mutex);
@@ -340,7 +340,7 @@ std::string TThrottlingStateLogger::GetMessage()
     return std::string();
 }
 
-void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
+void TSerialClientRegisterPoller::RescheduleDisconnectedDevices(steady_clock::time_point currentTime)
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
@@ -352,7 +352,13 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
             it->second->RescheduleAllRegisters();
-            Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
+            auto deadline = it->second->GetDeadline();
+            // Keep the delay of the last unsuccessful poll, GetDisconnectedPollDelay is the delay of the next one
+            auto delay = it->second->GetDisconnectedPollDelay();
+            if (delay > DISCONNECTED_POLL_DELAY_STEP) {
+                deadline = std::max(deadline, currentTime + delay - DISCONNECTED_POLL_DELAY_STEP);
+            }
+            Scheduler.AddEntry(it->second, deadline, it->second->GetPriority());
         }
     }
     DisconnectedDevicesWaitingForReschedule.clear();
diff --git a/src/serial_client_register_poller.h b/src/serial_client_register_poller.h
index 8493395..5d2139e 100644
--- a/src/serial_client_register_poller.h
+++ b/src/serial_client_register_poller.h
@@ -56,7 +56,7 @@ private:
     std::chrono::steady_clock::time_point GetDeadline(bool lowPriorityRateLimitIsExceeded,
                                                       const util::TSpentTimeMeter& spentTime) const;
     void OnDeviceConnectionStateChanged(PSerialDevice device);
-    void RescheduleDisconnectedDevices();
+    void RescheduleDisconnectedDevices(std::chrono::steady_clock::time_point currentTime);
     void RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime);
 
     std::mutex Mutex;
-- 
2.43.0


From c2c0cdc83af434c50776b92fcb5154888cb3d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 15/22] fix: wait for the expected Modbus TCP packet as long as
 the response timeout allows

---
 src/modbus_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..cec1233 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -302,7 +302,7 @@ TReadFrameResult Modbus::TModbusTCPTraits::ReadFrame(TPort& port,
 {
     auto startTime = chrono::steady_clock::now();
     // Timeout for reading packet with expected transaction ID
-    auto packetTimeout = port.CalcResponseTimeout(responseTimeout + frameTimeout);
+    auto packetTimeout = port.CalcResponseTimeout(responseTimeout) + frameTimeout;
     while (chrono::duration_cast<chrono::microseconds>(chrono::steady_clock::now() - startTime) < packetTimeout) {
         if (response.size() < MBAP_SIZE) {
             response.resize(MBAP_SIZE);
-- 
2.43.0


From ab37e707881352072f1ef130587f7534e9f98c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 16/22] fix: scale negative integers written to unsigned
 registers

---
 src/register.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/register.cpp b/src/register.cpp
index 7e31f26..09a2793 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -528,7 +528,9 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = llround((value - reg.Offset) / reg.Scale);
+            // stoull wraps negative numbers around
+            const double scaled = (str.find('-') == std::string::npos) ? double(value) : double(int64_t(value));
+            auto res = llround((scaled - reg.Offset) / reg.Scale);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
-- 
2.43.0


From 62c32d9d8c0b680471e98ec3f70018c7b0244bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 17/22] fix: decode an escape sequence at the end of data

---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From 9274bda2a0ec0cbd6013c3b2cb610e0a559dbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 18/22] fix: compare versions with big numbers in them

---
 src/common_utils.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/common_utils.cpp b/src/common_utils.cpp
index bffc97d..bcd64c9 100644
--- a/src/common_utils.cpp
+++ b/src/common_utils.cpp
@@ -1,5 +1,6 @@
 #include "common_utils.h"
 #include <algorithm>
+#include <cstdlib>
 #include <regex>
 #include <sstream>
 #include <unordered_map>
@@ -9,28 +10,37 @@ namespace
     const std::unordered_map<char, std::string> ConvertToMqttStringMap =
         {{'\'', "|"}, {'"', "|"}, {'/', "|"}, {'+', "_plus_"}, {'$', "_"}, {'#', "_"}};
 
-    static std::vector<int> ParseVersionString(const std::string& version)
+    // Kind of a number (negative for release candidates, positive for wb builds, zero for others) and the number
+    typedef std::pair<int, long long> TVersionPart;
+
+    long long ParseVersionNumber(const std::string& str)
+    {
+        // version strings can come from a device, so a number can be too big
+        return std::strtoll(str.c_str(), nullptr, 10);
+    }
+
+    static std::vector<TVersionPart> ParseVersionString(const std::string& version)
     {
         std::string buffer;
         std::istringstream stream(version);
-        std::vector<int> list;
+        std::vector<TVersionPart> list;
         while (getline(stream, buffer, '.')) {
             if (std::regex_match(buffer, std::regex("^[0-9]+$"))) {
-                list.push_back(std::stoi(buffer));
+                list.emplace_back(0, ParseVersionNumber(buffer));
                 continue;
             }
             if (std::regex_match(buffer, std::regex("^[0-9]+(-rc|\\+wb)[0-9]+$"))) {
                 int index = buffer.find("-rc");
-                int offset = -128;
+                int kind = -1;
                 if (index < 0) {
                     index = buffer.find("+wb");
-                    offset = 128;
+                    kind = 1;
                 }
-                list.push_back(std::stoi(buffer.substr(0, index)));
-                list.push_back(std::stoi(buffer.substr(index + 3)) + offset);
+                list.emplace_back(0, ParseVersionNumber(buffer.substr(0, index)));
+                list.emplace_back(kind, ParseVersionNumber(buffer.substr(index + 3)));
                 continue;
             }
-            list.push_back(0);
+            list.emplace_back(0, 0);
         }
         return list;
     }
@@ -68,11 +78,11 @@ int util::CompareVersionStrings(const std::string& v1, const std::string& v2)
     if (v2.empty()) {
         return 1;
     }
-    std::vector<int> l1 = ParseVersionString(v1);
-    std::vector<int> l2 = ParseVersionString(v2);
+    const auto l1 = ParseVersionString(v1);
+    const auto l2 = ParseVersionString(v2);
     for (size_t i = 0; i < std::max(l1.size(), l2.size()); ++i) {
-        int n1 = i < l1.size() ? l1[i] : 0;
-        int n2 = i < l2.size() ? l2[i] : 0;
+        const auto n1 = i < l1.size() ? l1[i] : TVersionPart();
+        const auto n2 = i < l2.size() ? l2[i] : TVersionPart();
         if (n1 > n2) {
             return 1;
         }
-- 
2.43.0


From 36ea88b2e17976ad753456962b41e4014af7ea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 19/22] fix: a text that is not a value does not repeat the
 last write

---
 src/register_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..3cf7a39 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -94,8 +94,8 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
 void TRegisterHandler::SetTextValue(const std::string& v)
 {
     std::lock_guard<std::mutex> lock(SetValueMutex);
-    Dirty = true;
     ValueToSet = ConvertToRawValue(*Reg->GetConfig(), v);
+    Dirty = true;
 }
 
 PRegister TRegisterHandler::Register() const
-- 
2.43.0


From b97eaa8abf2ecdbc9ce9bab87c25b37c68374a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 20/22] fix: keep polling an event register until it is read
 after a reconnection

---
 src/pollable_device.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 5a06af0..7f0e3ec 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -130,10 +130,12 @@ void TPollableDevice::RescheduleAllRegisters()
             (Priority == TPriority::Low && !reg->GetConfig()->IsHighPriority()))
         {
             if (reg->GetConfig()->AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
-                if (reg->IsExcludedFromPolling() && !Registers.Contains(reg)) {
+                if (reg->IsExcludedFromPolling()) {
                     reg->SetAvailable(TRegisterAvailability::UNKNOWN);
                     reg->IncludeInPolling();
-                    Registers.AddEntry(reg, std::chrono::steady_clock::time_point());
+                    if (!Registers.Contains(reg)) {
+                        Registers.AddEntry(reg, std::chrono::steady_clock::time_point());
+                    }
                 }
             }
         }
@@ -146,8 +148,10 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
         // If register is sporadic it must be read once to get actual value
         // Keep polling it until successful read
         // Unavailable register will never be read, so it must not occupy the queue
+        // The value can be known from the previous connection, then a failed read is shown by the read error
+        bool readFailed = reg->IsSupported() && reg->GetErrorState().test(TRegister::TError::ReadError);
         if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE &&
-            reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
+            (readFailed || reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined))
         {
             Registers.AddEntry(reg, currentTime + std::chrono::microseconds(1));
         }
-- 
2.43.0


From 6f8b2f8aee793f45f7f39e7304a53fb83a766cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 21/22] fix: nesting of subdevices in templates is checked at
 every level

---
 src/templates_map.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 18784d2..4fd8a38 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -38,13 +38,13 @@ namespace
         }
     }
 
-    void CheckNesting(const Json::Value& root, size_t nestingLevel, TSubDevicesTemplateMap& templates)
+    void CheckNesting(const Json::Value& device, size_t nestingLevel, TSubDevicesTemplateMap& templates)
     {
         if (nestingLevel > 5) {
             throw TConfigParserException(
                 "Too deep subdevices nesting. This could be caused by cyclic subdevice dependencies");
         }
-        for (const auto& ch: root["device"]["channels"]) {
+        for (const auto& ch: device["channels"]) {
             if (ch.isMember("device_type")) {
                 CheckNesting(templates.GetTemplate(ch["device_type"].asString()).Schema, nestingLevel + 1, templates);
             }
@@ -245,7 +245,7 @@ namespace
         // Check that channels refer to valid subdevices and they are not nested too deep
         if (root["device"].isMember("subdevices")) {
             TSubDevicesTemplateMap subdevices(root["device_type"].asString(), root["device"]);
-            CheckNesting(root, 0, subdevices);
+            CheckNesting(root["device"], 0, subdevices);
         }
     }
 
-- 
2.43.0


From d65ce1d80561ff1c80468706082a5511d931ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 22/22] fix: parameters given as an array in templates with
 subdevices

---
 src/subdevices_config/config_schema_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index 9e40647..c37fffe 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -216,7 +216,7 @@ namespace
         if (deviceTemplate.isMember("parameters")) {
             const auto& params = deviceTemplate["parameters"];
             for (Json::ValueConstIterator it = params.begin(); it != params.end(); ++it) {
-                auto name = it.name();
+                auto name = params.isArray() ? (*it)["id"].asString() : it.name();
                 if (properties.isMember(name)) {
                     throw std::runtime_error("Validation failed.\nError 1\n  context: <root>\n  desc: "
                                              "duplicate definition of parameter \"" +
-- 
2.43.0

