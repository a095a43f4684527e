From 95fd091658dc0a89b9bff09858122eb1e8d9f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 01/22] fix: divide negative durations as signed in
 Timepoint::advance_from

---
 src/clock/clock_timepoint.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..f7f57d8 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,9 +76,11 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    // Signed: duration_cast of negative value to unsigned duration
+    // would divide it as unsigned number.
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
-    return Timepoint{m_value + advance};
+    return Timepoint{m_value + UnderlyingDuration(advance)};
 }
 
 template<typename ChronoDuration>
-- 
2.43.0


From fdba1a765b650102779233caec0bd4c07189f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 02/22] fix: reject RTP padding with a zero count

---
 src/rtp/rtp_packet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtp/rtp_packet.cpp b/src/rtp/rtp_packet.cpp
index 4cc7353..2c27eaf 100644
--- a/src/rtp/rtp_packet.cpp
+++ b/src/rtp/rtp_packet.cpp
@@ -144,7 +144,8 @@ Result<Packet> Packet::parse(const util::ConstBinaryView& vv, const PayloadMap&
             })
             .bind([&](auto&& size) -> MaybeError {
                 padding_size = size;
-                if (padding_size > payload_with_padding_size) {
+                // Count includes itself, so zero is not valid
+                if (padding_size == 0 || padding_size > payload_with_padding_size) {
                     stat.invalid_padding.inc();
                     stat.error.inc();
                     return make_error_code(Error::invalid_packet_padding);
-- 
2.43.0


From 6cd00c96a24eb5e97d11136afa0370bd2d4ee2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 03/22] fix: NONCE attribute type is 0x0015 (RFC 5389 section
 18.2)

---
 src/stun/details/stun_attr_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/details/stun_attr_registry.hpp b/src/stun/details/stun_attr_registry.hpp
index 5012024..a7701eb 100644
--- a/src/stun/details/stun_attr_registry.hpp
+++ b/src/stun/details/stun_attr_registry.hpp
@@ -19,7 +19,7 @@ static constexpr uint16_t MESSAGE_INTEGRITY  = 0x0008;
 static constexpr uint16_t ERROR_CODE         = 0x0009;
 static constexpr uint16_t UNKNOWN_ATTRIBUTES = 0x000A;
 static constexpr uint16_t REALM              = 0x0014;
-static constexpr uint16_t NONCE              = 0x0016;
+static constexpr uint16_t NONCE              = 0x0015;
 static constexpr uint16_t XOR_MAPPED_ADDRESS = 0x0020;
 // RFC8445:
 // 20.1.  STUN Attributes
-- 
2.43.0


From 6a5cf78baa956b34ff93de5d627af05ca1d45deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 04/22] fix: reject STUN messages whose two most significant
 bits are not zero

---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 3 ++-
 src/stun/stun_message.cpp    | 7 +++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..1f2ea7b 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -38,6 +38,7 @@ public:
         case ParseError::error_code_attribute_size: return "invalid error code attribute size";
         case ParseError::unknown_attributes_attribute_size: return "invalid unknown attributes attribute size";
         case ParseError::unknown_addr_family:       return "unknown addr family";
+        case ParseError::invalid_message_type:      return "invalid message type";
         }
         return "unknown stun error";
     }
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..725440d 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -33,7 +33,8 @@ enum class ParseError {
     use_candidate_size,
     error_code_attribute_size,
     unknown_attributes_attribute_size,
-    unknown_addr_family
+    unknown_addr_family,
+    invalid_message_type
 };
 
 enum class ClientError {
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..0de038c 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,13 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.invalid_message_type.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
+
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..372eeb4 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -34,6 +34,7 @@ struct ParseStat {
     stat::Counter invalid_error_code_size;
     stat::Counter invalid_unknown_attributes_attr_size;
     stat::Counter unknown_comprehension_required_attr;
+    stat::Counter invalid_message_type;
 };
 
 }
-- 
2.43.0


From 29688df8872318d5ac2c9a3f4dd0077dd382bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 05/22] fix: ignore MESSAGE-INTEGRITY attributes after the
 first one

---
 src/stun/stun_message.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 0de038c..05f3f8d 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -292,8 +292,12 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
-            raw_attrs.emplace_back(raw_attr);
-            maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            // Another MESSAGE-INTEGRITY is one of the attributes that
+            // MUST be ignored after the first one (see below).
+            if (!maybe_integrity_interval.is_some()) {
+                raw_attrs.emplace_back(raw_attr);
+                maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            }
             break;
         default:
             if (!maybe_integrity_interval.is_some()) {
-- 
2.43.0


From 403fc17f827938adb23c618dab43516f73aa6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 06/22] fix: ignore reserved bits of the ERROR-CODE attribute

---
 src/stun/stun_attribute.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..65387d8 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -329,8 +329,9 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
             return make_error_code(ParseError::error_code_attribute_size);
         })
         .fmap([&](uint32_t first_word) {
+            // Reserved bits are ignored on receipt
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF),
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From 9f0092acd22516d0e24f38722e111655d952af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 07/22] fix: report too short MAPPED-ADDRESS and
 XOR-MAPPED-ADDRESS as such

---
 src/stun/stun_attribute.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 65387d8..d8459e8 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -77,6 +77,11 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
     // |                             Address                           |
     // +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
     //
+    if (vv.size() < sizeof(uint32_t)) {
+        stat.error.inc();
+        stat.invalid_mapped_address.inc();
+        return make_error_code(ParseError::invalid_mapped_addr);
+    }
     auto family_rv = vv.read_u8(1).require();
     auto port_rv = vv.read_u16be(2)
         .require()
@@ -138,10 +143,10 @@ Result<XorMappedAddressAttribute> XorMappedAddressAttribute::parse(const util::C
     // +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
     const auto family_rv = vv.read_u8(1).require().bind(Family::from_uint8);
     auto port_rv = vv.read_u16be(2).require()
-        .bind_err([&](auto&& err) {
+        .bind_err([&](auto&&) {
             stat.error.inc();
             stat.invalid_xor_mapped_address.inc();
-            return err;
+            return make_error_code(ParseError::invalid_xor_mapped_addr);
         })
         .fmap([](auto xport) {
             // X-Port is computed by XOR'ing the mapped port with the most
-- 
2.43.0


From e0545f808409e1ee42a7beaee98d7c7a051cd82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 08/22] fix: write address family of MAPPED-ADDRESS and
 ALTERNATE-SERVER

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index d8459e8..8545af3 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -126,7 +126,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From dc8d8fb237e8e945eb8a73cb0154455dae6ba83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 09/22] fix: do not use the hash of a long HMAC key after it is
 destroyed

---
 src/crypto/crypto_hmac.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..8395d57 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,16 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    const auto from_view = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        // Key must be copied while the hash value is alive
+        return h({view}).fmap([&](auto&& hash) { return from_view(hash.view()); });
+    }
+    return from_view(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From e816202576ae3b9a7b4601aaf55621213e368721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 10/22] fix: do not answer STUN requests with unsupported
 method with an error response

---
 src/stun/stun_server_stateless.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stun/stun_server_stateless.cpp b/src/stun/stun_server_stateless.cpp
index 00a830b..a356a4e 100644
--- a/src/stun/stun_server_stateless.cpp
+++ b/src/stun/stun_server_stateless.cpp
@@ -62,6 +62,12 @@ void Stateless::add_user(const precis::OpaqueString& name, const stun::Password&
 }
 
 Stateless::ProcessResult Stateless::process_request(const net::Endpoint& ep, Message&& msg, const util::ConstBinaryView& view) {
+    // RFC 5389: 7.3. Receiving a STUN Message
+    // Message with unsupported method is silently discarded before
+    // any other processing.
+    if (msg.header.method != Method::binding()) {
+        return Ignore{.message = std::move(msg)};
+    }
     // RFC 5389: 7.3.1. Processing a Request
     // If the request contains one or more unknown comprehension-required
     // attributes, the server replies with an error response with an error
@@ -128,9 +134,6 @@ Stateless::ProcessResult Stateless::process_request(const net::Endpoint& ep, Mes
     return maybe_username
         .bind(check_auth)
         .value_or_call([&]() -> Stateless::ProcessResult {
-            if (msg.header.method != Method::binding()) {
-                return Ignore{.message = std::move(msg)};
-            }
             Header header {
                 Class::success_response(),
                 msg.header.method,
-- 
2.43.0


From 3a0a044323a03f0ba0af22e1615832911078c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 11/22] fix: STUN client reports one outcome per transaction

Responses and timers that come after the outcome of a transaction is decided
but before it is delivered enqueued further outcomes and data to send.
---
 src/stun/stun_client_udp.cpp | 47 ++++++++++++++++++++----------------
 src/stun/stun_client_udp.hpp |  5 ++++
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..83e5ee7 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -82,17 +82,17 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.is_finished) {
             auto& t = it->second;
-            auto se = t.rtx_algo->next(now)
-                .fmap([&](auto&& next) -> Effect {
-                    m_stat.retransmits.inc();
-                    t.rtx_count++;
-                    m_tid_timeline.emplace(std::make_pair(next, hnd));
-                    return SendData{hnd, util::ConstBinaryView(t.msg_data)};
-                })
-                .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
-            m_effects.emplace(std::move(se));
+            auto maybe_next = t.rtx_algo->next(now);
+            if (maybe_next.is_some()) {
+                m_stat.retransmits.inc();
+                t.rtx_count++;
+                m_tid_timeline.emplace(std::make_pair(maybe_next.unwrap(), hnd));
+                m_effects.emplace(SendData{hnd, util::ConstBinaryView(t.msg_data)});
+            } else {
+                finish(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
+            }
         } // When not found transaction were cleaned before.
     }
     if (!m_effects.empty()) {
@@ -120,7 +120,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.is_finished) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
@@ -216,7 +216,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -255,7 +255,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
                     return TransactionFailed{t.hnd, std::move(reason)};
                 });
         });
-    m_effects.emplace(effect);
+    finish(t, std::move(effect));
 
     return success();
 }
@@ -270,7 +270,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -278,7 +278,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (maybe_msg_error_code.is_none()) {
         m_stat.no_error_code.inc();
         auto reason = TransactionFailed::Error{make_error_code(ClientError::no_error_code_in_response)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     const auto& msg_error_code = maybe_msg_error_code.unwrap().get();
@@ -289,13 +289,13 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         if (maybe_alt_srv.is_none()) {
             m_stat.no_alternate_server_attr.inc();
             auto reason = TransactionFailed::Error{make_error_code(ClientError::no_alternate_server_in_response)};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         const auto& alt_srv = maybe_alt_srv.unwrap().get();
         m_stat.try_alternate_responses.inc();
         auto reason = TransactionFailed::AlternateServer{{alt_srv.addr, alt_srv.port}};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -309,7 +309,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         // Alternate server is checked above.
         m_stat.response_3xx.inc();
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 4: {
@@ -322,12 +322,12 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             const auto& maybe_ua = msg.attribute_set.unknown_attributes();
             if (maybe_ua.is_some()) {
                 auto reason = TransactionFailed::UnknownAttributeReported{maybe_ua.unwrap().get().types};
-                m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+                finish(t, TransactionFailed{t.hnd, std::move(reason)});
                 return success();
             }
         }
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 5: {
@@ -340,7 +340,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         }
@@ -371,6 +371,11 @@ ClientUDP::RetransmitAlgoPtr ClientUDP::allocate_rtx_algo(const net::Path& path,
             m_settings.retransmit);
 }
 
+void ClientUDP::finish(Transaction& t, Effect&& effect) {
+    t.is_finished = true;
+    m_effects.emplace(std::move(effect));
+}
+
 void ClientUDP::cleanup(const Handle& hnd) {
     if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
         const auto& tid = it->second.tid;
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..3da8634 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,10 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        // Outcome (TransactionOk / TransactionFailed) is already placed to
+        // the pending effects. Transaction is only kept to be cleaned up
+        // when user receives it.
+        bool is_finished = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
@@ -136,6 +140,7 @@ private:
     MaybeError handle_error_response(Timepoint now, Transaction& trans, Message&& msg);
     Handle allocate_handle() noexcept;
     RetransmitAlgoPtr allocate_rtx_algo(const net::Path& path, Timepoint now);
+    void finish(Transaction&, Effect&&);
     void cleanup(const Handle&);
 
     const Settings m_settings;
-- 
2.43.0


From a423507ba444a7849198d34b5448b49e005cfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 12/22] fix: STUN client timers follow rescheduled transactions

A 5xx response changed the time of the next send but not the timeline, so
the request was repeated at the old time. Timers of transactions that ended
kept the client from being idle.
---
 src/stun/stun_client_udp.cpp | 54 ++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 83e5ee7..2c5ccbe 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -25,6 +25,9 @@ public:
     };
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
+    // Time when next() has to be called.
+    MaybeTimepoint next_time() const;
+    bool is_scheduled_at(const Timepoint&) const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
@@ -79,21 +82,32 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
 
 ClientUDP::Effect ClientUDP::next(Timepoint now) {
     // Progress with pending transactions
-    while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
-        Handle hnd = m_tid_timeline.top().second;
+    while (!m_tid_timeline.empty()) {
+        const Timepoint time = m_tid_timeline.top().first;
+        const Handle hnd = m_tid_timeline.top().second;
+        auto it = m_tmap.find(hnd);
+        // Transaction may be finished, cleaned or rescheduled after
+        // item was placed to the timeline.
+        const bool is_outdated = it == m_tmap.end()
+            || it->second.is_finished
+            || !it->second.rtx_algo->is_scheduled_at(time);
+        if (!is_outdated && time.is_after(now)) {
+            break;
+        }
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.is_finished) {
-            auto& t = it->second;
-            auto maybe_next = t.rtx_algo->next(now);
-            if (maybe_next.is_some()) {
-                m_stat.retransmits.inc();
-                t.rtx_count++;
-                m_tid_timeline.emplace(std::make_pair(maybe_next.unwrap(), hnd));
-                m_effects.emplace(SendData{hnd, util::ConstBinaryView(t.msg_data)});
-            } else {
-                finish(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
-            }
-        } // When not found transaction were cleaned before.
+        if (is_outdated) {
+            continue;
+        }
+        auto& t = it->second;
+        auto maybe_next = t.rtx_algo->next(now);
+        if (maybe_next.is_some()) {
+            m_stat.retransmits.inc();
+            t.rtx_count++;
+            m_tid_timeline.emplace(std::make_pair(maybe_next.unwrap(), hnd));
+            m_effects.emplace(SendData{hnd, util::ConstBinaryView(t.msg_data)});
+        } else {
+            finish(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
+        }
     }
     if (!m_effects.empty()) {
         auto next = std::move(m_effects.front());
@@ -337,6 +351,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            // Previous item of the transaction in the timeline is outdated now.
+            t.rtx_algo->next_time().with_inner([&](Timepoint&& timepoint) {
+                m_tid_timeline.emplace(timepoint, t.hnd);
+            });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -459,6 +477,14 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::next_time() const {
+    return m_maybe_next;
+}
+
+bool ClientUDP::RetransmitAlgo::is_scheduled_at(const Timepoint& time) const {
+    return m_maybe_next.is_some() && m_maybe_next.unwrap() == time;
+}
+
 std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::RetransmitAlgo::calc_next(Timepoint now) const noexcept {
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
-- 
2.43.0


From 514c791dca591d140b8c287c01b842da9ec8b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 13/22] fix: STUN client retransmission interval limit and last
 wait

max_rto is the maximum of the interval but was used as the minimum. The last
wait (Rm * RTO) was applied to a wrong send after 5xx retries and not applied
when only one request is sent.
---
 src/stun/stun_client_udp.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 2c5ccbe..d6f2fe7 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -30,6 +30,7 @@ public:
     bool is_scheduled_at(const Timepoint&) const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
+    Duration limit_timeout(Duration) const noexcept;
     const Duration m_initial_rto;
     const Settings::RetransmitDefault m_settings;
     MaybeTimepoint m_maybe_next;
@@ -436,6 +437,9 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
+    m_last_timeout = limit_timeout(m_settings.request_count > 1
+        ? m_initial_rto
+        : m_initial_rto * m_settings.retransmission_multiplier);
     m_maybe_next = now.advance(m_last_timeout);
     return m_maybe_next;
 }
@@ -489,16 +493,18 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
     }
-    auto current = m_rtx_count + 2 == m_settings.request_count
+    const auto timeout = limit_timeout(m_rtx_count + 2 == m_settings.request_count + m_5xx_count
         ? m_initial_rto * m_settings.retransmission_multiplier
-        : m_last_timeout * 2;
+        : m_last_timeout * 2);
+    return std::make_pair(now.advance(timeout), timeout);
+}
 
-    auto timeout = m_settings.max_rto
+ClientUDP::Duration ClientUDP::RetransmitAlgo::limit_timeout(Duration timeout) const noexcept {
+    return m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min(timeout, settings_max_rto);
         })
-        .value_or(current);
-    return std::make_pair(now.advance(timeout), timeout);
+        .value_or(timeout);
 }
 
 }
-- 
2.43.0


From 2fe9be6671f880bbca558c8b7599b6e16f462847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 14/22] fix: forget outdated RTO history at every update

---
 src/stun/details/stun_client_udp_rto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index fd7362f..104e312 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -35,6 +35,7 @@ Duration ClientUDPRtoCalculator::rto(const net::Path& path) const {
 }
 
 void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Duration rtt) {
+    clear_outdated(now);
     auto it = m_by_path.find(path);
     if (it == m_by_path.end()) {
         auto [it2, _] = m_by_path.emplace(path, Data{path, now});
@@ -43,7 +44,6 @@ void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Durat
     auto& data = it->second;
     data.last_update = now;
     m_timeline.push_back(data);
-    clear_outdated(now);
     // Clear backoff value for further requests
     data.backoff = none();
     // Update SRTT
@@ -72,6 +72,7 @@ void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Durat
 }
 
 void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Duration backoff) {
+    clear_outdated(now);
     auto it = m_by_path.find(path);
     if (it == m_by_path.end()) {
         auto [it, _] = m_by_path.emplace(path, Data{path, now, backoff});
@@ -82,7 +83,6 @@ void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Durat
     data.last_update = now;
     m_timeline.push_back(data);
     data.backoff = backoff;
-    clear_outdated(now);
 }
 
 void ClientUDPRtoCalculator::clear_outdated(Timepoint now) {
-- 
2.43.0


From 0fdc7ac1fed61e930b85d857dc83e229b6adb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 15/22] fix: reject component ids above 256 in text

---
 src/ice/candidate/ice_candidate_component_id.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ice/candidate/ice_candidate_component_id.cpp b/src/ice/candidate/ice_candidate_component_id.cpp
index a7f5c94..915c27f 100644
--- a/src/ice/candidate/ice_candidate_component_id.cpp
+++ b/src/ice/candidate/ice_candidate_component_id.cpp
@@ -35,6 +35,9 @@ Result<ComponentId> ComponentId::from_string(const std::string_view& v) noexcept
     }
     std::string vstr{v};
     auto value = std::atoi(vstr.c_str());
+    if (value > 256) {
+        return make_error_code(Error::invalid_component_id_value);
+    }
     return ComponentId(value);
 }
 
-- 
2.43.0


From b433072f56a50c9132fa323d2ba0ee576a72a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 16/22] fix: do not ignore text after NUL in IP addresses

---
 src/net/ip/ip_address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..ee43125 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -20,6 +20,10 @@ Result<AddressType> inet_pton_adapter(const std::string_view& v) {
     // succeeds, with the address pointed to by dst in network byte
     // order.
     std::string copy(v.begin(), v.end());
+    if (copy.find('\0') != std::string::npos) {
+        // inet_pton reads the text before NUL only.
+        return make_error_code(Error::ip_address_parse_error);
+    }
     int rc = inet_pton(INET_FAMILY, copy.c_str(), &ip_addr);
     if (rc > 0) {
         return AddressType::from_view(util::ConstBinaryView(&ip_addr, sizeof(ip_addr)));
-- 
2.43.0


From c7ba6f59b3dd4daaad1bd5f9dc257246489559b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 17/22] fix: copies of TokenStream do not refer to tokens of
 the original

---
 src/util/util_token_stream.cpp | 6 ++----
 src/util/util_token_stream.hpp | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/util/util_token_stream.cpp b/src/util/util_token_stream.cpp
index b1c0d2a..fa402f7 100644
--- a/src/util/util_token_stream.cpp
+++ b/src/util/util_token_stream.cpp
@@ -40,19 +40,17 @@ std::string TokenStreamErrorCategory::message(int code) const {
 
 TokenStream::TokenStream(const Container& d)
     : m_data(d)
-    , m_pos(m_data.cbegin())
 {}
 
 TokenStream::TokenStream(Container&& d)
     : m_data(std::move(d))
-    , m_pos(m_data.cbegin())
 {}
 
 TokenStream::MaybToken TokenStream::optional() noexcept {
-    if (m_pos == m_data.cend()) {
+    if (m_pos == m_data.size()) {
         return None{};
     }
-    return *(m_pos++);
+    return m_data[m_pos++];
 }
 
 ::freewebrtc::Error TokenStream::make_error_code(Error code) {
diff --git a/src/util/util_token_stream.hpp b/src/util/util_token_stream.hpp
index 6a1016e..7b85673 100644
--- a/src/util/util_token_stream.hpp
+++ b/src/util/util_token_stream.hpp
@@ -45,7 +45,7 @@ private:
     ::freewebrtc::Error make_error_code(Error);
 
     const Container m_data;
-    Container::const_iterator m_pos;
+    Container::size_type m_pos = 0;
 };
 
 
@@ -68,10 +68,10 @@ inline MaybeError TokenStream::required(const std::string_view& expected) noexce
 }
 
 inline Result<TokenStream::TokenType> TokenStream::required() noexcept {
-    if (m_pos == m_data.end()) {
+    if (m_pos == m_data.size()) {
         return make_error_code(Error::no_required_token);
     }
-    return Result<TokenType>{*(m_pos++)};
+    return Result<TokenType>{m_data[m_pos++]};
 }
 
 
-- 
2.43.0


From caaa05951551d08428f6252dae8059a43986beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 18/22] fix: keep the list consistent when a link is move
 assigned

---
 src/util/util_intrusive_list.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index da6b27c..3901917 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -76,7 +76,8 @@ public:
     ~Link();
     // No any types of copy
     Link& operator=(const Link&) = delete;
-    Link& operator=(Link&&) = default;
+    // Takes the place of other link in its list, owner is not changed.
+    Link& operator=(Link&&) noexcept;
 
     T& get() noexcept;
     const T& get() const noexcept;
@@ -91,6 +92,7 @@ private:
     Link(const Link&) = default;
     void place_after(Link&) noexcept;
     void place_before(Link&) noexcept;
+    void take_place(Link&) noexcept;
     Maybe<Ref> m_owner = None{};
     Maybe<LinkRef> m_next = None{};
     Maybe<LinkRef> m_prev = None{};
@@ -107,9 +109,24 @@ IntrusiveList<T>::Link::Link(T& t)
 template<typename T>
 IntrusiveList<T>::Link::Link(T& t, Link&& other)
     : m_owner(t)
-    , m_next(other.m_next)
-    , m_prev(other.m_prev)
 {
+    take_place(other);
+}
+
+template<typename T>
+typename IntrusiveList<T>::Link&
+IntrusiveList<T>::Link::operator=(Link&& other) noexcept {
+    if (&other != this) {
+        remove();
+        take_place(other);
+    }
+    return *this;
+}
+
+template<typename T>
+void IntrusiveList<T>::Link::take_place(Link& other) noexcept {
+    m_next = other.m_next;
+    m_prev = other.m_prev;
     m_prev.fmap([&](auto&& prev) {
         prev.get().m_next = LinkRef{*this};
         return Unit::create();
-- 
2.43.0


From 5b3ad3d207d0458ce99d70a8fb97d31d92c369f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 19/22] fix: conversion of clocks with ticks of a fractional
 number of microseconds drifts

---
 src/clock/clock_std.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/clock/clock_std.hpp b/src/clock/clock_std.hpp
index 1c540fa..52fd5bb 100644
--- a/src/clock/clock_std.hpp
+++ b/src/clock/clock_std.hpp
@@ -25,7 +25,9 @@ private:
     using ChronoTimepoint = typename ChronoClock::time_point;
     using ChronoDuration  = typename ChronoClock::duration;
     ChronoTimepoint m_prev;
-    ChronoDuration m_reminder{0};
+    // Unit that holds both clock ticks and microseconds exactly
+    using ReminderDuration = std::common_type_t<ChronoDuration, NativeDuration>;
+    ReminderDuration m_reminder{0};
     Timepoint m_now;
 };
 
-- 
2.43.0


From 4c39e524aa690368cca8b08c0101602f1859e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 20/22] fix: report a failing digest update in the node OpenSSL
 hash

---
 node/openssl/node_openssl_hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_hash.cpp b/node/openssl/node_openssl_hash.cpp
index bfc341c..178310e 100644
--- a/node/openssl/node_openssl_hash.cpp
+++ b/node/openssl/node_openssl_hash.cpp
@@ -55,7 +55,9 @@ typename Hash::Result MessageDigest::calc(const typename Hash::Input& input) {
     }
 
     for (const auto& chunk: input) {
-        update(chunk);
+        if (auto maybe_err = update(chunk); maybe_err.is_err()) {
+            return maybe_err.unwrap_err();
+        }
     }
 
     typename Hash::Value v;
-- 
2.43.0


From b9fba073a9335a78ab23d57d9442754c5f14705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 21/22] fix: ignore responses with a method other than binding
 in STUN client

---
 src/stun/stun_client_udp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index d6f2fe7..dfdc7d2 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -61,7 +61,13 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
     // message validation if we don't know anything about
     // transaction
     auto trans_ref_rv = msg_rv
-        .bind([&](const Message& msg) {
+        .bind([&](const Message& msg) -> Result<TransactionRef> {
+            // Client sends binding requests only. Message with any other
+            // method doesn't belong to any transaction.
+            if (msg.header.method != Method::binding()) {
+                m_stat.transaction_not_found.inc();
+                return make_error_code(ClientError::transaction_not_found);
+            }
             return find_transaction(msg.header.transaction_id);
         });
 
-- 
2.43.0


From 8edb5ad93ed5db40ed7b44cc8493f8950fd2c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 22/22] fix: reject remote port numbers that are not ports in
 node STUN server

---
 node/node_stun/node_stun_server_stateless.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index fe495fd..ff0813f 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -11,6 +11,7 @@
 #include "node/openssl/node_openssl_hash.hpp"
 #include "node_stun_server_stateless.hpp"
 #include "node_stun_message.hpp"
+#include "node_stun_error.hpp"
 #include <craftnapi/error.hpp>
 
 namespace freewebrtc::node_stun {
@@ -38,11 +39,16 @@ Result<net::Endpoint> extract_rinfo(const Value& v) {
     auto port_rv = (v_as_obj
         > [](auto obj) { return obj.named_property("port"); }
         > [](const auto& v) { return v.as_int32(); }
-        ).add_context("rinfo.port");
+        > [](int32_t port) -> Result<net::Port> {
+            if (port < 0 || port > 0xFFFF) {
+                return make_error_code(Error::invalid_port_number);
+            }
+            return net::Port(port);
+        }).add_context("rinfo.port");
 
     return combine(
         [](auto&& addr, auto&& port) -> Result<net::Endpoint> {
-            return net::Endpoint(net::UdpEndpoint{addr, net::Port(port)});
+            return net::Endpoint(net::UdpEndpoint{addr, port});
         },
         std::move(addr_rv),
         std::move(port_rv));
-- 
2.43.0

