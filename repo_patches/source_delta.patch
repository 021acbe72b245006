From 2ae4ab5df217bf6f9ded29285f8901d676da04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:57 +0000
Subject: [PATCH 01/33] fix: also flush the last partially received group of
 data stream 0 at EOF

---
 src/channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..7309c35 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -145,7 +145,7 @@ void Channel::processGroup(Group group, std::size_t which_stream) {
 
 // Process any remaining data
 void Channel::flush() {
-  for (std::size_t i = 1; i < block_stream_.size(); ++i) {
+  for (std::size_t i = 0; i < block_stream_.size(); ++i) {
     const Group remaining_group = block_stream_[i].flushCurrentGroup();
     if (!remaining_group.isEmpty())
       processGroup(remaining_group, i);
-- 
2.43.0


From 0c0498ea1c13fd390fd667cad38ad10bd69773fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:38 +0000
Subject: [PATCH 02/33] fix: keep rx_time monotonic after the clock has been
 clamped, and for hex input

---
 src/channel.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 7309c35..f41fee9 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -99,16 +99,17 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 // Handle this group as if it was just received.
 // \param which_stream Which data stream was it received on, 0..3
 void Channel::processGroup(Group group, std::size_t which_stream) {
-  if (options_.timestamp && !group.hasTime()) {
-    auto now = std::chrono::system_clock::now();
-    group.setTime(now);
+  if (options_.timestamp) {
+    if (!group.hasTime()) {
+      group.setTime(std::chrono::system_clock::now());
+    }
 
     // When the source is faster than real-time, backwards timestamp calculation
     // produces meaningless results. We want to make sure that the time stays monotonic.
-    if (now < last_group_rx_time_) {
+    if (group.getRxTime() < last_group_rx_time_) {
       group.setTime(last_group_rx_time_);
     }
-    last_group_rx_time_ = now;
+    last_group_rx_time_ = group.getRxTime();
   }
 
   if (options_.bler) {
-- 
2.43.0


From 9c22a0a0a9afed5ea5f5d7dc83ecccd203c676ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:46 +0000
Subject: [PATCH 03/33] fix: clock_time no longer depends on the host's time
 zone

---
 src/groups.cc | 73 +++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..5056f67 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -737,8 +737,27 @@ void Station::decodeType4A(const Group& group) {
   if (!(group.has(BLOCK3) && group.has(BLOCK4)))
     return;
 
-  const double modified_julian_date{
-      static_cast<double>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1))};
+  const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
+  const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
+
+  const double local_offset =
+      (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
+
+  // Add the local offset to UTC. This may take us to the previous or the next day. (The time zone
+  // of the host computer must not affect this.)
+  constexpr int kMinutesPerDay{24 * 60};
+  int local_minutes = static_cast<int>(hour_utc) * 60 + static_cast<int>(minute_utc) +
+                      static_cast<int>(local_offset * 60.0);
+  int local_date    = static_cast<int>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1));
+  if (local_minutes < 0) {
+    local_minutes += kMinutesPerDay;
+    local_date--;
+  } else if (local_minutes >= kMinutesPerDay) {
+    local_minutes -= kMinutesPerDay;
+    local_date++;
+  }
+
+  const double modified_julian_date{static_cast<double>(local_date)};
 
   // Would result in negative years/months
   if (modified_julian_date < 15079.0) {
@@ -746,36 +765,17 @@ void Station::decodeType4A(const Group& group) {
     return;
   }
 
-  int year_utc = static_cast<int>((modified_julian_date - 15078.2) / 365.25);
-  int month_utc =
-      static_cast<int>((modified_julian_date - 14956.1 - std::trunc(year_utc * 365.25)) / 30.6001);
-  const int day_utc =
-      static_cast<int>(modified_julian_date - 14956.0 - std::trunc(year_utc * 365.25) -
-                       std::trunc(month_utc * 30.6001));
-  if (month_utc == 14 || month_utc == 15) {
-    year_utc += 1;
-    month_utc -= 12;
+  int year = static_cast<int>((modified_julian_date - 15078.2) / 365.25);
+  int month =
+      static_cast<int>((modified_julian_date - 14956.1 - std::trunc(year * 365.25)) / 30.6001);
+  const int day = static_cast<int>(modified_julian_date - 14956.0 - std::trunc(year * 365.25) -
+                                   std::trunc(month * 30.6001));
+  if (month == 14 || month == 15) {
+    year += 1;
+    month -= 12;
   }
-  year_utc += 1900;
-  month_utc -= 1;
-
-  const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
-  const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
-
-  const double local_offset =
-      (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
-
-  std::tm utc_plus_offset_tm{};
-  utc_plus_offset_tm.tm_year  = year_utc - 1900;
-  utc_plus_offset_tm.tm_mon   = month_utc - 1;
-  utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
-  utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
-  utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
-  utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
-
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  year += 1900;
+  month -= 1;
 
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
@@ -786,14 +786,13 @@ void Station::decodeType4A(const Group& group) {
 
     if (local_offset_hour == 0 && local_offset_min == 0) {
       static_cast<void>(std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00Z",
-                                      local_tm->tm_year + 1900, local_tm->tm_mon + 1,
-                                      local_tm->tm_mday, local_tm->tm_hour, local_tm->tm_min));
+                                      year, month, day, local_minutes / 60, local_minutes % 60));
     } else {
       static_cast<void>(
-          std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00%s%02d:%02d",
-                        local_tm->tm_year + 1900, local_tm->tm_mon + 1, local_tm->tm_mday,
-                        local_tm->tm_hour, local_tm->tm_min, local_offset > 0 ? "+" : "-",
-                        local_offset_hour, std::abs(local_offset_min)));
+          std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00%s%02d:%02d", year,
+                        month, day, local_minutes / 60, local_minutes % 60,
+                        local_offset > 0 ? "+" : "-", local_offset_hour,
+                        std::abs(local_offset_min)));
     }
     clock_time_         = std::string(buffer.data());
     json_["clock_time"] = clock_time_;
-- 
2.43.0


From b314523b2562bf2569a68a9cc77bf27a3ae89d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:02 +0000
Subject: [PATCH 04/33] fix: RT+ tags next to non-ASCII characters were cut at
 the wrong byte

---
 src/text/rdsstring.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..4ac47b3 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+  // Skip the leading byte and any continuation bytes
+  std::size_t nbyte{byte_start + 1};
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
     nbyte++;
-
-    if (nbyte >= str.length())
-      return 0;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From 3bed21899761162b0bfa3703f64744f2423d2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:05 +0000
Subject: [PATCH 05/33] fix: an RT+ tag may extend to the last character of
 RadioText

---
 src/text/rdsstring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..4317cb1 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,7 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
-- 
2.43.0


From eecb1b3a8181b8489bbda7f62aab6062ab38a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 06/33] fix: blocks missing from the end of a hex line are not
 received blocks

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..9e1fb3f 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -215,7 +215,8 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          group_complete    = true;
+          block_still_valid = false;
           break;
         }
 
-- 
2.43.0


From 9192c92e4047673c770ca86e4f3eb934c88de70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:10 +0000
Subject: [PATCH 07/33] fix: data of erroneous blocks in TEF input must not be
 used

---
 src/io/input.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 9e1fb3f..8da7f2d 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -290,9 +290,12 @@ Group readTEFGroup(const Options& options) {
         blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
         blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
 
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From d534439865a40ac3afd49a232a66368aa4b8e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:17 +0000
Subject: [PATCH 08/33] fix: lost blocks were shown as zeros in TDC, eRT and
 DAB data

---
 src/groups.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index 5056f67..742e817 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -806,7 +806,13 @@ void Station::decodeType5(const Group& group) {
   const auto address                   = getBits<5>(group.get(BLOCK2), 0);
   json_["transparent_data"]["address"] = address;
 
+  if (!group.has(BLOCK4))
+    return;
+
   if (group.getType().version == GroupType::Version::A) {
+    if (!group.has(BLOCK3))
+      return;
+
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
         getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0)};
@@ -1249,7 +1255,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
@@ -1275,6 +1283,9 @@ void Station::parseDAB(const Group& group) {
     const std::array<std::string, 4> modes{"unspecified", "I", "II or III", "IV"};
     json_["dab"]["mode"] = modes[mode];
 
+    if (!group.has(BLOCK3))
+      return;
+
     const std::uint32_t freq = 16 * getBits<18>(group.get(BLOCK2), group.get(BLOCK3), 0);
 
     json_["dab"]["kilohertz"] = freq;
@@ -1303,7 +1314,9 @@ void Station::parseDAB(const Group& group) {
       json_["dab"]["channel"] = dab_channels.at(freq);
     }
 
-    json_["dab"]["ensemble_id"] = getPrefixedHexString<4>(group.get(BLOCK4));
+    if (group.has(BLOCK4)) {
+      json_["dab"]["ensemble_id"] = getPrefixedHexString<4>(group.get(BLOCK4));
+    }
   }
 }
 
-- 
2.43.0


From 85f9715072f8882c9293be996adca9976c9d2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:24 +0000
Subject: [PATCH 09/33] fix: Enhanced RadioText can be up to 128 bytes long

---
 src/groups.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index 742e817..f378b03 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -234,7 +234,10 @@ void Group::printHex(std::ostream& stream) const {
  * @param which_channel Which PCM channel the station is on
  */
 Station::Station(const Options& options, int which_channel)
-    : options_(options), which_channel_(which_channel), tmc_(options) {}
+    : options_(options), which_channel_(which_channel), tmc_(options) {
+  // 32 segments of 4 bytes
+  ert_.text.resize(128);
+}
 
 Station::Station(const Options& options, int which_channel, std::uint16_t pi)
     : Station(options, which_channel) {
-- 
2.43.0


From 0bbfc5c1b7b407434d9be6564705297b70a5b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 10/33] fix: deinterleave the last chunk of a multi-channel
 signal

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 8da7f2d..6e14940 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,9 +133,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From e0b6c8667b0ab950e40a201b9b0ce438a19f88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:29 +0000
Subject: [PATCH 11/33] fix: report errors during processing instead of
 aborting

---
 src/redsea.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..fc92d6a 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -224,11 +224,16 @@ int main(int argc, char** argv) {
     return options.init_error ? EXIT_FAILURE : EXIT_SUCCESS;
   }
 
-  switch (options.input_type) {
-    case redsea::InputType::MPX_stdin:
-    case redsea::InputType::MPX_sndfile: return processMPXInput(options);
-    case redsea::InputType::ASCIIbits:   return processASCIIBitsInput(options);
-    case redsea::InputType::Hex:         return processHexInput(options);
-    case redsea::InputType::TEF6686:     return processTEFInput(options);
+  try {
+    switch (options.input_type) {
+      case redsea::InputType::MPX_stdin:
+      case redsea::InputType::MPX_sndfile: return processMPXInput(options);
+      case redsea::InputType::ASCIIbits:   return processASCIIBitsInput(options);
+      case redsea::InputType::Hex:         return processHexInput(options);
+      case redsea::InputType::TEF6686:     return processTEFInput(options);
+    }
+  } catch (const std::exception& e) {
+    std::cerr << "error: " << e.what() << std::endl;
+    return EXIT_FAILURE;
   }
 }
-- 
2.43.0


From 06444cc63b8f9af9a01924940edd4182e6c2974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:35 +0000
Subject: [PATCH 12/33] fix: undefined behaviour when converting an empty
 string

---
 ext/iconvpp/iconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/iconvpp/iconv.hpp b/ext/iconvpp/iconv.hpp
index c235d03..63d464a 100644
--- a/ext/iconvpp/iconv.hpp
+++ b/ext/iconvpp/iconv.hpp
@@ -68,7 +68,7 @@ class converter {
     // copy the string to a buffer as iconv function requires a non-const char
     // pointer.
     std::vector<char> in_buf(input.begin(), input.end());
-    char* src_ptr = &in_buf[0];
+    char* src_ptr = in_buf.data();
     size_t src_size = input.size();
 
     std::vector<char> buf(buf_size_);
-- 
2.43.0


From d9992822afaa67b08d86a174d43b1269116e8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:36 +0000
Subject: [PATCH 13/33] fix: too large a number of channels could wrap around
 to a valid one

---
 src/options.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..9870406 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
-        constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        constexpr unsigned long kMaxNumChannels{32};
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels            = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
-- 
2.43.0


From 8348432504eefe4e771e59cbf026d061e3cf3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:40 +0000
Subject: [PATCH 14/33] fix: do not append an extra bit at the end of ASCII bit
 input

---
 src/redsea.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index fc92d6a..19fbd78 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -170,7 +170,9 @@ int processASCIIBitsInput(const Options& options) {
   AsciiBitReader ascii_reader(options);
 
   while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+    const bool bit = ascii_reader.readBit();
+    if (!ascii_reader.eof())
+      channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0


From 58ae476bbd6fa0f91a662821b2a874c68d95a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:33 +0000
Subject: [PATCH 15/33] fix: decode UCS-2 Enhanced RadioText as big-endian
 two-byte characters

---
 src/text/rdsstring.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 4317cb1..8130a22 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -60,7 +60,7 @@ std::string getRDSCharString(std::uint8_t code) {
 
 // \throws Conversion errors from iconvpp
 std::string decodeUCS2(const std::string& src) {
-  static iconvpp::converter converter("UTF-8", "UCS-2");
+  static iconvpp::converter converter("UTF-8", "UCS-2BE");
 
   std::string dst;
   converter.convert(src, dst);
@@ -109,6 +109,15 @@ std::size_t RDSString::getReceivedLength() const {
 
 // Length, in bytes, up to the first string terminator, or the full allocated length
 std::size_t RDSString::getExpectedLength() const {
+  // UCS-2 characters take up two bytes each
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < data_.size(); i += 2) {
+      if (data_[i] == 0x00 && data_[i + 1] == kStringTerminator)
+        return i + 2;
+    }
+    return data_.size();
+  }
+
   const auto terminated_length =
       std::distance(data_.cbegin(),
                     std::find_if(data_.cbegin(), data_.cend(),
@@ -158,6 +167,18 @@ std::string RDSString::str() const {
 std::vector<std::uint8_t> RDSString::getData() const {
   const std::size_t len{getExpectedLength()};
   std::vector<std::uint8_t> result(len);
+
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < len; i += 2) {
+      const bool is_visible = sequential_length_ > i + 1 &&
+                              (data_[i] != 0x00 || (data_[i + 1] != kStringTerminator &&
+                                                    data_[i + 1] != 0x00));
+      result[i]             = is_visible ? data_[i] : 0x00;
+      result[i + 1]         = is_visible ? data_[i + 1] : kBlankSpace;
+    }
+    return result;
+  }
+
   for (std::size_t i = 0; i < len; i++) {
     result[i] = sequential_length_ > i && data_[i] != kStringTerminator && data_[i] != 0x00
                     ? data_[i]
-- 
2.43.0


From 315e6ad13cfec013e20dbaadc42c6d2bc6095463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:11 +0000
Subject: [PATCH 16/33] fix: correct burst errors in block 3 of version B
 groups

The offset word C' was only expected when it had already been seen without
errors, so damaged C' blocks were matched against C instead: never repaired,
and in two cases 'repaired' to wrong contents.
---
 src/block_sync.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/block_sync.cc b/src/block_sync.cc
index 06b0102..ac3a1c5 100644
--- a/src/block_sync.cc
+++ b/src/block_sync.cc
@@ -268,7 +268,12 @@ void BlockStream::findBlockInInputRegister() {
   acquireSync(block);
 
   if (is_in_sync_) {
-    if (expected_offset_ == Offset::C && block.offset == Offset::Cprime)
+    // Block 3 of version B groups uses the offset word C'. If this block has errors, the version
+    // is still known from block 2.
+    const bool is_version_b =
+        current_group_.has(BLOCK2) && getBool(current_group_.get(BLOCK2), 11);
+    if (expected_offset_ == Offset::C &&
+        (block.offset == Offset::Cprime || (block.offset != Offset::C && is_version_b)))
       expected_offset_ = Offset::Cprime;
 
     block.had_errors = (block.offset != expected_offset_);
-- 
2.43.0


From 32b510766e40143c1252afe25fa61a87808dca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:59 +0000
Subject: [PATCH 17/33] fix: offsets of the first and last point of a road were
 ignored

---
 src/tmc/locationdb.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..7e1fc74 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -158,8 +158,13 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   for (const CSVRow& row : table.rows) {
     try {
       const auto lcd = get_uint16(table, row, "LCD");
-      const auto neg = get_uint16(table, row, "NEG_OFF_LCD");
-      const auto pos = get_uint16(table, row, "POS_OFF_LCD");
+      // The first and last points of a road only have an offset in one direction
+      std::uint16_t neg = 0;
+      if (row_contains(table, row, "NEG_OFF_LCD"))
+        neg = get_uint16(table, row, "NEG_OFF_LCD");
+      std::uint16_t pos = 0;
+      if (row_contains(table, row, "POS_OFF_LCD"))
+        pos = get_uint16(table, row, "POS_OFF_LCD");
       if (locdb.points.find(lcd) != locdb.points.end()) {
         locdb.points[lcd].neg_off = neg;
         locdb.points[lcd].pos_off = pos;
-- 
2.43.0


From 9e90a215c3c3a10215368795f44594cb68a94d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:29 +0000
Subject: [PATCH 18/33] fix: undefined behaviour with an invalid key in the
 service key table

---
 src/tmc/tmc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..1a85542 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -370,6 +370,10 @@ std::map<std::uint16_t, ServiceKey> loadServiceKeyTable() {
       continue;
     }
 
+    // The XOR value has to start within the 16-bit location code
+    if (key.xorstart > 15)
+      continue;
+
     result.insert({encid, key});
   }
 
-- 
2.43.0


From 37aedc3d1f8b49c9175588025775eae2d57bd61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 19/33] fix: reception times of multi-channel signals were
 stuck at 1970

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 6e14940..4e5fddb 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -136,7 +136,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From 5fad6f9408f9a3ddde7b508b02449f009d8f8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 20/33] fix: sample rates between 34.2 and 40 MHz were
 accepted, then refused

---
 src/dsp/liquid_wrappers.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..dcfd8d0 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -23,6 +23,8 @@
 #include <cstdint>
 #include <stdexcept>
 
+#include "src/constants.hh"
+
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Wdeprecated-declarations"
 // https://github.com/jgaeddert/liquid-dsp/issues/229
@@ -219,8 +221,8 @@ Resampler::Resampler(std::uint32_t length)
 }
 
 void Resampler::setRatio(float ratio) {
-  // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  // Liquid can't take very small ratios, and we only reserved kOutputArraySize in the output buffer.
+  if (ratio < redsea::kLiquidMinimumResamplerRatio || ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From d0ca1d2b404be66af07f38ff4a652f998a115a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 21/33] fix: reception was poor for good after digital silence

---
 src/dsp/liquid_wrappers.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index dcfd8d0..af86d53 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -52,6 +52,13 @@ AGC::~AGC() {
 std::complex<float> AGC::execute(std::complex<float> s) {
   std::complex<float> result;
   agc_crcf_execute(object_, s, &result);
+
+  // When a signal comes up after silence, liquid's AGC reduces the gain by far too much. Left
+  // alone, the gain can end up so low that it's never increased again.
+  constexpr float kMinimumGain = 1e-6f;
+  if (agc_crcf_get_gain(object_) < kMinimumGain)
+    agc_crcf_set_gain(object_, kMinimumGain);
+
   return result;
 }
 
-- 
2.43.0


From 748c1a1fc88d60e4e1cf6f0e86f4c1b6bfddf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:24 +0000
Subject: [PATCH 22/33] fix: TMC messages of three or four groups lost all data
 after the second group

---
 src/tmc/tmc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 1a85542..85709c3 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,10 +83,10 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
-    if (!parts[i].is_received)
-      break;
-
     if (i == 1 || i >= parts.size() - second_gsi) {
+      if (!parts[i].is_received)
+        break;
+
       for (int b = 0; b < 12; b++)
         freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
                                      1U);
-- 
2.43.0


From 866fdfc800c1b35392564153a6f6b12e1160ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:24 +0000
Subject: [PATCH 23/33] fix: mapped AM frequencies of other networks were shown
 as FM frequencies

---
 src/groups.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index f378b03..0d12f09 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -952,7 +952,10 @@ void Station::decodeType14(const Group& group) {
     case 7:
     case 8:
     case 9: {
-      const CarrierFrequency freq_other(getUint8(group.get(BLOCK3), 0));
+      // Variant 9 maps to an AM frequency
+      const CarrierFrequency freq_other(
+          getUint8(group.get(BLOCK3), 0),
+          eon_variant == 9 ? CarrierFrequency::Band::LF_MF : CarrierFrequency::Band::FM);
 
       if (freq_other.isValid())
         json_["other_network"]["kilohertz"] = freq_other.kHz();
-- 
2.43.0


From 0d7df30b4aed49a85f4733fcb78532adcf342ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:38 +0000
Subject: [PATCH 24/33] fix: TMC tuning information did not show frequencies
 without a list length

---
 src/tmc/tmc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 85709c3..e5bccbe 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -549,6 +549,8 @@ void TMCService::receiveUserGroup(std::uint16_t x, std::uint16_t y, std::uint16_
         if (other_network_freqs_.find(on_pi) == other_network_freqs_.end())
           other_network_freqs_.insert({on_pi, AltFreqList()});
 
+        // There may be no list length code, so make room for both (226: two frequencies follow)
+        other_network_freqs_.at(on_pi).insert(226);
         other_network_freqs_.at(on_pi).insert(getUint8(y, 8));
         other_network_freqs_.at(on_pi).insert(getUint8(y, 0));
 
-- 
2.43.0


From 428c3601a5348287078a42fa6697c24b0305e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:32 +0000
Subject: [PATCH 25/33] fix: TMC points were ignored if the road of their
 segment was not in the table

---
 src/tmc/locationdb.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 7e1fc74..19f94fd 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -143,9 +143,7 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
         point.road_name = locdb.names[rnid];
 
       if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end()) {
-        point.roa_lcd   = locdb.segments.at(point.seg_lcd).roa_lcd;
-        point.road_name = locdb.roads.at(point.roa_lcd).name;
-        point.road_name = locdb.names[rnid];
+        point.roa_lcd = locdb.segments.at(point.seg_lcd).roa_lcd;
       }
 
       locdb.points[point.lcd] = point;
-- 
2.43.0


From 5ddd171773e018655c415f64d86ddaf958cd0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 26/33] fix: unknown options and missing option values must be
 an error

---
 src/options.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index 9870406..a50a310 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -57,7 +57,7 @@ Options getOptions(int argc, char** argv) {
       {"version",      no_argument,       nullptr,   'v'},
       {"output-hex",   no_argument,       nullptr,   'x'},
       {"no-fec",       no_argument,       &fec_flag, 0  },
-      {"help",         no_argument,       nullptr,   '?'},
+      {"help",         no_argument,       nullptr,   'H'},
       {nullptr,        0,                 nullptr,   0  }
   }};
   // clang-format on
@@ -155,7 +155,11 @@ Options getOptions(int argc, char** argv) {
       case 'u': options.rbds = true; break;
       case 'l': options.loctable_dirs.emplace_back(optarg); break;
       case 'v': options.print_version = true; break;
-      case '?': options.print_usage = true; break;
+      case 'H': options.print_usage = true; break;
+      case '?':  // Unknown option or missing value, unless help was requested by "-?"
+        options.print_usage = true;
+        options.init_error  = (optopt != '?');
+        break;
       default:
         options.print_usage = true;
         options.init_error  = true;
-- 
2.43.0


From 2c7b5afcab93d6b9cb180e6aedf9c168f9e6291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 27/33] fix: feed-through of bits appended a byte at the end of
 input

---
 src/io/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 4e5fddb..4c493a9 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -164,7 +164,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
-- 
2.43.0


From 5db295356481585a0c69c972d0bdad3242a727cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 28/33] fix: refuse 'nan' as a sample rate

---
 src/options.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index a50a310..0608707 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -136,8 +136,9 @@ Options getOptions(int argc, char** argv) {
         if (errno == ERANGE) {
           throw std::runtime_error("check the sample rate");
         }
-        if (options.samplerate < kMinimumSampleRate_Hz ||
-            options.samplerate > kMaximumSampleRate_Hz) {
+        // (NaN compares false with everything)
+        if (!(options.samplerate >= kMinimumSampleRate_Hz &&
+              options.samplerate <= kMaximumSampleRate_Hz)) {
           throw std::runtime_error("sample rate was set to " + std::to_string(options.samplerate) +
                                    ", but it must be between " +
                                    std::to_string(kMinimumSampleRate_Hz) + " and " +
-- 
2.43.0


From 5e63c3cfc350915246a3b260acc796b3fb0052ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 29/33] fix: refuse negative channel counts that wrap around to
 a valid one

---
 src/options.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options.cc b/src/options.cc
index 0608707..1a4fb30 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -77,7 +77,9 @@ Options getOptions(int argc, char** argv) {
         const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
         constexpr unsigned long kMaxNumChannels{32};
-        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
+        // strtoul accepts negative numbers as well, wrapping them around
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels ||
+            std::string(optarg).find('-') != std::string::npos) {
           throw std::runtime_error("check the number of channels");
         }
         options.num_channels            = static_cast<std::uint32_t>(num_channels);
-- 
2.43.0


From 4d41932acc22810d846a06cda156bfa13a54b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 30/33] fix: treat only the TEF blocks flagged as having errors
 as lost

---
 src/io/input.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 4c493a9..a0fb59f 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -284,9 +284,9 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0b11U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0b11U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0b11U) == 0;
 
         if (blocks[0].is_received)
           group.setBlock(BLOCK2, blocks[0]);
-- 
2.43.0


From 3b712e8ef5b2e3faf7d394495d064a0c96cf5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 31/33] fix: replace every %f in the time format and leave %%f
 alone

---
 src/util.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d33e335..7b26600 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -46,15 +46,19 @@ std::string getTimePointString(const std::chrono::time_point<std::chrono::system
       std::chrono::system_clock::time_point(seconds_since_epoch));
 
   std::string format_with_fractional(format);
-  const std::size_t found = format_with_fractional.find("%f");
-  if (found != std::string::npos) {
+  // Every conversion specification is skipped as a whole, so that "%%f" is left alone
+  for (std::size_t i = format_with_fractional.find('%'); i != std::string::npos;
+       i = format_with_fractional.find('%', i + 2)) {
+    if (format_with_fractional.compare(i, 2, "%f") != 0)
+      continue;
+
     const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(
                         timepoint.time_since_epoch() - seconds_since_epoch)
                         .count();
     const auto hundredths = (ms / 10) % 10;
     const auto tenths     = (ms / 100) % 10;
 
-    format_with_fractional.replace(found, 2, std::to_string(tenths) + std::to_string(hundredths));
+    format_with_fractional.replace(i, 2, std::to_string(tenths) + std::to_string(hundredths));
   }
 
   std::array<char, 64> buffer{};
-- 
2.43.0


From 0708d046ee82b960f6546b2d489a1d7d636565b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 32/33] fix: don't overflow the stack on a long encoding name
 in README.DAT

---
 src/tmc/locationdb.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 19f94fd..b92f380 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -70,9 +70,12 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   }
 
   // Misspelled encodings in the wild (TODO a better way to do this)
-  if (std::regex_match(encoding, std::regex("ISO.8859-1\\b.*")))
+  // (Only the beginning is matched, because std::regex would run out of stack with a long ".*")
+  if (std::regex_search(encoding, std::regex("ISO.8859-1\\b"),
+                        std::regex_constants::match_continuous))
     encoding = "ISO-8859-1";
-  if (std::regex_match(encoding, std::regex("ISO.8859-15\\b.*")))
+  if (std::regex_search(encoding, std::regex("ISO.8859-15\\b"),
+                        std::regex_constants::match_continuous))
     encoding = "ISO-8859-15";
 
   const iconvpp::converter converter("UTF-8", encoding);
-- 
2.43.0


From c10e7cc8de1993ff43d320177c0d55a101dc4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 33/33] fix: parse hex lines in linear time

---
 src/io/input.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index a0fb59f..d3379d8 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -206,19 +206,20 @@ Group readHexGroup(const Options& options) {
     }
     group.setDataStream(n_stream);
 
+    std::size_t position = 0;
     for (const eBlockNumber block_num : {BLOCK1, BLOCK2, BLOCK3, BLOCK4}) {
       Block block;
       bool block_still_valid = true;
 
       int which_nibble = 0;
       while (which_nibble < 4) {
-        if (line.length() < 1) {
+        if (position >= line.length()) {
           group_complete    = true;
           block_still_valid = false;
           break;
         }
 
-        const std::string single = line.substr(0, 1);
+        const std::string single = line.substr(position, 1);
 
         if (single != " ") {
           try {
@@ -229,7 +230,7 @@ Group readHexGroup(const Options& options) {
           }
           which_nibble++;
         }
-        line = line.substr(1);
+        position++;
       }
 
       if (block_still_valid) {
-- 
2.43.0

