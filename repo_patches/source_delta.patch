From a395c4c537b455c08888f80172961e86d06ae07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 01/39] fix: CircularBufferOpt::fill_buffer filled a byte count
 instead of an element count for element types wider than a byte

---
 util/circular_buffer_opt.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..0033c0b 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,11 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		buf_.fill(val);
 	}
 
 	// Alias for count()
-- 
2.43.0


From 705756e269941e90277e3c02ddb0b49e73f9d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 02/39] fix: FixedVector insert and erase indexed one past the
 storage when the vector was full

---
 util/fixed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fixed_vector.hh b/util/fixed_vector.hh
index 0379247..46ce821 100644
--- a/util/fixed_vector.hh
+++ b/util/fixed_vector.hh
@@ -105,7 +105,7 @@ public:
 			return;
 		}
 
-		std::move_backward(&data[index], &data[back_idx], &data[back_idx + 1]);
+		std::move_backward(begin() + index, end(), end() + 1);
 
 		data[index] = d;
 		back_idx++;
@@ -120,7 +120,7 @@ public:
 			return;
 		}
 
-		std::move(&data[index + 1], &data[back_idx], &data[index]);
+		std::move(begin() + index + 1, end(), begin() + index);
 		back_idx -= 1;
 	}
 
-- 
2.43.0


From 01d3f096bbea296d582206f3e33a172e39adb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 03/39] fix: SequentialMap::insert did not store the value

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..7c133e1 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -49,7 +49,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From 2e9e1ca0e1d239078c28720f3fd4eeeec8d7be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 04/39] fix: const lookup of a missing key in SequentialMap
 returned a reference to a destroyed temporary

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 7c133e1..2880e1e 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT not_found{};
+		return not_found;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From e7f6a38d989f8be8ee88b92af7f2bbf8da0e4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 05/39] fix: CompactBinaryParser accepted nodes whose size
 wraps or is negative and handed out data outside the blob

---
 util/compact_binary_parser.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..d646c4c 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -57,7 +57,7 @@ struct CompactBinaryParser {
 	constexpr std::optional<T> get(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
 		if (sz == sizeof(T)) {
-			if (size_t(offset + sz) <= blob.size()) {
+			if (size_t(sz) <= blob.size() - size_t(offset)) {
 				auto parsing = blob.subspan(offset);
 				return as<T>(parsing);
 			}
@@ -67,7 +67,8 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		// offset never exceeds the blob size, but sz can be any value (or negative, if DataSizeT is signed)
+		if (size_t(sz) <= blob.size() - size_t(offset))
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From d55a4d65d8d3ef0ac3adab94e70a05e8f73f2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 06/39] fix: SPSC FIFO consumer read elements without acquiring
 the producer's publication

---
 util/lockfree_fifo_spsc.hh     | 6 +++---
 util/lockfree_fifo_spsc_dyn.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..95d3e50 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -66,7 +66,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -80,7 +80,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
@@ -98,7 +98,7 @@ public:
 	void remove_first() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail != head_.load(std::memory_order_relaxed))
+		if (tmp_tail != head_.load(std::memory_order_acquire))
 			tail_.store(++tmp_tail, std::memory_order_release);
 	}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..d94ed4a 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
@@ -118,7 +118,7 @@ public:
 	void remove_first() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail != head_.load(std::memory_order_relaxed))
+		if (tmp_tail != head_.load(std::memory_order_acquire))
 			tail_.store(++tmp_tail, std::memory_order_release);
 	}
 
-- 
2.43.0


From 7825270d8cce1b5742671c8168574e337428a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 07/39] fix: LockFreeFifoSpsc constructed from a span copied
 max_size bytes instead of elements

---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 95d3e50..196d0ab 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <optional>
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		std::copy(src.begin(), src.end(), buf_.begin());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From 3a34543b3cb9d2ca425d6a671dd838d4aba9af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 08/39] fix: wear level read() validated stale data when a cell
 could not be read

---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..9f30a7a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From 127128b465001c8f5760262e778fb35ab56f685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 09/39] fix: wear level write() asked the storage about the
 cell past the end of the block

---
 util/wear_level.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 9f30a7a..a850a85 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -58,7 +58,7 @@ public:
 	// Otherwise it writes the data and returns the result of the low-level write.
 	bool write(const data_t &data) {
 		bool erased_once = false;
-		while (!storage.is_writeable(cell_)) {
+		while (cell_ >= Storage::NumCells || !storage.is_writeable(cell_)) {
 			cell_++;
 			if (cell_ >= Storage::NumCells) {
 				if (erased_once)
@@ -106,7 +106,7 @@ public:
 
 	bool write(const data_t &data) {
 		bool erased_once = false;
-		while (!Storage::is_writeable(cell_)) {
+		while (cell_ >= Storage::cell_nr_ || !Storage::is_writeable(cell_)) {
 			cell_++;
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
-- 
2.43.0


From 8eced68a0cd8e55bbd86ad09847a6c9c9bacf34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 10/39] fix: WearLevel read() and write() left the block after
 a failed erase

---
 util/wear_level.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index a850a85..9582fb9 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -111,8 +111,10 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					cell_ = 0;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From 5c640767c76749d6bf9e7c76754c023abafcb277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 11/39] fix: int_to_str and int_to_str_chop dropped every zero
 after the first digit

---
 util/int_to_str.cc | 52 +++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..7daabc5 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,10 +19,11 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, bool &print_zero, unsigned avail) {
+	if (print_zero || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		print_zero = true;
 		return avail > Log10<Place>() ? '0' + dig : 0;
 	}
 	return 0;
@@ -45,26 +46,27 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	unsigned val = value;
+	bool print_zero = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
@@ -75,10 +77,11 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &print_zero) {
+	if (print_zero || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		print_zero = true;
 		return '0' + dig;
 	}
 	return 0;
@@ -118,26 +121,27 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		return false;
 
 	unsigned val = value;
+	bool print_zero = false;
 
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, print_zero); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 4fd986ee8427389e50c6338f7fd6c56626fa2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 12/39] fix: int_to_str wrote zero past the end of a buffer
 shorter than two

---
 util/int_to_str.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 7daabc5..68a5bf4 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -111,6 +111,8 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
-- 
2.43.0


From c20378f2f1db206cf47cb10a3261de9acd841793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 13/39] fix: int_to_str and int_to_str_chop negated INT32_MIN

---
 util/int_to_str.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 68a5bf4..4e7d18f 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -41,11 +41,11 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 	}
 
 	unsigned len = 0;
+	unsigned val = value;
 	if (value < 0) {
 		buf[len++] = '-';
-		value = -value;
+		val = -val;
 	}
-	unsigned val = value;
 	bool print_zero = false;
 
 	if (char dig = digit<1000000000>(val, print_zero, buf.size() - len); dig)
@@ -104,11 +104,12 @@ unsigned num_digits(unsigned value) {
 
 bool int_to_str(int32_t value, const std::span<char> buf) {
 	int len = 0;
+	unsigned val = value;
 	if (value < 0) {
 		if (!buf.size())
 			return false;
 		buf[len++] = '-';
-		value = -value;
+		val = -val;
 	}
 	if (value == 0) {
 		if (buf.size() < 2)
@@ -118,11 +119,10 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		return true;
 	}
 
-	auto num_dig = num_digits(value);
+	auto num_dig = num_digits(val);
 	if ((num_dig + len + 1) > buf.size())
 		return false;
 
-	unsigned val = value;
 	bool print_zero = false;
 
 	if (char dig = _digit<1000000000>(val, print_zero); dig)
-- 
2.43.0


From 0ddc582d5e857f2d277a6be598972ba68341584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 14/39] fix: print of a string_view ignored its length and read
 on to the next zero byte

---
 util/print.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..5d5507b 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (char c : str)
+		putc(c);
 }
 
 namespace
-- 
2.43.0


From 1e58789144ea9da2e605515dbf3ddd1ddafa51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 15/39] fix: print negated INT32_MIN

---
 util/print.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index 5d5507b..ba056a3 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -51,7 +51,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = -static_cast<unsigned>(val);
 	} else
 		uval = val;
 
-- 
2.43.0


From 16ef8d3fc9b86e53ae63857be7ea61ede9e18b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 16/39] fix: PollEvent missed a late poll after the clock
 wrapped and overflowed on signed clocks

---
 util/poll_event.hh | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..98d58d8 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -7,16 +8,9 @@ struct PollEvent {
 	}
 
 	void poll(TimeT now, auto action) {
-		bool expired = false;
-
-		// Handle overflow
-		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
-				expired = true;
-			}
-		} else if ((now - last_poll) >= period) {
-			expired = true;
-		}
+		// Unsigned difference is correct across an overflow of the clock
+		using Ticks = std::make_unsigned_t<TimeT>;
+		bool expired = TimeT(Ticks(now) - Ticks(last_poll)) >= period;
 
 		if (expired) {
 			last_poll = now;
-- 
2.43.0


From a5cf604cbb7b691ac5db116d239077ba6010516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 17/39] fix: hysteresis_gate switched on half way between the
 thresholds instead of above the turn-on threshold

---
 util/math.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 082f113..7dbcba6 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -336,11 +336,9 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
-	float test_signal = new_input + feedback;
-	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
-	return test_signal > threshold ? 1.f : 0.f;
+	if (last_output > 0.5f)
+		return new_input < turn_off_thresh ? 0.f : 1.f;
+	return new_input > turn_on_thresh ? 1.f : 0.f;
 }
 
 // Apply a hysteresis threshold on a gate signal. Assumes 0.0f = off, 1.0f = on
-- 
2.43.0


From 113c8dd460e7a187a892ce21cb9d1efae49024c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 18/39] fix: next_power_of_2 of a 64-bit value looked at its
 low 32 bits only

---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 7dbcba6..a6f5e1c 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -103,7 +103,7 @@ constexpr T next_power_of_2(T value) noexcept {
 	if (value == 0 || value == 1)
 		return 1;
 
-	if (is_power_of_2(value))
+	if ((value & (value - 1)) == 0)
 		return value;
 
 	value |= value >> 1;
-- 
2.43.0


From 7350408f62aa09e0b0eebc9499020e17a015c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 19/39] fix: integer interpolate divided unsigned, so negative
 values came out wrong

---
 util/math.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index a6f5e1c..4cb5961 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,8 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	constexpr int64_t max = PhaseMax;
+	return (int64_t{in2} * phase + int64_t{in1} * (max - phase)) / max;
 }
 
 template<class T>
-- 
2.43.0


From f381aec6e87275c90696aee8ea7bba80a52b591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 20/39] fix: OR() of a list of enum values started from an
 uninitialised value

---
 util/bitfield.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..1a77451 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -23,7 +23,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val{};
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From 2cde568b1679e706bd23c82c5603e3cac55f0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 21/39] fix: copying a view into a StaticString of capacity 0
 wrote past the end

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From a9a66702e68b329ee436b580c3ea3b31df1cbd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 22/39] fix: Version read digits past the end of the text and
 took numbers modulo 2^32

---
 util/version_tools.hh | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..7c17ab4 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -1,6 +1,5 @@
 #pragma once
 #include <cstdint>
-#include <cstdlib>
 #include <string_view>
 
 namespace VersionUtil
@@ -25,6 +24,27 @@ struct Version {
 			revision = val;
 	}
 
+	// Leading decimal number of a token (0 if there is none), without reading past the token's end.
+	// Numbers that no field can hold, including negative ones, yield a value that set_field() ignores.
+	static unsigned parse_num(std::string_view token) {
+		const auto start = token.find_first_not_of(" \t\n\v\f\r");
+		token.remove_prefix(start == token.npos ? token.size() : start);
+
+		const bool negative = token.starts_with('-');
+		if (negative || token.starts_with('+'))
+			token.remove_prefix(1);
+
+		unsigned num = 0;
+		for (char c : token) {
+			if (c < '0' || c > '9')
+				break;
+			num = num * 10 + (c - '0');
+			if (num > 255)
+				break;
+		}
+		return negative && num > 0 ? 256 : num;
+	}
+
 	Version() = default;
 
 	Version(uint8_t maj, uint8_t min, uint8_t rev)
@@ -46,8 +66,7 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
-			set_field(i++, num);
+			set_field(i++, parse_num(token));
 
 			if (pos == std::string_view::npos) {
 				// "normal" means not a pre-release, meaning there's no dash after the last number
-- 
2.43.0


From 4e82a25b0d3df75d700e9b35b6a4df62afbaae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 23/39] fix: replace_all skipped matches or replaced its own
 replacements, and never ended on an empty search text

---
 util/string_util.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..1d3171e 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -10,6 +10,9 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
+
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
@@ -17,7 +20,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From ea77c522e072395abfe919de96b8889fb217c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 24/39] fix: contains_word passed negative characters to
 tolower, which is undefined

---
 util/contains_word.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/contains_word.hh b/util/contains_word.hh
index 0dc9983..2602769 100644
--- a/util/contains_word.hh
+++ b/util/contains_word.hh
@@ -1,12 +1,13 @@
 #include <algorithm>
+#include <cctype>
 #include <string>
 
 inline bool contains_word(std::string const &name, std::string const &word) {
 	// Case-insensitive:
 	std::string lname = name;
-	std::transform(lname.begin(), lname.end(), lname.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lname.begin(), lname.end(), lname.begin(), [](unsigned char c) { return std::tolower(c); });
 	std::string lword = word;
-	std::transform(lword.begin(), lword.end(), lword.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lword.begin(), lword.end(), lword.begin(), [](unsigned char c) { return std::tolower(c); });
 
 	std::string space_lword = " " + lword;
 	std::string lword_space = lword + " ";
-- 
2.43.0


From 50a9b35cf3c89d23f8af680a3f5dd19714134d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 25/39] fix: adding colours wrapped around where the target's
 instruction saturates

---
 util/colors.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/colors.hh b/util/colors.hh
index f342251..6343fa1 100644
--- a/util/colors.hh
+++ b/util/colors.hh
@@ -5,7 +5,7 @@
 #include "cmsis_gcc.h"
 #define builtin_add_u8(x, y) __UQADD8(x, y)
 #elif defined(__USAT)
-#define builtin_add_u8(x, y) ((x) + (y))
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #else
 static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	if (sat <= 31U) {
@@ -18,7 +18,7 @@ static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	}
 	return (uint32_t)val;
 }
-#define builtin_add_u8(x, y) ((x) + (y))
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #endif
 
 struct Color {
-- 
2.43.0


From e86c7864c78c533cc1d87f0217dd106cdcb8f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 26/39] fix: RGB565 converted floats to integers before
 clamping them

---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..2b39277 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(static_cast<uint16_t>(std::clamp(blue * 32.f, 0.f, 31.f)))
+		, g(static_cast<uint16_t>(std::clamp(green * 64.f, 0.f, 63.f)))
+		, r(static_cast<uint16_t>(std::clamp(red * 32.f, 0.f, 31.f))) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From aca14da40876a7e7c4d540e838aecae0da0eb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 27/39] fix: CircularBufferBlock copied as many bytes as it
 should have copied elements

---
 util/circular_buffer_block.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..e6708a2 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -1,8 +1,8 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
+#include <array>
 #include <cstdint>
-#include <cstdio>
-#include <cstring>
 #include <span>
 
 template<typename T, size_t SIZE>
@@ -17,11 +17,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::copy(block.begin(), block.end(), begin);
 		} else {
-			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			auto space_avail = size() - offset;
+			std::copy(block.begin(), block.begin() + space_avail, begin);
+			std::copy(block.begin() + space_avail, block.end(), data.begin());
 		}
 	}
 
-- 
2.43.0


From a0921ea1ae68672dac12467f929d93ed8d09db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 28/39] fix: RectC did not intersect a rectangle within its
 horizontal extent

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From 7eb8e23babfb2df68e60deed0c4a77d8dc803219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 29/39] fix: is_poly_concave lost the sign of cross products
 that do not fit or round to an int

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 9f7aa78..a2fd925 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -87,7 +87,7 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 			continue;
 
 		if (sign == 0)
-			sign = cross;
+			sign = cross > 0 ? 1 : -1;
 
 		if ((sign > 0 && cross < 0) || (sign < 0 && cross > 0))
 			return true;
-- 
2.43.0


From 74a27fce097ac7dbe57d55269e67c887c78cc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 30/39] fix: maximum of an all-negative float signal was
 positive

---
 util/analyzed_signal.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From eb78d537c4d1bea65915c7620229acaa98be6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 31/39] fix: AudioFrame saturated to 24 bits whatever its
 width, and overflowed before saturating

---
 util/audio_frame.hh | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..b6fbbfd 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -34,13 +34,8 @@ public:
 
 		if constexpr (std::is_signed_v<SampleType>) {
 
-			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
-			} else {
-				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
-				return static_cast<SampleType>(v * kOutScaling);
-			}
+			const float v = MathTools::constrain(val, -1.f, 1.f) * kOutScaling;
+			return v < kOutScaling ? static_cast<SampleType>(v) : static_cast<SampleType>(kMaxValue - 1);
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
-- 
2.43.0


From 1224b26dbe50d48265b3c97ede9f98c74d3bcd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 32/39] fix: AudioFrame::sign_extend read four bytes whatever
 the size of a sample

---
 util/audio_frame.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index b6fbbfd..481588a 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -48,10 +48,10 @@ public:
 		if constexpr ((sizeof(SampleType) * 8u) == UsedBits)
 			return v;
 		else {
-			using S = struct {
-				signed Val : UsedBits;
-			};
-			return reinterpret_cast<const S *>(&v)->Val;
+			using Signed = std::make_signed_t<SampleType>;
+			using Unsigned = std::make_unsigned_t<SampleType>;
+			constexpr auto unused_bits = kSampleTypeBits - UsedBits;
+			return static_cast<SampleType>(static_cast<Signed>(static_cast<Unsigned>(v) << unused_bits) >> unused_bits);
 		}
 	}
 };
-- 
2.43.0


From 781f5e75c65b5228398a631c7e103990d8b8b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 33/39] fix: AlignedAllocator returned a small block if the
 size in bytes overflowed

---
 util/aligned_allocator.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..6251f32 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -16,6 +16,9 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		if (n > (static_cast<std::size_t>(-1) - (Alignment - 1)) / sizeof(T))
+			return nullptr;
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
-- 
2.43.0


From 7684ca6dfb2fbd39bb302205807c316859f8d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 34/39] fix: TriangleOscillator::set_period_ms divided by zero
 below one second and rounded to whole seconds above

---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..31a984a 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint64_t>(freq_units) * 1000 / period_ms;
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From f1b6edec373c60011c675b6d71af71e69292703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 35/39] fix: LED flashes of more than a second never showed
 because their frequency was rounded down to 0

---
 util/oscs.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/oscs.hh b/util/oscs.hh
index 31a984a..2087b03 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -196,6 +196,13 @@ struct DownCounter {
 	void set_frequency(uint32_t freq) {
 		increment_ = freq * freq_units;
 	}
+	void set_frequency(int freq) {
+		increment_ = freq * freq_units;
+	}
+	void set_frequency(float freq) {
+		const float inc = freq * static_cast<float>(freq_units);
+		increment_ = inc < static_cast<float>(max_) ? static_cast<uint32_t>(inc) : max_;
+	}
 	void set_period_ms(uint32_t ms) {
 		increment_ = (float)freq_units / (ms / 1000.f);
 	}
-- 
2.43.0


From 8014246cdca7ac6b6c5e76ec26dcd4d334a59983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 36/39] fix: copying a FunctionSized copied the bytes of its
 callable, which was then destroyed twice

---
 util/callable.hh | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..bf8d6b8 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -26,13 +26,24 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(FunctionSized const &other) {
+		copy_from(other);
+	}
+
+	FunctionSized &operator=(FunctionSized const &other) {
+		if (this != &other) {
+			destroy();
+			copy_from(other);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		destroy();
 	}
 
 	Ret call(Args... args) {
@@ -57,18 +68,33 @@ private:
 			return callable(std::forward<Args>(args)...);
 	}
 
+	// Destroys the object, or copy-constructs it from source if there is one
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, const void *source) {
+		if (source)
+			new (object) Callable(*reinterpret_cast<const Callable *>(source));
+		else
+			reinterpret_cast<Callable *>(object)->~Callable();
+	}
+
+	void destroy() {
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
+	}
+
+	void copy_from(FunctionSized const &other) {
+		m_callback = other.m_callback;
+		m_manage = other.m_manage;
+		if (m_manage)
+			m_manage(&m_data[0], &other.m_data[0]);
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	using Manager = void (*)(void *, const void *);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From 1a33979bdd6ce347f8c882456c01d9bfa4249715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 37/39] fix: interpolating arrays with a negative phase read
 past the table

---
 util/interp_array.hh | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..00cf47d 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -23,11 +23,18 @@ struct InterpArray {
 
 	// Return an interpolated value where index = 0 and index = Size are the first element
 	constexpr T interp_by_index_wrap(const PhaseT index) const {
-		unsigned int idx0 = static_cast<unsigned int>(index);
-		const auto phase = index - static_cast<PhaseT>(idx0);
+		// A negative index counts backwards from the first element
+		const bool backwards = index < 0;
+		const PhaseT distance = backwards ? -index : index;
+		unsigned int idx0 = static_cast<unsigned int>(distance);
+		const auto phase = distance - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
 			idx0 -= Size;
-		const unsigned int idx1 = (idx0 == (Size - 1)) ? 0 : idx0 + 1;
+		if (backwards && idx0 > 0)
+			idx0 = Size - idx0;
+		const unsigned int next = (idx0 == (Size - 1)) ? 0 : idx0 + 1;
+		const unsigned int prev = (idx0 == 0) ? Size - 1 : idx0 - 1;
+		const unsigned int idx1 = backwards ? prev : next;
 
 		return (data[idx1] * phase) + (data[idx0] * ((PhaseT)(1.) - phase));
 		// return data[idx0] + (data[idx1] - data[idx0]) * phase;
@@ -64,9 +71,17 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		const PhaseT index = phase * Size;
+		const bool backwards = index < 0;
+		const PhaseT distance = backwards ? -index : index;
+		auto idx = static_cast<unsigned int>(distance);
+		// Counting backwards, a partial step also reaches the element before
+		if (backwards && distance > static_cast<PhaseT>(idx))
+			idx++;
 		while (idx >= Size)
 			idx -= Size;
+		if (backwards && idx > 0)
+			idx = Size - idx;
 		return data[idx];
 	}
 
-- 
2.43.0


From 46160d601b5247942ece408bb46fd928f71c7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 38/39] fix: looking up what is not a number read past the
 table

---
 util/lookup_table.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/lookup_table.hh b/util/lookup_table.hh
index d690ebe..82e0676 100644
--- a/util/lookup_table.hh
+++ b/util/lookup_table.hh
@@ -46,7 +46,7 @@ public:
 	constexpr T lookup(T val) const {
 		T idx = ((val - min) / (max - min)) * (NumPoints - 1);
 
-		if (idx <= 0.f)
+		if (!(idx > 0.f)) // also when val is not a number
 			return points.front();
 		else if (idx >= (NumPoints - 1))
 			return points.back();
-- 
2.43.0


From 0c42c6d83f3cf59c0043654e2104fb30e7dc445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 39/39] fix: pow2 of a negative exponent read in front of its
 table

---
 util/math.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 4cb5961..542aa00 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -276,7 +276,10 @@ static inline constexpr float pow2(float x) {
 	x = x / 5.0f;
 	float res = 1.f;
 	for (;;) {
-		if (x < 1.f) {
+		if (x < 0.f) {
+			res /= 32.f;
+			x += 1.f;
+		} else if (x < 1.f) {
 			// Note: exp5Table.interp(x) = 2^(x*5), where 0 <= x <= 1
 			res *= exp5Table.interp(x);
 			break;
-- 
2.43.0

