From e3a700b59ed334d9ed9832ec032a485523ded8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:09 +0000
Subject: [PATCH 01/20] fix: don't write the symbol of a repair twice

A repair's symbol was serialized a second time after the encoded size. The reader ignores these
bytes, thus each repair used twice the needed bandwidth and more bytes than reported as read.
---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From 624e7edfc952eeb874859f7febd05e7cd06ae57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:09 +0000
Subject: [PATCH 02/20] fix: don't generate a repair from an empty window

When all sources have been acknowledged, forcing the generation of a repair dereferenced the end of
the list of sources.
---
 netcode/encoder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..22f6611 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -159,9 +159,14 @@ public:
   }
 
   /// @brief Force the generation of a repair
+  /// @note Nothing is generated if there is no source to protect (the window is empty)
   void
   generate_repair()
   {
+    if (m_sources.size() == 0)
+    {
+      return;
+    }
     m_repair.reset();
     mk_repair();
     ++m_nb_sent_packets;
-- 
2.43.0


From 1940719c2de04bfaf7284329614c5fdcdaee1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:09 +0000
Subject: [PATCH 03/20] fix: enforce the window size after it has been lowered

When the window size was set to a value smaller than the current number of sources, no source was
ever dropped again.
---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 22f6611..726bf2d 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -260,7 +260,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The window size might have been lowered since the last call.
+    while (m_sources.size() >= m_window_size and m_sources.size() > 0)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From 477901bf01f4f0756bdce5695643e8f3aeb14ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:26 +0000
Subject: [PATCH 04/20] fix: keep encoded sizes on 32 bits

With a Galois field of size 32, the product of a size by a coefficient needs 32 bits. It was
truncated to 16 bits, both in memory and on the wire, and thus sources of a wrong size were
reconstructed.
---
 netcode/detail/decoder.cc      | 12 +++++-------
 netcode/detail/encoder.cc      |  4 +---
 netcode/detail/galois_field.hh | 15 ++++++++++-----
 netcode/detail/packetizer.hh   |  4 ++--
 netcode/detail/repair.hh       | 16 ++++++++--------
 5 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..8706de4 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -164,7 +164,7 @@ noexcept
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -400,8 +400,7 @@ noexcept
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
-  r.encoded_size()
-    = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
+  r.encoded_size() = m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size();
 
   // Remove symbol.
   m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
@@ -483,17 +482,16 @@ decoder::attempt_full_decoding()
     // First, decode the size of the source.
     const auto src_sz = [&,this]
     {
-      auto res = std::uint16_t{0};
+      auto res = std::uint32_t{0};
       for (auto repair_row = 0ul; repair_row < m_inv.dimension(); ++repair_row)
       {
         const auto coeff = m_inv(repair_row, src_col);
         if (coeff != 0)
         {
-          const auto tmp = m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
-          res = static_cast<std::uint16_t>(tmp) ^ res;
+          res ^= m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
         }
       }
-      return res;
+      return static_cast<std::uint16_t>(res);
     }();
 
     // Now, decode symbol.
diff --git a/netcode/detail/encoder.cc b/netcode/detail/encoder.cc
index be5f549..b3c3907 100644
--- a/netcode/detail/encoder.cc
+++ b/netcode/detail/encoder.cc
@@ -57,9 +57,7 @@ encoder::operator()(encoder_repair& repair, source_list& sources)
     m_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);
 
     // Finally, add the user size.
-    // Cast is necessary to inhibit conversion warning as xor implicitly convert to a signed value.
-    repair.encoded_size()
-      = static_cast<std::uint16_t>(m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size());
+    repair.encoded_size() = m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size();
   }
 }
 
diff --git a/netcode/detail/galois_field.hh b/netcode/detail/galois_field.hh
index 820e5e1..991f388 100644
--- a/netcode/detail/galois_field.hh
+++ b/netcode/detail/galois_field.hh
@@ -93,8 +93,9 @@ public:
 
   /// @brief Multiply a size with a coefficient.
   /// @attention Make sure that the coefficient is generated with galois_field::coefficient.
-  std::uint16_t
-  multiply_size(std::uint16_t size, std::uint32_t coeff)
+  /// @note The result needs 32 bits when the size of the field is 32.
+  std::uint32_t
+  multiply_size(std::uint32_t size, std::uint32_t coeff)
   noexcept
   {
     assert(  (((m_w == 4 or m_w == 8 or m_w == 16 ) and coeff < (1u << m_w)) or (m_w == 32))
@@ -108,14 +109,18 @@ public:
     if (m_w <= 8) // 4 or 8
     {
       __attribute__((aligned(16))) std::uint16_t res;
-      __attribute__((aligned(16))) std::uint16_t size_ = size;
+      __attribute__((aligned(16))) std::uint16_t size_ = static_cast<std::uint16_t>(size);
       multiply( reinterpret_cast<char*>(&size_), reinterpret_cast<char*>(&res)
               , sizeof(std::uint16_t), coeff);
       return res;
     }
-    else // w = 16 or 32
+    else if (m_w == 16)
+    {
+      return m_gf.multiply.w32(&m_gf, static_cast<std::uint16_t>(size), coeff);
+    }
+    else // w = 32
     {
-      return static_cast<std::uint16_t>(m_gf.multiply.w32(&m_gf, size, coeff));
+      return m_gf.multiply.w32(&m_gf, size, coeff);
     }
   }
 
diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index eb13943..62796af 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -109,7 +109,7 @@ public:
     write(r.source_ids());
 
     // Write encoded size.
-    write<std::uint16_t>(r.encoded_size());
+    write<std::uint32_t>(r.encoded_size());
 
     // End of data.
     mark_end();
@@ -150,7 +150,7 @@ public:
     auto ids = read_ids(data, max_len);
 
     // Read encoded size.
-    const auto encoded_sz = read<std::uint16_t>(data, max_len);
+    const auto encoded_sz = read<std::uint32_t>(data, max_len);
 
     return std::make_pair( decoder_repair{id, encoded_sz, std::move(ids), std::move(p), symbol_size}
                          , reinterpret_cast<std::size_t>(data) - begin); // Number of read bytes.
diff --git a/netcode/detail/repair.hh b/netcode/detail/repair.hh
index 09bfec2..a470fdd 100644
--- a/netcode/detail/repair.hh
+++ b/netcode/detail/repair.hh
@@ -36,7 +36,7 @@ public:
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
   /// @note For tests
-  encoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  encoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , detail::zero_byte_buffer&& buffer)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -104,7 +104,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -112,7 +112,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -128,7 +128,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   detail::zero_byte_buffer m_buffer;
@@ -158,7 +158,7 @@ public:
   decoder_repair& operator=(decoder_repair&&) = default;
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
-  decoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  decoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , packet&& p, std::size_t symbol_size)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -216,7 +216,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -224,7 +224,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -248,7 +248,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   packet m_symbol_buffer;
-- 
2.43.0


From d84b9ba6a3139813eb9705a04e688922fdc0400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 05/20] fix: designate a dependent column when the inversion of
 a matrix fails

The last column was always designated, even when it was independent from the others. The decoder
thus dropped a useful repair and kept the redundant ones, which could prevent decoding forever.
---
 netcode/detail/invert_matrix.cc | 60 ++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/invert_matrix.cc b/netcode/detail/invert_matrix.cc
index fc98d0f..48690f8 100644
--- a/netcode/detail/invert_matrix.cc
+++ b/netcode/detail/invert_matrix.cc
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <utility> // swap
 
 #include "netcode/detail/invert_matrix.hh"
 
@@ -6,6 +7,63 @@ namespace ntc { namespace detail {
 
 /*------------------------------------------------------------------------------------------------*/
 
+namespace {
+
+/// @internal
+/// @brief Find a row which is a linear combination of the others in a singular matrix.
+/// @param pos The position of the first missing pivot.
+/// @pre All rows before @p pos are in echelon form and column @p pos has no pivot.
+std::size_t
+dependent_row(galois_field& gf, square_matrix& mat, square_matrix& inv, std::size_t pos)
+noexcept
+{
+  const auto n = mat.dimension();
+
+  // Continue the elimination with the remaining columns: as there are less columns than rows, at
+  // least one row will contain only zeros.
+  auto row = pos;
+  for (auto col = pos + 1; col < n; ++col)
+  {
+    auto pivot = row;
+    while (pivot < n and mat[pivot * n + col] == 0)
+    {
+      ++pivot;
+    }
+    if (pivot == n)
+    {
+      continue;
+    }
+    for (auto k = 0ul; k < n; ++k)
+    {
+      std::swap(mat[row * n + k], mat[pivot * n + k]);
+      std::swap(inv[row * n + k], inv[pivot * n + k]);
+    }
+    const auto inverse = gf.invert(mat[row * n + col]);
+    for (auto j = row + 1; j < n; ++j)
+    {
+      const auto factor = gf.multiply(mat[j * n + col], inverse);
+      for (auto k = 0ul; k < n; ++k)
+      {
+        mat[j * n + k] ^= gf.multiply(factor, mat[row * n + k]);
+        inv[j * n + k] ^= gf.multiply(factor, inv[row * n + k]);
+      }
+    }
+    ++row;
+  }
+
+  // inv now tells how this null row was obtained: all initial rows it combines are dependent.
+  auto res = n - 1;
+  while (inv[row * n + res] == 0)
+  {
+    --res;
+  }
+  return res;
+}
+
+} // namespace anonymous
+
+/*------------------------------------------------------------------------------------------------*/
+
 boost::optional<std::size_t>
 invert(galois_field& gf, square_matrix& mat, square_matrix& inv)
 noexcept
@@ -40,7 +98,7 @@ noexcept
       if (j == rows)
       {
         // Failure, matrix is not invertible.
-        return {j - 1};
+        return {dependent_row(gf, mat, inv, i)};
       }
 
       const auto row_start2 = j * cols;
-- 
2.43.0


From 233102b0e22adf09cc80a23369bce5e5e7770f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 06/20] fix: ignore repairs which reference outdated sources

A late repair whose first sources were outdated moved the horizon of the decoder backwards: sources
already given to the user could be given again, out of order, and acknowledged sources became
missing.
---
 netcode/detail/decoder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 8706de4..ea538b7 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,10 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
+  if (m_last_id and first_id_in_source_ids < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a repair that references outdated sources (which were dropped), drop it.
     return;
   }
 
-- 
2.43.0


From 7c6450eab7e0997572c1b23984f4922d2ae3d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:06 +0000
Subject: [PATCH 07/20] fix: don't lose sources when decoding repairs that
 encode only one source

When a source was reconstructed from a repair that encodes only this source:
- it was not removed from the other repairs that encode it if the repair just arrived, thus
  corrupted data were given to the user later;
- repairs that encode only one source were ignored if this source was referenced by several repairs;
- in order, the source whose arrival triggered the decoding of the previous one was never given to
  the user.
The decoding of other sources was also recursive while iterating on a container being modified.
---
 netcode/detail/decoder.cc | 142 ++++++++++++++++++--------------------
 netcode/detail/decoder.hh |   6 +-
 2 files changed, 69 insertions(+), 79 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index ea538b7..8c53374 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -136,16 +136,12 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
-
-    // This repair is no longer needed.
+    // This repair is no longer needed. However, the source might be referenced by other repairs.
+    m_missing_sources.find(src.id())->second.erase(r_cit);
     m_repairs.erase(r_cit);
 
     // This newly decode source might trigger the decoding of several other sources.
     add_source_recursive(std::move(src));
-
-    return;
   }
 
   attempt_full_decoding();
@@ -247,92 +243,86 @@ const noexcept
 /*------------------------------------------------------------------------------------------------*/
 
 void
-decoder::add_source_recursive(decoder_source&& src)
+decoder::add_source_recursive(decoder_source&& incoming_src)
 {
-  if (not m_in_order)
-  {
-    m_callback(src);
-  }
-  else if (src.id() == m_first_missing_source_in_order)
-  {
-    m_callback(src);
-    m_first_missing_source_in_order += 1;
-    // Send all sources that could not be previously sent because their ids were greater than
-    // m_first_missing_source_in_order.
-    flush_ordered_sources();
-  }
+  // Identifiers of the repairs that encode only 1 source.
+  auto single_repairs = std::vector<std::uint32_t>{};
 
-  // First, remove this source from all repairs that encode it.
-  const auto search = m_missing_sources.find(src.id());
-  if (search != m_missing_sources.end())
+  auto src = std::move(incoming_src);
+  while (true)
   {
-    for (auto r_cit : search->second)
+    if (not m_in_order)
     {
-      auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      m_callback(src);
     }
-
-    // It's no longer a missing source.
-    m_missing_sources.erase(search);
-  }
-
-  // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
-  // encoded source is decoded and the repair is erased.
-  for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
-      ; miss_cit != miss_end;)
-  {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
+    else if (src.id() == m_first_missing_source_in_order)
     {
-      // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
-      const auto& r = r_cit->second;
+      m_callback(src);
+      m_first_missing_source_in_order += 1;
+      // Send all sources that could not be previously sent because their ids were greater than
+      // m_first_missing_source_in_order.
+      flush_ordered_sources();
+    }
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
+    // First, remove this source from all repairs that encode it.
+    const auto search = m_missing_sources.find(src.id());
+    if (search != m_missing_sources.end())
+    {
+      single_repairs.reserve(single_repairs.size() + search->second.size());
+      for (auto r_cit : search->second)
       {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+        auto& r = r_cit->second;
+        remove_source_from_repair(src, r);
+        if (r.source_ids().empty())
+        {
+          // Another repair gave the same source, this one is no longer useful.
+          m_repairs.erase(r_cit);
+        }
+        else if (r.source_ids().size() == 1)
+        {
+          single_repairs.push_back(r.id());
+        }
+      }
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+      // It's no longer a missing source.
+      m_missing_sources.erase(search);
+    }
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+    // Insert-move this new source in the set of known sources.
+    const auto src_id = src.id(); // to force evaluation order in the following call.
+    const auto insertion = m_sources.emplace(src_id, std::move(src));
+    assert(insertion.second && "source already added");
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+    if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+    {
+      // We can't send the current source as there are some older sources which have not been sent.
+      m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    }
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+    // Now, look for a repair that encodes only 1 source. When one is found, the corresponding
+    // encoded source is decoded and the repair is erased.
+    auto r_cit = m_repairs.end();
+    while (r_cit == m_repairs.end() and not single_repairs.empty())
+    {
+      r_cit = m_repairs.find(single_repairs.back());
+      single_repairs.pop_back();
     }
-    else
+    if (r_cit == m_repairs.end())
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
-      ++miss_cit;
+      return;
     }
-  }
 
-  // Insert-move this new source in the set of known sources.
-  const auto src_id = src.id(); // to force evaluation order in the following call.
-  const auto insertion = m_sources.emplace(src_id, std::move(src));
-  assert(insertion.second && "source already added");
+    // Check that this source wasn't decoded in the past.
+    assert(m_last_id ? *r_cit->second.source_ids().begin() >= *m_last_id : true);
+    // Check that this source doesn't belong to the set of current sources.
+    assert(not m_sources.count(*r_cit->second.source_ids().begin()));
 
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
-  {
-    // We can't send the current source as there are some older sources which have not been sent.
-    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    // This newly decoded source might trigger the decoding of other sources.
+    src = create_source_from_repair(r_cit->second);
+
+    // We can erase this repair. However, the source might be referenced by other repairs.
+    m_missing_sources.find(src.id())->second.erase(r_cit);
+    m_repairs.erase(r_cit);
   }
 }
 
@@ -394,7 +384,7 @@ void
 decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
 noexcept
 {
-  assert(r.source_ids().size() > 1 && "Repair encodes only one source");
+  assert(not r.source_ids().empty() && "Repair encodes no source");
   assert(src.symbol_size() <= r.symbol_size());
 
   const auto coeff = m_gf.coefficient(r.id(), src.id());
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..b5ba8d4 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -73,7 +73,7 @@ public:
   noexcept;
 
   /// @brief Remove a source from a repair.
-  /// @attention @p r shall encode more than one source.
+  /// @attention @p r shall encode @p src.
   void
   remove_source_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
@@ -112,7 +112,7 @@ private:
 
   /// @brief Recursively decode any repair that encodes only one source.
   void
-  add_source_recursive(decoder_source&& src);
+  add_source_recursive(decoder_source&& incoming_src);
 
   /// @brief Drop outdated sources and repairs.
   /// @param id The oldest id to keep. 
@@ -126,7 +126,7 @@ private:
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
   /// identifiers afterwards.
-  /// @attention @p r shall encode more than one source.
+  /// @attention @p r shall encode @p src.
   void
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
-- 
2.43.0


From 61d556a7ae4447565ad075e570a17bd2633fab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:34 +0000
Subject: [PATCH 08/20] fix: keep differences of source identifiers greater
 than 65535

Adjacent differences of a list of source identifiers were silently truncated
to 16 bits, so that an ack or a repair could designate other sources.
---
 netcode/detail/packetizer.hh | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 62796af..24f54e8 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -253,7 +253,9 @@ private:
 
   /// @brief Serialize a list of source identifiers.
   ///
-  /// The list is compressed using a RLE encoding on adjacent differences.
+  /// The list is compressed using a RLE encoding on adjacent differences. As these differences are
+  /// written on 16 bits, greater ones are preceded by an empty run which holds their most significant
+  /// bits.
   void
   write(const source_id_list& ids)
   {
@@ -285,7 +287,20 @@ private:
         ++run_length;
         ++cit;
       }
-      m_rle_buffer.emplace_back(run_length, *cit);
+      if (*cit > std::numeric_limits<std::uint16_t>::max())
+      {
+        // This difference doesn't fit in 16 bits: write each occurrence as an empty run, which holds
+        // the most significant bits, followed by the least significant bits.
+        for (auto i = 0u; i < run_length; ++i)
+        {
+          m_rle_buffer.emplace_back(0, *cit >> 16);
+          m_rle_buffer.emplace_back(1, *cit & 0xffff);
+        }
+      }
+      else
+      {
+        m_rle_buffer.emplace_back(run_length, *cit);
+      }
       ++cit;
     }
 
@@ -327,6 +342,7 @@ private:
 
     // Reverse running length encoding on the fly.
     const auto nb_pairs = nb_elements - 1u; // Remove the first identifier.
+    auto most_significant_bits = std::uint32_t{0};
     for (auto i = 0ul; i < nb_pairs; ++i)
     {
       const auto run_length = read<std::uint8_t>(data, max_len);
@@ -334,8 +350,11 @@ private:
 
       for (auto j = 0u; j < run_length; ++j)
       {
-        m_difference_buffer.push_back(value);
+        m_difference_buffer.push_back(most_significant_bits | value);
       }
+
+      // An empty run holds the most significant bits of the following difference.
+      most_significant_bits = run_length == 0 ? static_cast<std::uint32_t>(value) << 16 : 0u;
     }
 
     // Revert to list of source identifiers.
-- 
2.43.0


From bc081651d8d9b0b090a1a6d214de80dfba50cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:36 +0000
Subject: [PATCH 09/20] fix: read dumped packets without skipping bytes

The iterator was incremented once too many after each field with recent
standard libraries, and replay ignored the last packet of a dump.
---
 netcode/detail/serialize_packet.hh | 7 ++-----
 tools/replay.cc                    | 7 +------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..c265841 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -29,17 +29,14 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    is.read(reinterpret_cast<char*>(&sz), sizeof(sz));
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    is.read(p.m_buffer.data(), sz_native);
 
-    ++isb;
     return p;
   }
 };
diff --git a/tools/replay.cc b/tools/replay.cc
index 694fc2e..c8c9610 100644
--- a/tools/replay.cc
+++ b/tools/replay.cc
@@ -59,15 +59,10 @@ main(int argc, const char** argv)
     ntc::decoder<packet_handler, data_handler> decoder{ 8, ntc::in_order::yes, packet_handler{}
                                                       , data_handler{}};
 
-    while (true)
+    while (dump_file.peek() != std::char_traits<char>::eof())
     {
       const auto packet = ntc::detail::serialize_packet::read(dump_file);
 
-      if (dump_file.peek() == std::char_traits<char>::eof())
-      {
-        break;
-      }
-
       switch (ntc::detail::get_packet_type(packet))
       {
         case ntc::detail::packet_type::ack:
-- 
2.43.0


From 63c756115506c77f2c5f47af4a01d3093b5df8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:18 +0000
Subject: [PATCH 10/20] fix: forward only received bytes and survive malformed
 sources in source_forwarder

---
 tools/source_forwarder.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tools/source_forwarder.cc b/tools/source_forwarder.cc
index 045eee9..08889df 100644
--- a/tools/source_forwarder.cc
+++ b/tools/source_forwarder.cc
@@ -71,15 +71,24 @@ main(int argc, const char** argv)
 
     while (true)
     {
-      ntc::packet buffer(4096);
+      ntc::packet buffer(65535);
 
       const auto sz = in_socket.receive_from(boost::asio::buffer(buffer), in_endpoint);
       if (sz > 0)
       {
+        // Only keep what was really received.
+        buffer.resize(sz);
         if (buffer[0] == 2) // source
         {
-          const auto src = packetizer.read_source(std::move(buffer)).first;
-          out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          try
+          {
+            const auto src = packetizer.read_source(std::move(buffer)).first;
+            out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          }
+          catch (const ntc::overflow_error&)
+          {
+            // A malformed source, ignore it.
+          }
         }
       }
     }
-- 
2.43.0


From 5150199c2c75c19dfbaf98dda0320a87d605fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:18 +0000
Subject: [PATCH 11/20] fix: don't truncate datagrams greater than 4096 bytes
 in lossy_proxy

---
 tools/lossy_proxy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/lossy_proxy.cc b/tools/lossy_proxy.cc
index 789a897..bc41ef5 100644
--- a/tools/lossy_proxy.cc
+++ b/tools/lossy_proxy.cc
@@ -33,7 +33,7 @@ template <typename Loss>
 void
 listen( udp::socket& in_socket, udp::endpoint& in_endpoint
       , udp::socket& out_socket, udp::endpoint& out_endpoint
-      , std::array<char, 4096>& buffer, Loss&& loss, std::size_t& losses, std::size_t& total)
+      , std::array<char, 65535>& buffer, Loss&& loss, std::size_t& losses, std::size_t& total)
 {
   in_socket.async_receive_from( boost::asio::buffer(buffer), in_endpoint
                               , [&](const boost::system::error_code& err, std::size_t sz)
@@ -111,8 +111,8 @@ proxy( unsigned short a_port, const std::string& b_ip, const std::string& b_port
 
   boost::asio::steady_timer timer{io, std::chrono::seconds(display_timer)};
 
-  std::array<char, 4096> a_to_b;
-  std::array<char, 4096> b_to_a;
+  std::array<char, 65535> a_to_b;
+  std::array<char, 65535> b_to_a;
 
 
   listen( a_socket, a_endpoint, b_socket, b_endpoint, a_to_b, std::forward<Loss>(loss)
-- 
2.43.0


From 796694a65da56aeba65eb63b3c5739eb4c9fda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:18 +0000
Subject: [PATCH 12/20] fix: give valid messages to users of the C interface

Messages were not null terminated, were released with the wrong operator, and
the message of an ntc_error which was not initialized by the user, like in the
examples, was used (it was also left dangling after an unknown exception).
---
 netcode/c/detail/check_error.hh | 10 +++++-----
 netcode/c/error.h               |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..3c16443 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -1,8 +1,9 @@
 #pragma once
 
 #include <algorithm>
+#include <cstdlib> // malloc
 #include <cstring>
-#include <new> // nothrow
+#include <new> // bad_alloc
 #include <stdexcept>
 
 #include "netcode/c/error.h"
@@ -22,6 +23,7 @@ noexcept
 -> decltype(fn())
 {
   error->type = ntc_no_error;
+  error->message = nullptr;
 
   try
   {
@@ -46,9 +48,8 @@ noexcept
   catch (const std::exception& e)
   {
     error->type = ntc_unknown_error;
-    const auto sz = std::strlen(e.what());
-    delete error->message;
-    error->message = new (std::nothrow) char[sz];
+    const auto sz = std::strlen(e.what()) + 1; // with the terminating null character
+    error->message = static_cast<char*>(std::malloc(sz));
     if (error->message)
     {
       std::copy_n(e.what(), sz, error->message);
@@ -58,7 +59,6 @@ noexcept
   catch (...)
   {
     error->type = ntc_unknown_error;
-    delete error->message;
   }
 
   // Return the default value of the type returned by fn when an error occurs.
diff --git a/netcode/c/error.h b/netcode/c/error.h
index 321f89e..76129a9 100644
--- a/netcode/c/error.h
+++ b/netcode/c/error.h
@@ -27,7 +27,7 @@ typedef struct
   ntc_error_type type;
 
   /// @brief A message describing the error
-  /// @note Might be NULL
+  /// @note Might be NULL, otherwise it must be released with free()
   char* message;
 
 } ntc_error;
-- 
2.43.0


From d4d0c2186cf0f072aa82940a53fba846553251fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 13/20] fix: return a null pointer when the C interface can't
 create an object

The allocations made by the constructors were not covered by std::nothrow: as
these functions are noexcept, running out of memory terminated the program.
---
 netcode/c/data.cc               |  6 ++----
 netcode/c/decoder.cc            | 15 ++++++++-------
 netcode/c/detail/check_error.hh | 21 +++++++++++++++++++++
 netcode/c/encoder.cc            |  8 ++++----
 netcode/c/packet.cc             |  6 ++----
 5 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..d600d85 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/data.h"
 
@@ -9,7 +7,7 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  return ntc::detail::check_new([&]{return new ntc_data_t(size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +16,7 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  return ntc::detail::check_new([&]{return new ntc_data_t(src, src + size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..f35102e 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/decoder.h"
 #include "netcode/errors.hh"
@@ -11,11 +9,14 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  return ntc::detail::check_new([&]
+  {
+    return new ntc_decoder_t{ galois_field_size
+                            , order == ntc_in_order_yes ? ntc::in_order::yes
+                                                        : ntc::in_order::no
+                            , ntc::detail::c_packet_handler{packet_handler}
+                            , ntc::detail::c_data_handler{data_handler}};
+  });
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index 3c16443..72920ed 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -67,4 +67,25 @@ noexcept
 
 /*------------------------------------------------------------------------------------------------*/
 
+/// @internal
+/// @brief Apply function @p fn which creates an object
+/// @return The created object, or a null pointer if its creation failed
+template <typename Fn>
+auto
+check_new(Fn&& fn)
+noexcept
+-> decltype(fn())
+{
+  try
+  {
+    return fn();
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 }} // namespace ntc::detail
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..0655a0c 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/encoder.h"
 
@@ -9,8 +7,10 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  return ntc::detail::check_new([&]
+  {
+    return new ntc_encoder_t{galois_field_size, ntc::detail::c_packet_handler{handler}};
+  });
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..4cd7c62 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/packet.h"
 
@@ -9,7 +7,7 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  return ntc::detail::check_new([&]{return new ntc_packet_t(size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +16,7 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  return ntc::detail::check_new([&]{return new ntc_packet_t(src, src + size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 2f1251c756abd5bcf3a0635db772d74c7d601951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:01 +0000
Subject: [PATCH 14/20] fix: keep the encoder and its packets consistent when
 running out of memory

A failed allocation could leave an unfinished packet in the user's handler, to
which the next packet was appended, or give the same identifier to two sources.
---
 netcode/detail/packetizer.hh | 26 ++++++++++++++++++++++----
 netcode/encoder.hh           |  6 +++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 24f54e8..0d2d901 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -46,6 +46,9 @@ public:
   void
   write_ack(const ack& a)
   {
+    // Can throw: do it before giving anything to user's handler.
+    compress(a.source_ids());
+
     // Write packet type.
     static const auto packet_ty = static_cast<std::uint8_t>(packet_type::ack);
     write<std::uint8_t>(packet_ty);
@@ -92,6 +95,9 @@ public:
   {
     assert(r.symbol().size() > 0 && "A repair's symbol shall not be empty");
 
+    // Can throw: do it before giving anything to user's handler.
+    compress(r.source_ids());
+
     // Write packet type.
     static const auto packet_ty = static_cast<std::uint8_t>(packet_type::repair);
     write<std::uint8_t>(packet_ty);
@@ -251,21 +257,19 @@ private:
     m_packet_handler(reinterpret_cast<const char*>(&big), sizeof(T));
   }
 
-  /// @brief Serialize a list of source identifiers.
+  /// @brief Compress a list of source identifiers into @ref m_rle_buffer.
   ///
   /// The list is compressed using a RLE encoding on adjacent differences. As these differences are
   /// written on 16 bits, greater ones are preceded by an empty run which holds their most significant
   /// bits.
   void
-  write(const source_id_list& ids)
+  compress(const source_id_list& ids)
   {
     m_difference_buffer.clear();
     m_rle_buffer.clear();
 
     if (ids.size() == 0)
     {
-      static constexpr std::uint16_t zero = 0;
-      write<std::uint16_t>(zero);
       return;
     }
 
@@ -304,6 +308,20 @@ private:
       ++cit;
     }
 
+  }
+
+  /// @brief Serialize a list of source identifiers.
+  /// @attention @ref compress must have been called with this list.
+  void
+  write(const source_id_list& ids)
+  {
+    if (ids.size() == 0)
+    {
+      static constexpr std::uint16_t zero = 0;
+      write<std::uint16_t>(zero);
+      return;
+    }
+
     // Write the number of elements (number of pairs + the first identifier).
     write<std::uint16_t>(m_rle_buffer.size() + 1);
 
diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 726bf2d..d2a984b 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -268,6 +268,8 @@ private:
 
     // Create a new source in-place at the end of the list of sources.
     const auto& insertion = m_sources.emplace(m_current_source_id, std::move(d));
+    // From now on, this identifier is used, whatever happens below.
+    ++m_current_source_id;
 
     if (m_code_type == systematic::yes)
     {
@@ -282,12 +284,10 @@ private:
     }
 
     /// @todo Should we generate a repair if window_size() == 1?
-    if ((m_current_source_id + 1) % m_rate == 0)
+    if (m_current_source_id % m_rate == 0)
     {
       generate_repair();
     }
-
-    ++m_current_source_id;
   }
 
   /// @brief Notify the encoder that some packet has been received (should be an ack)
-- 
2.43.0


From 8c9225ab44de88f19f797c31468b669b3991fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 15/20] fix: survive running out of memory when decoding

Functions which allocate memory or call user's handlers were noexcept, and a
repair could be left linked with a part of its missing sources only.
---
 netcode/detail/decoder.cc | 23 +++++++++++++++++++++--
 netcode/detail/decoder.hh |  6 ++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 8c53374..e42225b 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -1,5 +1,6 @@
 #include <algorithm>  // all_of
 #include <cassert>
+#include <memory> // unique_ptr
 #include <vector>
 
 #include "netcode/detail/decoder.hh"
@@ -97,6 +98,25 @@ decoder::operator()(decoder_repair&& incoming_r)
   auto r_cit = insertion.first;
   auto& r = insertion.first->second;
 
+  // Forget this repair if it can't be linked with all its missing sources (not enough memory).
+  const auto unlink = [&](decoder_repair*)
+  {
+    for (const auto src_id : r.source_ids())
+    {
+      const auto search = m_missing_sources.find(src_id);
+      if (search != m_missing_sources.end())
+      {
+        search->second.erase(r_cit);
+        if (search->second.empty())
+        {
+          m_missing_sources.erase(search);
+        }
+      }
+    }
+    m_repairs.erase(r_cit);
+  };
+  std::unique_ptr<decoder_repair, decltype(unlink)> guard{&r, unlink};
+
   // Remove from incoming repair all existing sources and link with missing sources.
   // Reverse loop as flat_set::erase() invalidates iterators behind the one being erased.
   for ( auto id_rcit = r.source_ids().rbegin(), end = r.source_ids().rend(); id_rcit != end
@@ -128,6 +148,7 @@ decoder::operator()(decoder_repair&& incoming_r)
       }
     }
   }
+  guard.release();
   assert(not r.source_ids().empty());
 
   // Check if we can rebuild a missing source directly with this repair.
@@ -151,7 +172,6 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
-noexcept
 {
   assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
   const auto src_id = *r.source_ids().begin();
@@ -330,7 +350,6 @@ decoder::add_source_recursive(decoder_source&& incoming_src)
 
 void
 decoder::drop_outdated(std::uint32_t id)
-noexcept
 {
   // All sources with an identifier strictly less than last_id_ are now considered outdated.
   m_last_id = id;
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index b5ba8d4..5fb005a 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -69,8 +69,7 @@ public:
   /// @brief Decode a source contained in a repair.
   /// @attention @p r shall encode exactly one source.
   decoder_source
-  create_source_from_repair(const decoder_repair& r)
-  noexcept;
+  create_source_from_repair(const decoder_repair& r);
 
   /// @brief Remove a source from a repair.
   /// @attention @p r shall encode @p src.
@@ -120,8 +119,7 @@ private:
   /// All sources with an identifier smaller than @p id will be dropped, as well as all repairs
   /// that reference thes outdated sources.
   void
-  drop_outdated(std::uint32_t id)
-  noexcept;
+  drop_outdated(std::uint32_t id);
 
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
-- 
2.43.0


From f2ee4f049765cf7de67afc9567cfe031fe67b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 16/20] fix: don't overrun the buffers of malformed repairs

A repair from the network which encodes no sources, which is smaller than the
sources it claims to encode or than the source it announces made the decoder
read and write out of bounds.
---
 netcode/detail/decoder.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index e42225b..1f5cb50 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -55,7 +55,11 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if (incoming_r.source_ids().empty())
+  {
+    // A malformed repair, there is nothing to decode.
+    return;
+  }
 
   const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
   if (m_last_id and first_id_in_source_ids < *m_last_id)
@@ -183,10 +187,11 @@ decoder::create_source_from_repair(const decoder_repair& r)
   const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
-  auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
+  auto src = decoder_source{ src_id, packet(src_sz + packet::alignment, 0 /* zero out the buffer */)
+                           , src_sz};
 
-  // Reconstruct missing source.
-  m_gf.multiply(r.symbol(), src.symbol(), src_sz, inv);
+  // Reconstruct missing source. A malformed repair might be smaller than the source it announces.
+  m_gf.multiply(r.symbol(), src.symbol(), std::min(src_sz, r.symbol_size()), inv);
 
   m_nb_decoded += 1;
 
@@ -404,15 +409,15 @@ decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repai
 noexcept
 {
   assert(not r.source_ids().empty() && "Repair encodes no source");
-  assert(src.symbol_size() <= r.symbol_size());
-
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
   r.encoded_size() = m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size();
 
   // Remove symbol.
-  m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
+  // A malformed repair might be smaller than one of the sources it claims to encode.
+  m_gf.multiply_add( src.symbol(), r.symbol(), std::min(src.symbol_size(), r.symbol_size())
+                   , coeff);
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 6c6aef0c1ecaf242c12dfd53c124c61ba8803ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:27 +0000
Subject: [PATCH 17/20] fix: don't read uninitialized coefficients when there
 are too many repairs

Malformed repairs can make the number of repairs greater than the number of
missing sources: some rows of the matrix of coefficients were never written.
---
 netcode/detail/decoder.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1f5cb50..557af5d 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -436,14 +436,16 @@ decoder::attempt_full_decoding()
     return;
   }
 
-  assert(m_missing_sources.size() == m_repairs.size() && "More repairs than missing sources");
-  assert(m_missing_sources.size() > 1 && "Trying to create a matrix for only one missing source.");
-
-  // Build coefficient matrix.
-  m_coefficients.resize(m_repairs.size());
+  // Build coefficient matrix. There are more repairs than missing sources only with malformed
+  // packets or when there was not enough memory: don't use these additional repairs.
+  m_coefficients.resize(m_missing_sources.size());
   auto col = 0ul;
   for (const auto& r : m_repairs)
   {
+    if (col == m_coefficients.dimension())
+    {
+      break;
+    }
     auto row = 0ul;
     for (const auto& missing : m_missing_sources)
     {
@@ -477,6 +479,9 @@ decoder::attempt_full_decoding()
 
     // We can now effectively remove the repair.
     m_repairs.erase(r_cit);
+
+    // Try again, if there were additional repairs.
+    attempt_full_decoding();
     return;
   }
 
@@ -519,7 +524,7 @@ decoder::attempt_full_decoding()
     auto coeff = 0u;
 
     // Find first non-zero coefficient.
-    for (; repair_row < repairs().size(); ++repair_row)
+    for (; repair_row < m_inv.dimension(); ++repair_row)
     {
       coeff = m_inv(repair_row, src_col);
       if (coeff != 0)
@@ -527,7 +532,7 @@ decoder::attempt_full_decoding()
         break;
       }
     }
-    assert(repair_row != m_repairs.size() && "No coefficients for missing source");
+    assert(repair_row != m_inv.dimension() && "No coefficients for missing source");
 
     // Repair's buffer might be smaller than the size of the source to decode, or it could be
     // the opposite situation. Thus, we need to make sure that we only read the right number of
-- 
2.43.0


From c41339f878dce2233cdf38054cbb22aed7d5683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:38 +0000
Subject: [PATCH 18/20] fix: don't abort on symbols whose size is not a
 multiple of the field words

gf-complete aborts in this case, which malformed packets could trigger.
---
 netcode/detail/galois_field.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/galois_field.hh b/netcode/detail/galois_field.hh
index 991f388..7ea5e5f 100644
--- a/netcode/detail/galois_field.hh
+++ b/netcode/detail/galois_field.hh
@@ -70,7 +70,7 @@ public:
                             , const_cast<char*>(src)
                             , dst
                             , coeff
-                            , static_cast<int>(len)
+                            , whole_words(len)
                             , 0 /* don't add to src */);
   }
 
@@ -87,7 +87,7 @@ public:
                             , const_cast<char*>(src)
                             , dst
                             , coeff
-                            , static_cast<int>(len)
+                            , whole_words(len)
                             , 1 /* add to src */);
   }
 
@@ -162,6 +162,18 @@ public:
     }
   }
 
+private:
+
+  /// @brief Get the number of bytes which form whole words of this field.
+  ///
+  /// gf-complete aborts when asked to multiply parts of words, but sizes can come from the network.
+  int
+  whole_words(std::size_t len)
+  const noexcept
+  {
+    return static_cast<int>(m_w > 8 ? len - len % (m_w / 8u) : len);
+  }
+
 private:
 
   /// @brief The real underlying galois field.
-- 
2.43.0


From 4675b7b8e2c8bca0f6499acc050f24a8f4ebb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 19/20] fix: the packets sent since the last ack don't fit in
 16 bits

---
 netcode/encoder.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index d2a984b..d4b86c3 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -309,7 +309,8 @@ private:
         if (m_nb_sent_packets > 0)
         {
           const auto loss_rate
-            = (m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets);
+            = (static_cast<double>(m_nb_sent_packets) - res.first.nb_packets())
+            / static_cast<double>(m_nb_sent_packets);
           m_rate = rate_for_loss(loss_rate);
         }
         else
@@ -397,7 +398,7 @@ private:
   std::size_t m_nb_sent_sources;
 
   /// @brief The number of sent packets since last ack
-  std::uint16_t m_nb_sent_packets;
+  std::size_t m_nb_sent_packets;
 };
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From a5a15ca93ef779bf74ca78e9162be64c66095329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:27 +0000
Subject: [PATCH 20/20] fix: the number of packets received since the last ack
 restarted from 0

---
 netcode/decoder.hh | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/netcode/decoder.hh b/netcode/decoder.hh
index d89d6e4..1faa0d5 100644
--- a/netcode/decoder.hh
+++ b/netcode/decoder.hh
@@ -6,6 +6,7 @@
 #endif
 
 #include <chrono>
+#include <limits>
 
 #include "netcode/detail/decoder.hh"
 #include "netcode/detail/packet_type.hh"
@@ -99,7 +100,7 @@ public:
       case detail::packet_type::repair:
       {
         ++m_nb_received_repairs;
-        ++m_ack.nb_packets();
+        count_packet();
         auto res = m_packetizer.read_repair(std::move(p));
         m_decoder(std::move(res.first));
         return res.second;
@@ -108,7 +109,7 @@ public:
       case detail::packet_type::source:
       {
         ++m_nb_received_sources;
-        ++m_ack.nb_packets();
+        count_packet();
         auto res = m_packetizer.read_source(std::move(p));
         m_decoder(std::move(res.first));
         return res.second;
@@ -288,6 +289,19 @@ public:
 
 private:
 
+  /// @brief Count a packet received since the last ack.
+  ///
+  /// An ack stores this number on 16 bits: don't restart from 0 when no ack is sent for a long time.
+  void
+  count_packet()
+  noexcept
+  {
+    if (m_ack.nb_packets() < std::numeric_limits<std::uint16_t>::max())
+    {
+      ++m_ack.nb_packets();
+    }
+  }
+
   /// @brief Callback given to the real encoder to be notified when a source is processed.
   void
   handle_source(const detail::decoder_source& src)
-- 
2.43.0

