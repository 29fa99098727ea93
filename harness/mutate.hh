// Generators of blocks and of hostile packets.
#pragma once
#include "common.hh"
namespace vf {
inline bytes block(rng& r, unsigned w)
{
  const unsigned k = w == 16 ? 2 : w == 32 ? 4 : 1;
  std::size_t n = r.chance(0.7) ? r.range(1, 40) : r.chance(0.95) ? r.range(1, 300) : r.range(1000, 9000);
  n = std::max<std::size_t>(k, n / k * k);
  bytes b(n, 0); for (auto& c : b) c = (char)r.next(); return b;
}

// Number of identifiers a packet would expand to, whatever else is wrong with it.
inline u64 expansion(const bytes& b)
{
  if (b.empty()) return 0;
  std::size_t at = 0;
  if (b[0] == 0) at = 3;
  else if (b[0] == 1) { if (b.size() < 7) return 0; at = 7 + ((std::size_t)(u8)b[5] << 8 | (u8)b[6]); }
  else return 0;
  if (at + 2 > b.size()) return 0;
  u64 n = (u64)(u8)b[at] << 8 | (u8)b[at + 1], tot = 1;
  for (std::size_t p = at + 6, i = 1; i < n && p + 3 <= b.size(); p += 3, ++i) tot += (u8)b[p];
  return tot;
}

inline bytes mutate(rng& r, bytes b)
{
  for (unsigned k = (unsigned)r.range(1, 4); k--;)
  {
    if (b.empty()) b = "x";
    switch (r.below(9))
    {
      case 0: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
      case 1: b[r.below(std::min<std::size_t>(b.size(), 16))] = (char)r.next(); break;
      case 2: b.resize(r.range(1, b.size())); break;
      case 3: { const std::size_t n = r.range(1, 20); for (std::size_t i = 0; i < n; ++i) b += (char)r.next(); break; }
      case 4: if (b.size() >= 7) { const u16 v = r.chance(0.5) ? (u16)r.below(64) : (u16)r.next(); b[5] = (char)(v >> 8); b[6] = (char)v; } break; // symbol length
      case 5: { const std::size_t n = std::min<std::size_t>(b.size(), r.range(1, 12)); for (std::size_t i = 0; i < n; ++i) b[b.size() - 1 - i] = r.chance(0.3) ? '\0' : (char)r.next(); break; } // tail: ids, encoded size
      case 6: if (b.size() > 8) b.erase(r.below(b.size()), r.range(1, 4)); break;
      case 7: b[0] = (char)r.below(4); break;
      default: { bytes c = b.substr(0, r.range(1, b.size())); b += c.substr(0, 64); } break;
    }
  }
  if (b.empty()) b = "y";
  return b;
}
inline bytes crafted(rng& r, unsigned w, u32 lo, u32 hi)
{
  auto near_id = [&]() -> u32 { return r.chance(0.85) ? (u32)(lo + r.below(hi - lo + 6)) : r.chance(0.3) ? 0xffffffffu - (u32)r.below(8) : (u32)r.next(); };
  auto sym = [&](std::size_t n) { bytes b(n, 0); for (auto& c : b) c = (char)r.next(); return b; };
  const std::size_t n = r.chance(0.15) ? 0 : r.chance(0.8) ? r.range(1, 48) : r.range(1, 700);
  switch (r.below(6))
  {
    case 0: return make_source(near_id(), sym(n)) + (r.chance(0.3) ? sym(r.below(10)) : bytes());
    case 1: { std::set<u32> ids; for (unsigned k = (unsigned)r.below(12); k--;) ids.insert(near_id()); return make_ack((u16)r.next(), {ids.begin(), ids.end()}); }
    default:
    {
      std::set<u32> ids; const unsigned m = r.chance(0.5) ? (unsigned)r.range(1, 3) : r.chance(0.1) ? 0 : (unsigned)r.range(1, 14);
      for (unsigned k = m; k--;) ids.insert(near_id());
      if (m && r.chance(0.95)) ids.insert((u32)(lo + r.below(hi - lo + 1))); // a list of far blocks only makes everything else outdated
      std::vector<u32> v(ids.begin(), ids.end());
      if (r.chance(0.1)) std::reverse(v.begin(), v.end()); // decreasing list: huge differences
      if (r.chance(0.05) && !v.empty()) v.push_back(v.back());
      const u32 enc = r.chance(0.3) ? (u32)r.below(300) : r.chance(0.2) ? 0 : (u32)r.next();
      return make_repair(r.chance(0.5) ? (u32)r.below(60) : (u32)r.next(), sym(n), v, enc, w);
    }
  }
}
}
