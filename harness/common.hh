// Shared parts of the harnesses: random numbers, an independent reference implementation of the
// field and of the wire format, capture handlers, violation reporting and evidence counters.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <unistd.h>

namespace vf {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using bytes = std::string;

// ---------------------------------------------------------------- random numbers
struct rng
{
  u64 s[2];
  explicit rng(u64 seed)
  {
    auto sm = [&seed]{ u64 z = (seed += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                       z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); };
    s[0] = sm(); s[1] = sm();
  }
  u64 next()
  {
    u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }                  // [0,n)
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }          // [a,b]
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
};

inline u64 mix(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 32; return z; }

inline u64 fnv(const bytes& b, u64 h = 1469598103934665603ull)
{ for (unsigned char c : b) { h ^= c; h *= 1099511628211ull; } return h; }

inline bytes hex(const bytes& b, std::size_t max = 64)
{
  static const char* d = "0123456789abcdef"; bytes r;
  for (std::size_t i = 0; i < b.size() && i < max; ++i) { r += d[(u8)b[i] >> 4]; r += d[(u8)b[i] & 15]; }
  if (b.size() > max) r += "..";
  return r;
}

// ---------------------------------------------------------------- reference Galois field
// Plain polynomial arithmetic; nothing shared with gf_complete.
extern "C" {
u32 rf_mul(unsigned, u32, u32); u32 rf_slow(unsigned, u32, u32); u32 rf_inv(unsigned, u32);
void rf_axpy(unsigned, char*, const char*, std::size_t, u32);
u32 rf_reduce(unsigned, u32*, std::size_t, std::size_t, u8*);
}
struct ref_gf
{
  unsigned w;
  explicit ref_gf(unsigned w_) : w(w_) {}
  u32 mul(u32 a, u32 b) const { return rf_mul(w, a, b); }
  u32 inv(u32 a) const { return rf_inv(w, a); }
  u32 coeff(u32 r, u32 s) const
  {
    const u32 v = ((r + 1) + (s + 1)) * (r + 1);
    if (w == 32) return v ? v : 1;
    return v % ((1u << w) - 1) + 1;
  }
  // dst ^= c * src, elementwise over the field's native words (little endian)
  void axpy(bytes& dst, const bytes& src, u32 c) const
  {
    if (dst.size() < src.size()) dst.resize(src.size(), 0);
    rf_axpy(w, &dst[0], src.data(), src.size(), c);
  }
  // The contribution of a block length to the encoded length carried by a repair.
  u32 mul_size(u16 size, u32 c) const
  {
    if (w == 4 || w == 8)
    {
      bytes s(2, 0), d(2, 0); s[0] = (char)(size & 255); s[1] = (char)(size >> 8);
      axpy(d, s, c);
      return (u8)d[0] | ((u32)(u8)d[1] << 8);
    }
    return mul(size, c);
  }
  // rank of a list of rows
  unsigned rank(const std::vector<std::vector<u32>>& m) const
  {
    if (m.empty()) return 0;
    std::vector<u32> f; for (auto& x : m) f.insert(f.end(), x.begin(), x.end());
    std::vector<u8> k(m.size()); return rf_reduce(w, f.data(), m.size(), m[0].size(), k.data());
  }
};

inline const ref_gf& field(unsigned w)
{
  static const ref_gf f4(4), f8(8), f16(16), f32(32);
  return w == 4 ? f4 : w == 8 ? f8 : w == 16 ? f16 : f32;
}

// ---------------------------------------------------------------- reference wire format
enum { T_ACK = 0, T_REPAIR = 1, T_SOURCE = 2 };

struct wire
{
  int type = -1;
  u32 id = 0;             // source / repair
  bytes symbol;
  std::vector<u32> ids;   // repair / ack
  u32 encoded_size = 0;   // repair
  u16 nb_packets = 0;     // ack
  std::size_t consumed = 0;
};

struct parse_error : std::runtime_error { using std::runtime_error::runtime_error; };

struct reader
{
  const bytes& b; std::size_t pos = 0;
  u64 be(unsigned n)
  {
    if (b.size() - pos < n) throw parse_error("truncated");
    u64 r = 0; for (unsigned i = 0; i < n; ++i) r = r << 8 | (u8)b[pos++];
    return r;
  }
  bytes raw(std::size_t n) { if (b.size() - pos < n) throw parse_error("truncated symbol"); bytes r = b.substr(pos, n); pos += n; return r; }
};

#ifndef VF_ENCSZ
#define VF_ENCSZ(w) ((void)(w), 4u)
#endif

inline std::vector<u32> parse_ids(reader& r)
{
  std::vector<u32> ids; const u32 n = (u32)r.be(2);
  if (!n) return ids;
  u32 cur = (u32)r.be(4); ids.push_back(cur);
  u32 high = 0;
  for (u32 i = 1; i < n; ++i)
  {
    const u32 run = (u32)r.be(1), v = (u32)r.be(2);
    if (run == 0) { high = v; continue; } // extension: high half of the next difference
    const u32 d = high << 16 | v; high = 0;
    for (u32 j = 0; j < run; ++j) ids.push_back(cur += d);
  }
  return ids;
}

inline wire parse(const bytes& b, unsigned w)
{
  reader r{b}; wire x; x.type = (int)r.be(1);
  if (x.type == T_ACK) { x.nb_packets = (u16)r.be(2); x.ids = parse_ids(r); }
  else if (x.type == T_SOURCE || x.type == T_REPAIR)
  {
    x.id = (u32)r.be(4); const std::size_t n = r.be(2); x.symbol = r.raw(n);
    if (x.type == T_REPAIR) { x.ids = parse_ids(r); x.encoded_size = (u32)r.be(VF_ENCSZ(w)); }
  }
  else throw parse_error("unknown type");
  x.consumed = r.pos;
  return x;
}

inline void put(bytes& b, u64 v, unsigned n) { for (unsigned i = n; i--;) b += (char)(u8)(v >> (8 * i)); }
inline void put_ids(bytes& b, const std::vector<u32>& ids)
{
  if (ids.empty()) { put(b, 0, 2); return; }
  std::vector<std::pair<u32,u32>> rle;
  for (std::size_t i = 1; i < ids.size();)
  {
    const u32 d = ids[i] - ids[i - 1]; std::size_t j = i + 1;
    while (j < ids.size() && ids[j] - ids[j - 1] == d && j - i < 255) ++j;
    if (d >> 16) rle.push_back({0, d >> 16});
    if (d >> 16) j = i + 1;
    rle.push_back({(u32)(j - i), d & 0xffff}); i = j;
  }
  put(b, rle.size() + 1, 2); put(b, ids[0], 4);
  for (auto& p : rle) { put(b, p.first, 1); put(b, p.second, 2); }
}
inline bytes make_source(u32 id, const bytes& s) { bytes b; put(b, 2, 1); put(b, id, 4); put(b, s.size(), 2); return b + s; }
inline bytes make_repair(u32 id, const bytes& sym, const std::vector<u32>& ids, u32 enc, unsigned w)
{ bytes b; put(b, 1, 1); put(b, id, 4); put(b, sym.size(), 2); b += sym; put_ids(b, ids); put(b, enc, VF_ENCSZ(w)); return b; }
inline bytes make_ack(u16 nb, const std::vector<u32>& ids) { bytes b; put(b, 0, 1); put(b, nb, 2); put_ids(b, ids); return b; }

// Reference encoding of a repair over (id, data) pairs
inline bytes ref_repair(unsigned w, u32 rid, const std::vector<std::pair<u32, const bytes*>>& srcs)
{
  const auto& f = field(w); bytes sym; u32 enc = 0; std::vector<u32> ids;
  for (auto& s : srcs)
  { const u32 c = f.coeff(rid, s.first); f.axpy(sym, *s.second, c); enc ^= f.mul_size((u16)s.second->size(), c); ids.push_back(s.first); }
  return make_repair(rid, sym, ids, enc, w);
}

// ---------------------------------------------------------------- reporting
struct violation : std::runtime_error
{
  bytes prop;
  violation(bytes p, const bytes& m) : std::runtime_error(m), prop(std::move(p)) {}
};

struct stats
{
  std::map<bytes, u64> n;
  std::unordered_set<u64> distinct;
  std::vector<bytes> samples;
  u64 evaluations = 0, nontrivial = 0;
  std::map<bytes, u64> foreign; // violations of other properties noticed on the way
  void add(const bytes& k, u64 v = 1) { n[k] += v; }
  void max(const bytes& k, u64 v) { auto& x = n["max_" + k]; if (v > x) x = v; }
  void sample(const bytes& s, std::size_t cap = 3) { if (samples.size() < cap) samples.push_back(s); }
};

inline bytes jstr(const bytes& s)
{
  bytes r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char t[8]; std::snprintf(t, 8, "\\u%04x", c); r += t; } else r += (char)c; } return r + "\"";
}

// One JSON line for the driver.
inline void emit_result(const stats& st, std::FILE* out)
{
  std::fprintf(out, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"counters\":{", (unsigned long long)st.evaluations, (unsigned long long)st.nontrivial);
  bool first = true;
  for (auto& p : st.n) { std::fprintf(out, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  std::fprintf(out, "},\"foreign\":{"); first = true;
  for (auto& p : st.foreign) { std::fprintf(out, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  std::fprintf(out, "},\"distinct\":["); first = true;
  for (auto h : st.distinct) { std::fprintf(out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  std::fprintf(out, "],\"samples\":["); first = true;
  for (auto& s : st.samples) { std::fprintf(out, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
  std::fprintf(out, "]}\n");
}

// ---------------------------------------------------------------- command line shared by all harnesses
// prog --prop C01 --seed N --from A --to B --tier quick|thorough --out result.json --mark file
//   Runs cases [A,B); writes the current case number to `mark` before starting it, so that a crash
//   can be attributed.  `--case K` runs a single case (replay).
struct options
{
  bytes prop = "C01", out, mark, tier = "quick", extra; u64 seed = 1, from = 0, to = 1, stride = 1; bool verbose = false;
  options(int argc, char** argv)
  {
    for (int i = 1; i < argc; ++i)
    {
      const bytes a = argv[i]; auto val = [&]{ if (i + 1 >= argc) { std::fprintf(stderr, "missing value\n"); std::exit(3);} return bytes(argv[++i]); };
      if (a == "--prop") prop = val(); else if (a == "--seed") seed = std::stoull(val()); else if (a == "--from") from = std::stoull(val());
      else if (a == "--to") to = std::stoull(val()); else if (a == "--stride") stride = std::stoull(val());
      else if (a == "--case") { from = std::stoull(val()); to = from + 1; stride = 1; }
      else if (a == "--out") out = val(); else if (a == "--mark") mark = val(); else if (a == "--tier") tier = val();
      else if (a == "--extra") extra = val();
      else if (a == "-v") verbose = true; else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); std::exit(3); }
    }
  }
  bool thorough() const { return tier == "thorough"; }
};

using case_fn = std::function<void(u64 case_no, const options&, stats&)>;

// Exit codes: 0 all held; 10 violation of --prop (details printed); others: crash / harness error.
inline int run_cases(const options& o, const case_fn& fn)
{
  stats st; int rc = 0;
  for (u64 c = o.from; c < o.to; c += o.stride)
  {
    if (!o.mark.empty()) { if (std::FILE* f = std::fopen(o.mark.c_str(), "w")) { std::fprintf(f, "%llu\n", (unsigned long long)c); std::fclose(f); } }
    try { fn(c, o, st); }
    catch (const violation& v)
    {
      if (v.prop == o.prop || o.prop == "ALL")
      {
        std::printf("VIOL %s case=%llu %s\n", v.prop.c_str(), (unsigned long long)c, v.what());
        std::fflush(stdout); rc = 10;
        if (o.prop != "ALL") break;
      }
      else st.foreign[v.prop]++;
    }
  }
  if (!o.out.empty()) { if (std::FILE* f = std::fopen(o.out.c_str(), "w")) { emit_result(st, f); std::fclose(f); } }
  else if (o.verbose) emit_result(st, stdout);
  return rc;
}

} // namespace vf
