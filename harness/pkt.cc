// C19: ntc::packet against a plain byte string under random sequences of operations.
#include "common.hh"
#include "netcode/packet.hh"
#include <list>
using namespace vf;
using ntc::packet;
static bytes S(u64 x) { return std::to_string(x); }

struct machine
{
  rng& r; stats& st; std::vector<std::unique_ptr<packet>> p; std::vector<bytes> m; std::vector<char> dead; bytes ops; // dead: moved from
  // unknown[i]: bytes of a resize/constructor without value are unspecified: they are written at once
  machine(rng& r_, stats& s_) : r(r_), st(s_) {}
  void bad(const bytes& x) { throw violation("C19", x + " after " + (ops.size() > 400 ? "..." + ops.substr(ops.size() - 400) : ops)); }
  bytes rnd(std::size_t n) { bytes b(n, 0); for (auto& c : b) c = (char)r.next(); return b; }
  std::size_t len() { return r.chance(0.3) ? r.below(4) : r.chance(0.8) ? r.below(60) : r.chance(0.9) ? r.below(3000) : r.below(140000); }
  void fill(packet& k, bytes& b, std::size_t from) { for (std::size_t i = from; i < b.size(); ++i) { const char c = (char)r.next(); k[i] = c; b[i] = c; } }
  void verify(std::size_t i)
  {
    if (dead[i]) return;
    packet& k = *p[i]; const packet& c = k; const bytes& b = m[i];
    if (k.size() != b.size()) bad("size() is " + S(k.size()) + " expected " + S(b.size()));
    if (k.empty() != b.empty()) bad("empty() is wrong");
    if (k.capacity() < k.size()) bad("capacity() smaller than size()");
    if (bytes(c.begin(), c.end()) != b || bytes(k.begin(), k.end()) != b || bytes(c.cbegin(), c.cend()) != b) bad("iterators give " + hex(bytes(c.begin(), c.end())) + " expected " + hex(b));
    if (!b.empty() && (bytes(k.data(), b.size()) != b || bytes(c.data(), b.size()) != b)) bad("data() gives other bytes");
    for (int q = 0; q < 3 && !b.empty(); ++q) { const std::size_t x = r.below(b.size()); if (c[x] != b[x] || k[x] != b[x]) bad("operator[] gives another byte"); }
    if (b.size() >= 7)
    {
      if (c.symbol() != c.data() + 7 || k.symbol() != k.data() + 7) bad("symbol() does not follow the header");
      if (reinterpret_cast<std::uintptr_t>(c.symbol()) % 16) bad("symbol() not on a 16-byte boundary");
    }
    st.add("states_checked");
  }
  std::size_t add(packet* k, const bytes& b) { p.emplace_back(k); m.push_back(b); dead.push_back(0); return p.size() - 1; }
  std::size_t any(bool alive = true) { for (int i = 0; i < 50; ++i) { std::size_t x = r.below(p.size()); if (!alive || !dead[x]) return x; } return add(new packet, ""); }
  void step()
  {
    if (p.empty() || (p.size() < 5 && r.chance(0.1)))
    {
      std::size_t i; const bytes b = rnd(len());
      switch (r.below(7))
      {
        case 0: i = add(new packet, ""); ops += " ctor()"; break;
        case 1: i = add(new packet(b.size()), bytes(b.size(), 0)); fill(*p[i], m[i], 0); ops += " ctor(" + S(b.size()) + ")"; break;
        case 2: i = add(new packet(b.size(), 'x'), bytes(b.size(), 'x')); ops += " ctor(" + S(b.size()) + ",x)"; break;
        case 3: i = add(new packet(b.begin(), b.end()), b); ops += " ctor(range " + S(b.size()) + ")"; break;
        case 4: i = add(new packet{'a', 'b', 'c'}, "abc"); ops += " ctor{abc}"; break;
        case 5: { std::list<char> l(b.begin(), b.end()); i = add(new packet(l.begin(), l.end()), b); ops += " ctor(list " + S(b.size()) + ")"; break; }
        default: { const char* q = b.data(); i = add(new packet(q, q + b.size()), b); ops += " ctor(ptr " + S(b.size()) + ")"; break; }
      }
      verify(i); return;
    }
    st.add("operations");
    const std::size_t i = any(); packet& k = *p[i]; bytes& b = m[i];
    switch (r.below(21))
    {
      case 19: // what capacity() promises: it is reached without moving the bytes
      { if (r.chance(0.3)) k.reserve(b.size() + r.below(300)); if (k.capacity() < k.size() || k.capacity() - k.size() > 5000) break; const char* at = k.data(); const std::size_t cap = k.capacity();
        while (k.size() < cap) { const char c = (char)r.next(); k.push_back(c); b += c; }
        if (k.data() != at) bad("push_back moves the bytes before capacity() " + S(cap) + " is reached"); st.add("capacities_filled"); ops += " fill-up"; break; }
      case 0: case 1: case 2: { const int n = (int)r.range(1, 20); for (int q = 0; q < n; ++q) { const char c = (char)r.next(); k.push_back(c); b += c; } ops += " push" + S(n); break; }
      case 3: case 4: { const std::size_t n = len(), o = b.size(); k.resize(n); b.resize(n, 0); if (n > o) fill(k, b, o); ops += " resize" + S(n); break; }
      case 5: { const std::size_t n = len(); k.resize(n, 'z'); b.resize(n, 'z'); ops += " resize" + S(n) + "z"; break; }
      case 6: { const std::size_t n = len(); k.reserve(n); if (k.capacity() < n) bad("reserve(" + S(n) + ") gives capacity " + S(k.capacity())); ops += " reserve" + S(n); break; }
      case 7: k.shrink_to_fit(); ops += " shrink"; break;
      case 8: k.clear(); b.clear(); ops += " clear"; break;
      case 9: { const std::size_t n = len(); k.assign(n, 'q'); b.assign(n, 'q'); ops += " assign" + S(n) + "q"; break; }
      case 10: { const bytes x = rnd(len()); k.assign(x.begin(), x.end()); b = x; ops += " assign-range" + S(x.size()); break; }
      case 11: k.assign({'1', '2'}); b = "12"; ops += " assign{12}"; break;
      case 12: { packet* n = new packet(k); const std::size_t j = add(n, bytes(m[i])); ops += " copy-ctor"; verify(j); break; }
      case 13: { packet* n = new packet(std::move(k)); const bytes x = m[i]; dead[i] = 1; const std::size_t j = add(n, x); ops += " move-ctor"; verify(j); break; }
      case 14: { const std::size_t j = any(false); if (j != i) { *p[j] = *p[i]; m[j] = m[i]; dead[j] = 0; ops += " copy-assign"; verify(j); } else { packet& self = *p[j]; self = *p[i]; ops += " self-assign"; } break; }
      case 15: { const std::size_t j = any(false); if (j != i) { *p[j] = std::move(*p[i]); m[j] = m[i]; dead[j] = 0; dead[i] = 1; ops += " move-assign"; verify(j); } break; }
      case 16: if (!b.empty()) { const std::size_t x = r.below(b.size()); const char c = (char)r.next(); if (r.chance(0.3)) k[x] = c; else if (r.chance(0.5)) *(k.begin() + (long)x) = c; else k.data()[x] = c; b[x] = c; ops += " set"; } break;
      case 17: // a moved-from packet is given new contents
      { for (std::size_t j = 0; j < p.size(); ++j) if (dead[j]) { const bytes x = rnd(len()); p[j]->assign(x.begin(), x.end()); m[j] = x; dead[j] = 0; ops += " revive"; verify(j); break; } break; }
      case 18: if (p.size() > 3) { const std::size_t j = r.below(p.size()); p.erase(p.begin() + (long)j); m.erase(m.begin() + (long)j); dead.erase(dead.begin() + (long)j); ops += " delete"; return; } break;
      default: { // back_inserter, as used when receiving
        const bytes x = rnd(r.below(50)); std::copy(x.begin(), x.end(), std::back_inserter(k)); b += x; ops += " back_inserter" + S(x.size()); break; }
    }
    if (i < p.size()) verify(i);
    // independence: no other packet may have changed
    if (!p.empty()) verify(r.below(p.size()));
  }
};
int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [](u64 c, const options& o, stats& st)
  {
    rng r(mix(o.seed, c)); machine m(r, st); const unsigned n = (unsigned)r.range(5, 120);
    for (unsigned i = 0; i < n; ++i) m.step();
    for (std::size_t i = 0; i < m.p.size(); ++i) m.verify(i);
    ++st.evaluations; ++st.nontrivial; st.distinct.insert(fnv(m.ops));
    if (st.samples.size() < 2) st.sample("case " + S(c) + ":" + m.ops.substr(0, 300));
  });
}
