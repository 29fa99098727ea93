// C10, thorough: coverage-guided packets.  The input is a program: a configuration byte, then
// operations that submit data, forward, corrupt or forge packets and acknowledgements.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include "mutate.hh"
#include "netcode/dispatch.hh"
using namespace vf;
namespace {
struct out { std::vector<bytes> pk, ack; bytes cur, acur; u64 sum = 0; };
struct hp { out* o; void operator()(const char* p, std::size_t n) { o->cur.append(p, n); } void operator()() { o->pk.push_back(o->cur); o->cur.clear(); } };
struct ha { out* o; void operator()(const char* p, std::size_t n) { o->acur.append(p, n); } void operator()() { o->ack.push_back(o->acur); o->acur.clear(); } };
struct hd { out* o; void operator()(const char* p, std::size_t n) { o->sum = fnv(bytes(p, n), o->sum); } };
struct input
{
  const u8* p; std::size_t n;
  u8 get() { if (!n) return 0; --n; return *p++; }
  bytes take(std::size_t k) { k = std::min(k, n); bytes b((const char*)p, k); p += k; n -= k; return b; }
};
}
extern "C" int LLVMFuzzerTestOneInput(const u8* data, std::size_t size)
{
  if (size < 4) return 0;
  input in{data, size}; static const unsigned ws[] = {4, 8, 16, 32}; const u8 cfg = in.get(), cfg2 = in.get();
  const unsigned w = ws[cfg & 3], k = w == 16 ? 2 : w == 32 ? 4 : 1; vclock() = 1000000000ll; out o;
  ntc::encoder<hp> e((u8)w, hp{&o}); ntc::decoder<ha, hd> d((u8)w, cfg & 4 ? ntc::in_order::yes : ntc::in_order::no, ha{&o}, hd{&o});
  e.set_rate(1 + (cfg2 & 7)); e.set_window_size(1 + (cfg2 >> 3)); e.set_adaptive(cfg & 8); if (cfg & 16) e.set_code_type(ntc::systematic::no);
  d.set_ack_nb_packets((u16)(1 + (cfg >> 5) * 4));
  auto give = [&](int to, const bytes& b)
  {
    if (b.empty() || expansion(b) > 300) return;
    try { if (to == 0) d(ntc::packet(b.begin(), b.end())); else if (to == 1) e(ntc::packet(b.begin(), b.end())); else ntc::dispatch(e, d, ntc::packet(b.begin(), b.end())); }
    catch (const ntc::packet_type_error&) {} catch (const ntc::overflow_error&) {}
  };
  for (unsigned steps = 0; in.n && steps < 120; ++steps)
  {
    if (d.nb_missing_sources() > 60) return 0;
    vclock() += 7000000;
    const u8 op = in.get();
    switch (op & 7)
    {
      case 0: { bytes b = in.take(1 + (op >> 3)); b.resize(std::max<std::size_t>(k, b.size() / k * k)); e(ntc::data(b.begin(), b.end())); break; }
      case 1: if (!o.pk.empty()) { give(0, o.pk[(op >> 3) % o.pk.size()]); } break;
      case 2: if (!o.pk.empty()) { bytes b = o.pk[o.pk.size() - 1 - (op >> 3) % o.pk.size()]; for (int i = 0; i < 3; ++i) { const u8 at = in.get(), v = in.get(); b[(at & 128 ? b.size() - 1 - at % b.size() : at % b.size())] ^= (char)v; } give(0, b); } break;
      case 3: if (!o.pk.empty()) { bytes b = o.pk.back(); b.resize(1 + in.get() % b.size()); give(0, b); } break;
      case 4: give(op >> 6, in.take(in.get())); break;
      case 5: if (!o.ack.empty()) { bytes b = o.ack.back(); if (op & 8) { const u8 at = in.get(); b[at % b.size()] = (char)in.get(); } give(1, b); } else d.generate_ack(); break;
      case 6: e.generate_repair(); if (op & 8) give(0, o.pk.empty() ? bytes("x") : o.pk.back()); break;
      default: // a repair put together from small parts
      {
        const u8 m = in.get(); std::vector<u32> ids; u32 id = in.get() & 63; for (unsigned i = 0; i < (m & 7u); ++i) { ids.push_back(id); id += 1 + (in.get() & 3); }
        const u8 sz = in.get(); const u32 es = op & 8 ? in.get() : (u32)in.get() << 8 | in.get(); give(0, make_repair(m >> 3, in.take(sz), ids, es, w));
      }
    }
    if (o.pk.size() > 30) o.pk.erase(o.pk.begin(), o.pk.begin() + 10);
    if (o.ack.size() > 8) o.ack.erase(o.ack.begin(), o.ack.begin() + 4);
  }
  return 0;
}
