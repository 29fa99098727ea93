// C20: live bytes and objects of a sender and a receiver on long streams made of identical epochs.
//
// Every allocation made by the library (and by the ntc objects given to it) is tracked.  An epoch is a
// fixed pattern of submissions, losses, duplicates, delays, stale and refused packets, ended by a
// quiescent point at which both sides hold next to nothing: what they hold must not grow with the
// number of epochs, nor may the peak inside the epochs, and nothing may be left after destruction.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include <new>
extern "C" {
#include <gf_complete.h>
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_gf_init_easy(gf_t*, int); int __real_gf_free(gf_t*, int);
}
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C20", m); }

static bool in_lib = false;
static long live = 0, live_bytes = 0, peak = 0, fields = 0; static u64 tracked = 0;
static const std::size_t TABLE = 1 << 20; static void* table[TABLE]; static std::size_t sizes[TABLE]; static u64 dead = 0;
static std::size_t slot(void* p) { return (std::size_t)(((std::uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 44); }
static void put_raw(void* p, std::size_t n) { std::size_t i = slot(p); while (table[i] && table[i] != (void*)1) i = (i + 1) % TABLE; if (table[i] == (void*)1) --dead; table[i] = p; sizes[i] = n; }
static void rehash()
{
  static void* ps[TABLE]; static std::size_t ss[TABLE]; std::size_t n = 0;
  for (std::size_t i = 0; i < TABLE; ++i) { if (table[i] && table[i] != (void*)1) { ps[n] = table[i]; ss[n++] = sizes[i]; } table[i] = nullptr; }
  dead = 0; for (std::size_t i = 0; i < n; ++i) put_raw(ps[i], ss[i]);
}
static void track(void* p, std::size_t n) { if (!p) return; if (dead > TABLE / 4) rehash(); put_raw(p, n); ++live; ++tracked; live_bytes += (long)n; if (live_bytes > peak) peak = live_bytes; }
static bool untrack(void* p)
{
  if (!p || live == 0) return false;
  for (std::size_t i = slot(p); table[i]; i = (i + 1) % TABLE) if (table[i] == p) { table[i] = (void*)1; ++dead; --live; live_bytes -= (long)sizes[i]; return true; }
  return false;
}
extern "C" {
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (in_lib) track(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (in_lib) track(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) { const bool t = untrack(q); void* p = __real_realloc(q, n); if (in_lib || t) track(p, n); return p; }
void __wrap_free(void* p) { untrack(p); __real_free(p); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { const int e = __real_posix_memalign(r, a, n); if (in_lib && !e) track(*r, n); return e; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); if (in_lib) track(p, n); return p; }
int __wrap_gf_init_easy(gf_t* g, int w) { const int r = __real_gf_init_easy(g, w); if (r) ++fields; return r; }
int __wrap_gf_free(gf_t* g, int r) { --fields; return __real_gf_free(g, r); }
}
static void* take(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (in_lib) track(p, n); return p; }
static void* take(size_t n, size_t a) { void* p = nullptr; if (__real_posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc(); if (in_lib) track(p, n); return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
struct outside { bool was; outside() : was(in_lib) { in_lib = false; } ~outside() { in_lib = was; } };
struct inside { bool was; inside() : was(in_lib) { in_lib = true; } ~inside() { in_lib = was; } };

struct box { std::vector<bytes> pk, acks; bytes cur, acur; u64 deliveries = 0, delivered_bytes = 0; };
struct h_packets { box* b; void operator()(const char* p, std::size_t n) { outside o; b->cur.append(p, n); } void operator()() { outside o; b->pk.push_back(b->cur); b->cur.clear(); } };
struct h_acks { box* b; void operator()(const char* p, std::size_t n) { outside o; b->acur.append(p, n); } void operator()() { outside o; b->acks.push_back(b->acur); b->acur.clear(); } };
struct h_data { box* b; void operator()(const char*, std::size_t n) { ++b->deliveries; b->delivered_bytes += n; } };
using enc_t = ntc::encoder<h_packets>; using dec_t = ntc::decoder<h_acks, h_data>;

static void one(u64 c, const options& o, stats& st)
{
  const u64 seed = mix(o.seed, c + 2000); rng g(seed); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[c % 4];
  const bool ord = g.chance(0.5), acked = (c / 4) % 3 != 0, sys = g.chance(0.75), adaptive = acked && g.chance(0.25), stale = g.chance(0.6), junk = g.chance(0.6), unsent_acks = g.chance(0.3);
  const u64 rate = g.range(1, 8), window = acked ? (w != 4 && g.chance(0.5) ? 1000000 : g.range(5, w == 4 ? 14 : 40)) : g.range(1, 30), n = rate * g.range(1, 1 + 24 / rate), maxlen = g.pick(std::vector<u64>{24, 200, 1500});
  const double loss = g.chance(0.15) ? 0 : g.pick(std::vector<double>{0.05, 0.2, 0.4}), dup = g.chance(0.5) ? 0.15 : 0, delay = g.chance(0.5) ? 0.15 : 0, ackloss = g.chance(0.3) ? 0.5 : 0;
  const u64 epochs = o.thorough() ? 6000 : 1200, warm = epochs / 4, chk = std::max<u64>(1, epochs / 40);
  const u64 unit = w == 16 ? 2 : w == 32 ? 4 : 1;
  struct snap { long s, r; long so, ro; }; snap base{0, 0, 0, 0}; long peak_base = 0, worst = 0; u64 nbase = 0; u64 h = seed;
  if (live || fields) throw violation("C20", "harness: something was live at the start");
  box b; vclock() = 1000000000ll;
  // the two sides are measured apart: bytes allocated on behalf of each
  long sb = 0, rb = 0, so = 0, ro = 0;
  std::unique_ptr<enc_t> e; std::unique_ptr<dec_t> d;
  auto S = [&](auto&& f) { const long x = live_bytes, y = live; { inside i; f(); } sb += live_bytes - x; so += live - y; };
  auto R = [&](auto&& f) { const long x = live_bytes, y = live; { inside i; f(); } rb += live_bytes - x; ro += live - y; };
  S([&]{ e.reset(new enc_t((u8)w, h_packets{&b})); e->set_rate(rate); e->set_window_size(window); if (!sys) e->set_code_type(ntc::systematic::no); e->set_adaptive(adaptive); });
  R([&]{ d.reset(new dec_t((u8)w, ord ? ntc::in_order::yes : ntc::in_order::no, h_acks{&b}, h_data{&b})); d->set_ack_period(std::chrono::milliseconds(0)); d->set_ack_nb_packets((u16)(acked ? g.range(1, 30) : 128)); });
  std::vector<bytes> old_pk, old_acks;
  auto to_dec = [&](const bytes& p) { R([&]{ ntc::packet k(p.begin(), p.end()); try { if (p.size() % 3) (*d)(std::move(k)); else (*d)(k); } catch (const ntc::packet_type_error&) {} catch (const ntc::overflow_error&) {} }); };
  auto to_enc = [&](const bytes& p) { S([&]{ ntc::packet k(p.begin(), p.end()); try { if (p.size() % 3) (*e)(std::move(k)); else (*e)(k); } catch (const ntc::packet_type_error&) {} catch (const ntc::overflow_error&) {} }); };
  auto submit = [&](rng& r) { u64 len = std::max<u64>(unit, r.range(1, maxlen) / unit * unit); bytes x(len, (char)r.next()); S([&]{ ntc::data k(x.begin(), x.end()); if (len % 3 == 1) (*e)(k); else (*e)(std::move(k)); }); };
  for (u64 ep = 1; ep <= epochs; ++ep)
  {
    rng r(seed + 1); peak = live_bytes; std::vector<bytes> late, seen_pk, seen_acks;
    auto acks_back = [&](double l) { auto v = std::move(b.acks); b.acks.clear(); for (auto& a : v) { seen_acks.push_back(a); if (acked && !r.chance(l)) to_enc(a); } };
    for (u64 i = 0; i < n; ++i)
    {
      submit(r); vclock() += 1000000;
      auto v = std::move(b.pk); b.pk.clear();
      for (auto& p : v)
      {
        seen_pk.push_back(p); if (r.chance(loss)) continue;
        if (r.chance(delay)) { late.push_back(p); continue; }
        to_dec(p); if (r.chance(dup)) to_dec(p);
      }
      if (r.chance(0.2)) { for (auto& p : late) to_dec(p); late.clear(); }
      acks_back(ackloss);
      if (stale && r.chance(0.1) && !old_pk.empty()) to_dec(old_pk[r.below(old_pk.size())]);
      if (stale && acked && r.chance(0.1) && !old_acks.empty()) to_enc(old_acks[r.below(old_acks.size())]);
      if (junk && r.chance(0.15)) { bytes x(r.range(1, 60), 0); for (auto& ch : x) ch = (char)r.next(); x[0] = (char)r.range(3, 255); to_dec(x); x[0] = 2; to_enc(x); }
      if (junk && r.chance(0.15)) { bytes x = seen_pk[r.below(seen_pk.size())]; x.resize(r.range(1, std::min<std::size_t>(6, x.size()))); to_dec(x); }
      if (r.chance(0.05)) { R([&]{ d->generate_ack(); }); if (unsent_acks) b.acks.clear(); acks_back(ackloss); }
    }
    for (auto& p : late) to_dec(p); late.clear(); acks_back(ackloss);
    if (ep < warm) peak_base = std::max(peak_base, peak);
    else if (window < 1000000 && peak > 3 * peak_base + 65536) bad("window " + s(window) + ": the peak inside an epoch has grown from " + s((u64)peak_base) + " to " + s((u64)peak) + " bytes after " + s(ep) + " epochs of " + s(n) + " blocks");
    // ---- quiescence
    auto force = [&]{ b.pk.clear(); S([&]{ e->generate_repair(); }); auto v = std::move(b.pk); b.pk.clear(); for (auto& p : v) to_dec(p); };
    if (acked)
    {
      auto clean = [&]{ submit(r); auto v = std::move(b.pk); b.pk.clear(); for (auto& p : v) to_dec(p); };
      // blocks whose coefficients make them indistinguishable (small fields) only leave with the window
      for (int k = 0; k < 120 && (k == 0 || e->window() != 0); ++k) { if (e->window()) force(); b.acks.clear(); R([&]{ d->generate_ack(); }); acks_back(0); if (k > 50) clean(); }
      // one more block, alone in the window, so that its repair shows the receiver that nothing older matters
      bool alone = false;
      for (int k = 0; k < 20 && !(alone && e->window() == 0); ++k)
      {
        alone = e->window() == 0; clean(); force();
        for (int m = 0; m < 5 && (m == 0 || e->window() != 0); ++m) { if (m) force(); b.acks.clear(); R([&]{ d->generate_ack(); }); acks_back(0); }
      }
      if (!alone) { st.add("not_quiescent"); continue; }
      if (e->window() != 0) { st.add("not_quiescent"); continue; }
    }
    else
    {
      for (u64 k = 0; k < window; ++k) { submit(r); auto v = std::move(b.pk); b.pk.clear(); for (auto& p : v) to_dec(p); }
      for (u64 k = 0; k < 3 * window + 3 && (k == 0 || d->nb_missing_sources()); ++k) force();
      b.acks.clear();
      if (d->nb_missing_sources()) { st.add("not_quiescent"); continue; }
    }
    st.add("epochs"); old_pk = seen_pk; old_acks = seen_acks; if (old_pk.size() > 50) old_pk.resize(50); h = mix(h, (u64)live_bytes);
    b.pk.clear(); b.acks.clear();
    if (ep < warm) { ++nbase; base.s = std::max(base.s, sb); base.r = std::max(base.r, rb); base.so = std::max(base.so, so); base.ro = std::max(base.ro, ro); peak_base = std::max(peak_base, peak); }
    else if (nbase >= 20 && (ep % chk == 0 || ep == epochs))
    {
      // Slack: capacities that happen to be reached late.  Blocks of one epoch would already exceed it.
      const long grown = (long)(2048 + 2 * maxlen), objs = 40;
      const bytes who = "w=" + s(w) + (ord ? " in order" : " unordered") + (acked ? ", acknowledged, window " : ", not acknowledged, window ") + s(window) + ", after " + s(ep) + " epochs of " + s(n) + " blocks: ";
      if (sb > base.s + grown || so > base.so + objs) bad(who + "the sender holds " + s((u64)sb) + " bytes in " + s((u64)so) + " allocations at a point at which it held at most " + s((u64)base.s) + " in " + s((u64)base.so) + " during the first " + s(warm) + " epochs");
      if (rb > base.r + grown || ro > base.ro + objs) bad(who + "the receiver holds " + s((u64)rb) + " bytes in " + s((u64)ro) + " allocations at a point at which it held at most " + s((u64)base.r) + " in " + s((u64)base.ro) + " during the first " + s(warm) + " epochs");
      if (peak > 3 * peak_base + 65536) bad(who + "the peak inside an epoch has grown from " + s((u64)peak_base) + " to " + s((u64)peak) + " bytes");
      worst = std::max({worst, sb - base.s, rb - base.r}); st.add("growth_checks");
    }
    if (live_bytes > (512l << 20)) bad("more than 512 MB are held");
  }
  st.max("growth_bytes", (u64)std::max(0l, worst)); st.max("peak_bytes", (u64)peak); st.add("packets", e->nb_sent_sources() + e->nb_sent_repairs()); st.add("deliveries", b.deliveries); st.add("rebuilt", d->nb_decoded());
  S([&]{ e.reset(); }); if (sb != 0 || so != 0) bad("destroying the sender leaves " + s((u64)so) + " allocations, " + s((u64)sb) + " bytes");
  R([&]{ d.reset(); }); if (rb != 0 || ro != 0) bad("destroying the receiver leaves " + s((u64)ro) + " allocations, " + s((u64)rb) + " bytes");
  if (live) bad(s((u64)live) + " allocations are left after destruction"); if (fields) bad("a field is not released");
  // ---- destruction in the middle of a stream
  for (int k = 0; k < 30; ++k)
  {
    rng r(mix(seed, k)); sb = rb = so = ro = 0; b = box();
    S([&]{ e.reset(new enc_t((u8)w, h_packets{&b})); e->set_rate(r.range(1, 5)); if (r.chance(0.3)) e->set_code_type(ntc::systematic::no); });
    R([&]{ d.reset(new dec_t((u8)w, r.chance(0.5) ? ntc::in_order::yes : ntc::in_order::no, h_acks{&b}, h_data{&b})); });
    for (u64 i = 0, m = r.below(40); i < m; ++i) { submit(r); auto v = std::move(b.pk); b.pk.clear(); for (auto& p : v) if (!r.chance(0.4)) to_dec(p); auto a = std::move(b.acks); b.acks.clear(); for (auto& x : a) if (r.chance(0.5)) to_enc(x); }
    S([&]{ e.reset(); }); R([&]{ d.reset(); });
    if (live || fields || sb || rb) bad("destroying the two sides in the middle of a stream leaves " + s((u64)live) + " allocations, " + s((u64)live_bytes) + " bytes, " + s((u64)fields) + " fields");
    st.add("destructions", 2);
  }
  ++st.evaluations; ++st.nontrivial; st.distinct.insert(h);
  if (st.samples.size() < 3) st.sample("case " + s(c) + ": w=" + s(w) + (acked ? ", acknowledged" : ", not acknowledged") + ", window " + s(window) + ", loss " + std::to_string(loss).substr(0, 4) + ", " + s(epochs) + " epochs of " + s(n) + " blocks; holds " + s((u64)base.s) + " + " + s((u64)base.r) + " bytes at rest, grew by at most " + s((u64)std::max(0l, worst)));
}
int main(int argc, char** argv) { options o(argc, argv); return run_cases(o, one); }
