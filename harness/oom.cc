// C14: every allocation of every C interface call is made to fail, one at a time and from there on.
//
// A script of calls is run once to learn how many allocations each call makes; then once per
// (call, allocation, mode) with that fault injected.  Linked with --wrap for malloc, calloc, realloc,
// free, posix_memalign, aligned_alloc, gf_init_easy and gf_free.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include <new>
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"
extern "C" {
#include <gf_complete.h>
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_gf_init_easy(gf_t*, int); int __real_gf_free(gf_t*, int);
}
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C14", m); }

// ------------------------------------------------------------------------------ allocation hooks
static bool in_lib = false;            // inside a C interface call, outside of the callbacks
static u64 n_allocs = 0, fail_at = 0;  // 1-based index within the call; 0: never
static bool fail_on = false, fired = false; // fail_on: all later ones in the same call fail too
static long live = 0, live_fields = 0;
static const std::size_t TABLE = 1 << 18; static void* table[TABLE];
static std::size_t slot(void* p) { return (std::size_t)(((std::uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 46); }
static void track(void* p) { if (!p) return; std::size_t i = slot(p); while (table[i] && table[i] != (void*)1) i = (i + 1) % TABLE; table[i] = p; ++live; }
static bool untrack(void* p) { if (!p || live == 0) return false; std::size_t i = slot(p); while (table[i]) { if (table[i] == p) { table[i] = (void*)1; --live; if (live == 0) std::memset(table, 0, sizeof table); return true; } i = (i + 1) % TABLE; } return false; }
static bool should_fail()
{
  if (!in_lib) return false;
  ++n_allocs;
  if (fail_at && (n_allocs == fail_at || (fail_on && n_allocs > fail_at))) { fired = true; return true; }
  return false;
}
extern "C" {
void* __wrap_malloc(size_t n) { if (should_fail()) return nullptr; void* p = __real_malloc(n); if (in_lib) track(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (should_fail()) return nullptr; void* p = __real_calloc(a, b); if (in_lib) track(p); return p; }
void* __wrap_realloc(void* q, size_t n) { if (should_fail()) return nullptr; const bool t = untrack(q); void* p = __real_realloc(q, n); if (in_lib || t) track(p); return p; }
void __wrap_free(void* p) { untrack(p); __real_free(p); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { if (should_fail()) return 12; const int e = __real_posix_memalign(r, a, n); if (in_lib && !e) track(*r); return e; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (should_fail()) return nullptr; void* p = __real_aligned_alloc(a, n); if (in_lib) track(p); return p; }
int __wrap_gf_init_easy(gf_t* g, int w) { if (should_fail()) return 0; const int r = __real_gf_init_easy(g, w); if (r && in_lib) ++live_fields; return r; }
int __wrap_gf_free(gf_t* g, int r) { if (in_lib) --live_fields; return __real_gf_free(g, r); }
}
static void* take(size_t n) { if (should_fail()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (in_lib) track(p); return p; }
static void* take(size_t n, size_t a) { if (should_fail()) throw std::bad_alloc(); void* p = nullptr; if (__real_posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc(); if (in_lib) track(p); return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

struct outside { bool was; outside() : was(in_lib) { in_lib = false; } ~outside() { in_lib = was; } };

// ------------------------------------------------------------------------------ scripts
struct sink { std::vector<bytes> pk, acks, data; bytes cur; };
extern "C" {
static void e_prep(void* c, const char* p, size_t n) { outside o; ((sink*)c)->cur.append(p, n); }
static void e_send(void* c) { outside o; auto* k = (sink*)c; k->pk.push_back(k->cur); k->cur.clear(); }
static void d_prep(void* c, const char* p, size_t n) { outside o; ((sink*)c)->cur.append(p, n); }
static void d_send(void* c) { outside o; auto* k = (sink*)c; k->acks.push_back(k->cur); k->cur.clear(); }
static void d_read(void* c, const char* p, size_t n) { outside o; ((sink*)c)->data.push_back(bytes(p, n)); }
}
struct fault { u64 call = ~0ull, alloc = 0; bool on = false; };
struct world
{
  const u64 seed; const unsigned w; const bool ord; const fault f; stats& st; const bool count; std::vector<u64>* counts;
  rng r; u64 call_no = 0; bool hit = false; bytes hit_call; int hit_code = -1; u64 h = 0;
  sink es, ds; ntc_encoder_t* E = nullptr; ntc_decoder_t* D = nullptr; ntc_data_t* dat = nullptr; ntc_packet_t* pkt = nullptr; ntc_error err;
  std::unordered_map<bytes, unsigned> submitted; std::unordered_map<bytes, unsigned> given; bytes last_block; u64 n_deliv = 0; unsigned serial = 0;
  std::vector<bytes> pool; bool nonsys = false, sys_again = false; u32 horizon = 0;

  world(u64 sd, unsigned w_, bool o, fault f_, stats& s_, std::vector<u64>* cnt) : seed(sd), w(w_), ord(o), f(f_), st(s_), count(cnt != nullptr), counts(cnt), r(sd) {}

  // Run one C interface call with the fault armed if it is the chosen one.
  template <class F> void call(const char* name, F&& fn)
  {
    const bool mine = call_no == f.call; n_allocs = 0; fired = false; fail_at = mine ? f.alloc : 0; fail_on = f.on;
    in_lib = true; fn(); in_lib = false; fail_at = 0;
    if (count) counts->push_back(n_allocs);
    if (mine && fired) { hit = true; hit_call = name; }
    ++call_no;
  }
  bool armed() const { return call_no == f.call + 1 && hit && hit_call.size(); } // the call just made was hit
  // Check the outcome of a call that reports an error structure.
  // Returns whether it worked.
  bool outcome(const char* name, bool may_fail_otherwise = false)
  {
    const bool was_hit = call_no == f.call + 1 && fired;
    if (was_hit)
    {
      hit_code = err.type;
      if (err.type != ntc_no_error && err.type != ntc_no_memory && !may_fail_otherwise) bad(bytes(name) + " reports code " + s((u64)err.type) + " when memory runs out");
      st.add(err.type == ntc_no_memory ? "reported_no_memory" : "succeeded_anyway");
      if (err.message) { free(err.message); err.message = nullptr; }
      if (!es.cur.empty() || !ds.cur.empty()) bad(bytes(name) + ": running out of memory leaves a packet without end");
      return err.type == ntc_no_error;
    }
    if (err.type != ntc_no_error && !may_fail_otherwise) bad(bytes(name) + " reports code " + s((u64)err.type) + " although memory is available" + (hit ? " (after " + hit_call + " ran out of memory)" : bytes()));
    if (err.message) { free(err.message); err.message = nullptr; }
    return err.type == ntc_no_error;
  }
  template <class T> void created(T*& p, const char* name, const std::function<T*()>& mk)
  {
    for (int i = 0; i < 2 && !p; ++i)
    {
      call(name, [&]{ p = mk(); });
      const bool was_hit = call_no == f.call + 1 && fired;
      if (!p && !was_hit) bad(bytes(name) + " returns null although memory is available");
      if (was_hit) st.add(p ? "succeeded_anyway" : "creations_null");
    }
    if (!p) bad(bytes(name) + " returns null again although memory is available");
  }
  bool prepare_data(const bytes& b)
  {
    const bool from = r.chance(0.5);
    if (dat && r.chance(0.5)) { call("ntc_delete_data", [&]{ ntc_delete_data(dat); }); dat = nullptr; }
    if (!dat && from) { created<ntc_data_t>(dat, "ntc_new_data_from", [&]{ return ntc_new_data_from(b.data(), (u16)b.size()); }); }
    else
    {
      if (!dat) created<ntc_data_t>(dat, "ntc_new_data", [&]{ return ntc_new_data(4); });
      call("ntc_data_resize", [&]{ ntc_data_resize(dat, (u16)b.size(), &err); });
      if (!outcome("ntc_data_resize")) { call("ntc_data_resize", [&]{ ntc_data_resize(dat, (u16)b.size(), &err); }); if (!outcome("ntc_data_resize")) return false; }
      std::memcpy(ntc_data_buffer(dat), b.data(), b.size());
    }
    if (bytes(ntc_data_buffer(dat), ntc_data_get_size(dat)) != b) bad("a data buffer lost its bytes");
    return true;
  }
  bool prepare_packet(const bytes& b)
  {
    if (pkt && r.chance(0.5)) { call("ntc_delete_packet", [&]{ ntc_delete_packet(pkt); }); pkt = nullptr; }
    if (!pkt && r.chance(0.5)) created<ntc_packet_t>(pkt, "ntc_new_packet_from", [&]{ return ntc_new_packet_from(b.data(), (u16)b.size()); });
    else
    {
      if (!pkt) created<ntc_packet_t>(pkt, "ntc_new_packet", [&]{ return ntc_new_packet(3); });
      call("ntc_packet_resize", [&]{ ntc_packet_resize(pkt, (u16)b.size(), &err); });
      if (!outcome("ntc_packet_resize")) { call("ntc_packet_resize", [&]{ ntc_packet_resize(pkt, (u16)b.size(), &err); }); if (!outcome("ntc_packet_resize")) return false; }
      std::memcpy(ntc_packet_buffer(pkt), b.data(), b.size());
    }
    if (bytes(ntc_packet_buffer(pkt), ntc_packet_get_size(pkt)) != b) bad("a packet buffer lost its bytes");
    return true;
  }
  void check_deliveries()
  {
    for (auto& d : ds.data)
    {
      ++n_deliv; h = fnv(d, h);
      if (!submitted.count(d)) bad("corrupted data delivered (" + s(d.size()) + " bytes) after " + (hit ? hit_call + " ran out of memory" : bytes("no fault at all")));
      ++given[d];
      if (hit) st.add("deliveries_checked_after_fault");
    }
    ds.data.clear();
  }
  bytes submit(bool& worked)
  {
    const unsigned k = w == 16 ? 2 : w == 32 ? 4 : 1; std::size_t n = r.chance(0.8) ? r.range(8, 60) : r.range(60, 3000); n = n / k * k;
    bytes b(n, 0); for (auto& c : b) c = (char)r.next(); ++serial; for (int i = 0; i < 4; ++i) b[i] = (char)(serial >> (8 * i)); // unique
    submitted[b]++; worked = false;
    if (!prepare_data(b)) return b;
    es.pk.clear(); call("ntc_encoder_add_data", [&]{ ntc_encoder_add_data(E, dat, &err); }); worked = outcome("ntc_encoder_add_data");
    collect();
    if (worked && !(nonsys && !sys_again))
    { bool in = false; for (auto& p : es.pk) if (p[0] == T_SOURCE && parse(p, w).symbol == b) in = true; if (!in) bad("ntc_encoder_add_data reports success but the block was not emitted"); }
    else if (worked && es.pk.empty()) bad("ntc_encoder_add_data reports success but nothing was emitted");
    return b;
  }
  void collect()
  {
    for (auto& p : es.pk) { pool.push_back(p); h = fnv(p, h); try { if (parse(p, w).consumed != p.size()) bad("an emitted packet has " + s(p.size()) + " bytes, its format needs less"); } catch (const parse_error& e) { bad(bytes("an emitted packet is ") + e.what()); } }
  }
  void repair() { es.pk.clear(); call("ntc_encoder_generate_repair", [&]{ ntc_encoder_generate_repair(E, &err); }); const bool ok = outcome("ntc_encoder_generate_repair"); collect(); if (ok && es.pk.size() != 1 && ntc_encoder_window(E)) bad("ntc_encoder_generate_repair reports success but no repair was emitted"); }
  bool give(const bytes& p)
  {
    if (!prepare_packet(p)) return false;
    const wire x = parse(p, w); if (x.type == T_REPAIR && !x.ids.empty()) horizon = std::max(horizon, x.ids[0]);
    call("ntc_decoder_add_packet", [&]{ ntc_decoder_add_packet(D, pkt, &err); }); const bool ok = outcome("ntc_decoder_add_packet");
    check_deliveries();
    if (ok && !ord && x.type == T_SOURCE && x.id >= horizon && !given.count(x.symbol)) bad("ntc_decoder_add_packet reports success but the block was not delivered");
    return ok;
  }
  void bad_packets()
  { // refusals also allocate
    const bytes x = "\x09junk-junk-junk-junk-junk-junk-junk"; if (!prepare_packet(x)) return;
    call("ntc_decoder_add_packet", [&]{ ntc_decoder_add_packet(D, pkt, &err); }); outcome("ntc_decoder_add_packet", true);
    if (err.type != ntc_packet_type_error && err.type != ntc_no_memory) bad("a foreign packet is reported with code " + s((u64)err.type));
    if (!prepare_packet("\x02\x01\x01")) return;
    call("ntc_encoder_add_packet", [&]{ ntc_encoder_add_packet(E, pkt, &err); }); outcome("ntc_encoder_add_packet", true);
    if (err.type != ntc_packet_type_error && err.type != ntc_no_memory) bad("a source given to the sender is reported with code " + s((u64)err.type));
  }
  void ack(bool deliver)
  {
    const std::size_t before = ds.acks.size();
    call("ntc_decoder_generate_ack", [&]{ ntc_decoder_generate_ack(D, &err); }); if (outcome("ntc_decoder_generate_ack") && ds.acks.size() == before) bad("ntc_decoder_generate_ack reports success but no ack was emitted");
    while (deliver && !ds.acks.empty())
    {
      const bytes a = ds.acks.front(); ds.acks.erase(ds.acks.begin());
      try { for (u32 id : parse(a, w).ids) (void)id; } catch (const parse_error& e) { bad(bytes("an emitted ack is ") + e.what()); }
      if (!prepare_packet(a)) return;
      call("ntc_encoder_add_packet", [&]{ ntc_encoder_add_packet(E, pkt, &err); }); outcome("ntc_encoder_add_packet");
    }
    ds.acks.clear();
  }
  void run()
  {
    const long live0 = live, fields0 = live_fields;
    ntc_packet_handler eh = {&es, e_prep, e_send}, dh = {&ds, d_prep, d_send}; ntc_data_handler rd = {&ds, d_read};
    created<ntc_encoder_t>(E, "ntc_new_encoder", [&]{ return ntc_new_encoder((u8)w, eh); });
    created<ntc_decoder_t>(D, "ntc_new_decoder", [&]{ return ntc_new_decoder((u8)w, ord ? ntc_in_order_yes : ntc_in_order_no, dh, rd); });
    ntc_encoder_set_rate(E, r.range(2, 4)); if (r.chance(0.25)) { nonsys = true; ntc_encoder_set_code_type(E, ntc_systematic_no); }
    if (r.chance(0.4)) ntc_encoder_set_window_size(E, r.range(2, 8));
    ntc_decoder_set_ack_nb_packets(D, (u16)r.range(2, 9)); ntc_decoder_set_ack_period(D, 0);
    const unsigned n = (unsigned)r.range(5, 12);
    for (unsigned i = 0; i < n; ++i)
    {
      bool worked; submit(worked);
      auto fresh = es.pk;
      if (r.chance(0.2)) { repair(); for (auto& p : es.pk) fresh.push_back(p); }
      for (auto& p : fresh) if (r.chance(0.55)) give(p);
      if (r.chance(0.15) && !pool.empty()) give(pool[r.below(pool.size())]); // late or duplicated
      if (r.chance(0.15)) ack(r.chance(0.7));
      if (i == n / 2) bad_packets();
    }
    // rebuild what was lost: several repairs over several blocks
    ntc_encoder_set_rate(E, 100000);
    { bool wk; submit(wk); submit(wk); }
    for (int i = 0; i < 6; ++i) { repair(); if (!es.pk.empty()) give(es.pk.back()); }
    ack(true);
    // Whatever happened, the objects still work: a fresh block gets through once only it is protected.
    ntc_encoder_set_code_type(E, ntc_systematic_yes); sys_again = true; ntc_encoder_set_window_size(E, 1);
    for (int i = 0; i < 2; ++i)
    {
      bool worked; const bytes b = submit(worked); const auto src = es.pk; bool got = false;
      if (worked) { if (src.size() != 1 || src[0][0] != T_SOURCE) bad("the sender does not emit a source any more"); for (auto& p : src) got = give(p); }
      repair(); if (es.pk.empty()) repair(); // the failing allocation may be in this very call
      if (!es.pk.empty()) { const bool g2 = give(es.pk.back()); got = got && g2; } else got = false;
      if (worked && got && !given.count(b)) bad(bytes("a block submitted and received afterwards is not delivered") + (hit ? " (after " + hit_call + " ran out of memory)" : bytes()));
    }
    if (dat) { call("ntc_delete_data", [&]{ ntc_delete_data(dat); }); } if (pkt) { call("ntc_delete_packet", [&]{ ntc_delete_packet(pkt); }); }
    call("ntc_delete_encoder", [&]{ ntc_delete_encoder(E); }); call("ntc_delete_decoder", [&]{ ntc_delete_decoder(D); });
    if (live != live0) bad(s((u64)(live - live0)) + " allocations are leaked" + (hit ? " after " + hit_call + " ran out of memory" : bytes()));
    if (live_fields != fields0) bad("a field is " + bytes(live_fields > fields0 ? "leaked" : "released twice") + (hit ? " after " + hit_call + " ran out of memory" : bytes()));
  }
};

int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [](u64 c, const options& o, stats& st)
  {
    static const unsigned ws[] = {8, 4, 16, 32}; const unsigned w = ws[c % 4]; const bool ord = (c / 4) % 2; const u64 sd = mix(o.seed, c + 5150);
    vclock() = 1000000000ll;
    auto guarded = [&](world& x, const bytes& where) { try { x.run(); } catch (const violation& v) { throw violation(v.prop, bytes(v.what()) + " | w=" + s(w) + (ord ? " in_order " : " unordered ") + where); } };
    std::vector<u64> counts;
    { world warm(sd, w, ord, fault{}, st, nullptr); guarded(warm, "no fault"); }
    { world learn(sd, w, ord, fault{}, st, &counts); guarded(learn, "no fault"); }
    u64 total = 0; for (u64 n : counts) total += n;
    st.max("allocations_per_script", total); st.max("calls_per_script", counts.size());
    for (u64 call = 0; call < counts.size(); ++call)
      for (u64 k = 1; k <= counts[call]; ++k)
        for (int on = 0; on < 2; ++on)
        {
          if (on && k == counts[call]) continue; // same as the single failure
          fault f; f.call = call; f.alloc = k; f.on = on;
          world x(sd, w, ord, f, st, nullptr); guarded(x, "call " + s(call) + " allocation " + s(k) + (on ? " and all following" : ""));
          ++st.evaluations;
          if (x.hit) { ++st.nontrivial; st.distinct.insert(mix(mix(c, call), mix(k, (u64)on))); st.add("faults_in_" + x.hit_call); }
        }
    if (st.samples.size() < 3) st.sample("script " + s(c) + ": w=" + s(w) + ", " + s(counts.size()) + " calls, " + s(total) + " allocations, each failed alone and with all following ones of its call");
    st.add("scripts");
  });
}
