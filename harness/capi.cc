// C13: the C interface in lockstep with the C++ interface.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"
#ifdef VF_CHECK_ERROR
#include "netcode/c/detail/check_error.hh"
#endif
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C13", m); }

struct sink { std::vector<bytes> log; bytes cur; u64 wrong_context = 0, *tag; };
static u64 the_tag = 0x1234;
extern "C" {
static void c_prepare(void* c, const char* p, size_t n) { auto* k = (sink*)c; if (k->tag != &the_tag) std::abort(); k->cur.append(p, n); }
static void c_send(void* c) { auto* k = (sink*)c; k->log.push_back("P" + k->cur); k->cur.clear(); }
static void c_read(void* c, const char* p, size_t n) { auto* k = (sink*)c; if (k->tag != &the_tag) std::abort(); k->log.push_back("D" + bytes(p, n)); }
}
struct hp { sink* k; void operator()(const char* p, std::size_t n) { k->cur.append(p, n); } void operator()() { k->log.push_back("P" + k->cur); k->cur.clear(); } };
struct hd { sink* k; void operator()(const char* p, std::size_t n) { k->log.push_back("D" + bytes(p, n)); } };

static ntc_error dirty(rng& r) { ntc_error e; e.type = (ntc_error_type)r.below(5); e.message = (char*)(std::uintptr_t)0xdead0001; return e; }
// every reported error must be coherent
static void coherent(ntc_error& e, ntc_error_type exp, const char* call, stats& st)
{
  static const char* names[] = {"no error", "unknown error", "no memory", "packet type error", "overflow error"};
  if ((unsigned)e.type > 4 || e.type != exp) bad(bytes(call) + " reports " + ((unsigned)e.type <= 4 ? names[e.type] : "an invalid code") + " instead of " + names[exp]);
  if (e.message == (char*)(std::uintptr_t)0xdead0001) bad(bytes(call) + ": the message is left dangling");
  if (e.message) { volatile std::size_t n = std::strlen(e.message); (void)n; std::free(e.message); e.message = nullptr; st.add("messages"); }
  st.add(exp == ntc_no_error ? "calls_succeeded" : "calls_failed");
}
static bytes block(rng& r, unsigned w)
{
  const unsigned k = w == 16 ? 2 : w == 32 ? 4 : 1; std::size_t n = r.chance(0.9) ? r.range(1, 120) : r.chance(0.9) ? r.range(200, 2000) : r.chance(0.4) ? 65535 : r.range(60000, 65535);
  n = std::max<std::size_t>(k, n / k * k); bytes b(n, 0); for (auto& c : b) c = (char)r.next(); return b;
}

// The many ways a C user can fill a buffer object
template <class T> struct api;
template <> struct api<ntc_data_t>
{
  static ntc_data_t* mk(u16 n) { return ntc_new_data(n); } static ntc_data_t* from(const char* p, u16 n) { return ntc_new_data_from(p, n); } static void del(ntc_data_t* x) { ntc_delete_data(x); }
  static char* buf(ntc_data_t* x) { return ntc_data_buffer(x); } static u16 size(ntc_data_t* x) { return ntc_data_get_size(x); } static void resize(ntc_data_t* x, u16 n, ntc_error* e) { ntc_data_resize(x, n, e); }
};
template <> struct api<ntc_packet_t>
{
  static ntc_packet_t* mk(u16 n) { return ntc_new_packet(n); } static ntc_packet_t* from(const char* p, u16 n) { return ntc_new_packet_from(p, n); } static void del(ntc_packet_t* x) { ntc_delete_packet(x); }
  static char* buf(ntc_packet_t* x) { return ntc_packet_buffer(x); } static u16 size(ntc_packet_t* x) { return ntc_packet_get_size(x); } static void resize(ntc_packet_t* x, u16 n, ntc_error* e) { ntc_packet_resize(x, n, e); }
};
template <class T> T* fill(T* reuse, const bytes& b, rng& r, stats& st)
{
  using A = api<T>; T* x = reuse; const u64 mode = r.below(4); ntc_error e;
  if (!x || mode == 0)
  {
    if (x) A::del(x);
    if (r.chance(0.5)) { x = A::from(b.data(), (u16)b.size()); if (!x) bad("creation failed"); goto check; }
    x = A::mk((u16)(r.chance(0.5) ? b.size() : r.below(2000))); if (!x) bad("creation failed");
  }
  if (r.chance(0.1)) { e = dirty(r); A::resize(x, 0, &e); coherent(e, ntc_no_error, "resize", st); if (A::size(x) != 0) bad("a buffer resized to 0 has " + s(A::size(x)) + " bytes"); st.add("buffers_emptied"); }
  if (mode == 2) // grow in two steps: the first bytes must stay
  {
    const std::size_t h = b.size() / 2; e = dirty(r); A::resize(x, (u16)h, &e); coherent(e, ntc_no_error, "resize", st); if (h) std::memcpy(A::buf(x), b.data(), h);
    e = dirty(r); A::resize(x, (u16)b.size(), &e); coherent(e, ntc_no_error, "resize", st);
    std::memcpy(A::buf(x) + h, b.data() + h, b.size() - h);
  }
  else
  {
    const std::size_t big = std::min<std::size_t>(65535, b.size() + r.below(200));
    e = dirty(r); A::resize(x, (u16)big, &e); coherent(e, ntc_no_error, "resize", st); std::memcpy(A::buf(x), b.data(), b.size());
    e = dirty(r); A::resize(x, (u16)b.size(), &e); coherent(e, ntc_no_error, "resize", st);
  }
check:
  if (A::size(x) != b.size()) bad("size of a buffer is " + s(A::size(x)) + " instead of " + s(b.size()));
  if (bytes(A::buf(x), b.size()) != b) bad("a buffer does not keep its bytes");
  st.add("buffers_filled");
  return x;
}

static u64 big(rng& r) { return session::big(r); }
static void one(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c + 1313)); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[c % 4]; const bool ord = (c / 4) % 2;
  vclock() = 1000000000ll; 
  sink ke, kd, ce, cd; ke.tag = kd.tag = ce.tag = cd.tag = &the_tag;
  ntc::encoder<hp> e((u8)w, hp{&ke}); ntc::decoder<hp, hd> d((u8)w, ord ? ntc::in_order::yes : ntc::in_order::no, hp{&kd}, hd{&kd});
  ntc_packet_handler eh = {&ce, c_prepare, c_send}, dh = {&cd, c_prepare, c_send}; ntc_data_handler rd = {&cd, c_read};
  ntc_encoder_t* E = ntc_new_encoder((u8)w, eh); ntc_decoder_t* D = ntc_new_decoder((u8)w, ord ? ntc_in_order_yes : ntc_in_order_no, dh, rd);
  if (!E || !D) bad("creation failed");
  ntc_data_t* data = nullptr; ntc_packet_t* pkt = nullptr; u64 h = c; ntc_error err; unsigned fails = 0, delivered = 0;
  std::vector<bytes> pool, acks; std::size_t submitted = 0; bool changed = r.chance(0.8); // some runs keep the defaults
  const bool wide = c % 40 == 17; // a wide window: hundreds of blocks before any acknowledgement comes back
  if (wide) { changed = false; e.set_rate(90); ntc_encoder_set_rate(E, 90); }
  auto same = [&](const char* call)
  {
    if (ke.log != ce.log) bad(bytes(call) + ": the C sender emits other packets (" + s(ce.log.size()) + " instead of " + s(ke.log.size()) + ")");
    if (kd.log != cd.log) bad(bytes(call) + ": the C receiver emits or delivers something else (" + s(cd.log.size()) + " events instead of " + s(kd.log.size()) + ")");
    if (!ce.cur.empty() || !cd.cur.empty()) bad(bytes(call) + ": packet without end");
    if (ntc_encoder_window(E) != e.window()) bad(bytes(call) + ": window " + s(ntc_encoder_window(E)) + " instead of " + s(e.window()));
    for (auto& p : ke.log) { pool.push_back(p.substr(1)); h = fnv(p, h); }
    for (auto& p : kd.log) { if (p[0] == 'P') acks.push_back(p.substr(1)); else ++delivered; h = fnv(p, h); }
    if (pool.size() > 40) pool.erase(pool.begin(), pool.begin() + 20);
    if (acks.size() > 20) acks.erase(acks.begin(), acks.begin() + 10);
    ke.log.clear(); kd.log.clear(); ce.log.clear(); cd.log.clear(); st.add("lockstep_comparisons");
  };
  auto packet = [&](bool to_enc, const bytes& b)
  {
    if (b.empty() || b.size() > 65535) return;
    ntc_error_type exp = ntc_no_error; std::size_t n = 0;
    try { n = to_enc ? e(ntc::packet(b.begin(), b.end())) : d(ntc::packet(b.begin(), b.end())); }
    catch (const ntc::packet_type_error&) { exp = ntc_packet_type_error; } catch (const ntc::overflow_error&) { exp = ntc_overflow_error; }
    pkt = fill(pkt, b, r, st); err = dirty(r);
    const std::size_t m = to_enc ? ntc_encoder_add_packet(E, pkt, &err) : ntc_decoder_add_packet(D, pkt, &err);
    const char* call = to_enc ? "ntc_encoder_add_packet" : "ntc_decoder_add_packet";
    coherent(err, exp, call, st);
    if (m != n) bad(bytes(call) + " returns " + s(m) + " instead of " + s(n));
    if (exp != ntc_no_error) ++fails;
    same(call);
  };
  for (unsigned i = 0; i < (wide ? 1100u : 160u); ++i)
  {
    vclock() += (long long)r.below(25) * 1000000;
    const bool quiet = wide && i < 900; u64 k = r.below(24); if (quiet) { if (k == 8 || k == 9 || (k == 7 && i % 8)) k = 20; }
    if (k == 0 && changed) { const auto v = r.chance(0.15) ? big(r) : r.range(1, 9); e.set_rate(v); ntc_encoder_set_rate(E, v); st.add("settings"); }
    else if (k == 1 && changed) { const auto v = r.chance(0.2) ? ~(std::size_t)0 : r.chance(0.15) ? (std::size_t)big(r) : (std::size_t)r.range(1, 30); e.set_window_size(v); ntc_encoder_set_window_size(E, v); st.add("settings"); }
    else if (k == 2 && changed) { const bool v = r.chance(0.5); e.set_adaptive(v); ntc_encoder_set_adaptive(E, v); st.add("settings"); }
    else if (k == 3 && changed) { const bool v = r.chance(0.6); e.set_code_type(v ? ntc::systematic::yes : ntc::systematic::no); ntc_encoder_set_code_type(E, v ? ntc_systematic_yes : ntc_systematic_no); st.add("settings"); }
    else if (k == 4 && changed) { const auto v = (u16)(r.chance(0.2) ? r.range(100, 300) : r.chance(0.1) ? r.range(65400, 65535) : r.range(1, 30)); d.set_ack_nb_packets(v); ntc_decoder_set_ack_nb_packets(D, v); st.add("settings"); }
    else if (k == 5 && changed) { const auto v = r.chance(0.3) ? 0 : r.chance(0.15) ? big(r) : r.range(1, 400); d.set_ack_period(std::chrono::milliseconds(v)); ntc_decoder_set_ack_period(D, v); st.add("settings"); }
    else if (k == 6) { d.generate_ack(); err = dirty(r); ntc_decoder_generate_ack(D, &err); coherent(err, ntc_no_error, "ntc_decoder_generate_ack", st); same("ntc_decoder_generate_ack"); }
    else if (k == 7 || (i < 3 && r.chance(0.3))) { e.generate_repair(); err = dirty(r); ntc_encoder_generate_repair(E, &err); coherent(err, ntc_no_error, "ntc_encoder_generate_repair", st); same("ntc_encoder_generate_repair"); }
    else if (k == 8 && !acks.empty()) packet(true, acks[r.below(acks.size())]);
    else if (k == 9) { bytes b = pool.empty() ? bytes("\x02zz") : pool[r.below(pool.size())]; const u64 m = r.below(4); if (m == 3) { b.assign(7, 0); b[0] = 2; const u32 id = (u32)(submitted + r.below(3)); for (int q = 0; q < 4; ++q) b[1 + q] = (char)(id >> (24 - 8 * q)); st.add("empty_sources"); packet(false, b); continue; } if (m == 0) b.resize(r.range(1, b.size())); else if (m == 1) b[0] = (char)r.range(0, 6); else if (!acks.empty()) b = acks.back(); packet(r.chance(0.4), b); }
    else
    {
      const bytes b = wide ? block(r, w).substr(0, 16) : block(r, w); const auto from = pool.size(); e(ntc::data(b.begin(), b.end()));
      data = fill(data, b, r, st); err = dirty(r); ntc_encoder_add_data(E, data, &err); coherent(err, ntc_no_error, "ntc_encoder_add_data", st);
      const auto fresh = ke.log; same("ntc_encoder_add_data"); ++submitted; (void)from;
      for (auto& p : fresh) if (r.chance(wide ? 0.98 : 0.7)) packet(false, p.substr(1));
    }
    if (!quiet && r.chance(0.08) && !acks.empty()) packet(true, acks.back());
    if (!quiet && submitted && r.chance(0.01)) // a long acknowledgement, full of holes
    { std::vector<u32> ids; u32 x = 0; const u64 n = r.range(20, 3000); for (u64 q = 0; q < n; ++q) ids.push_back(x += (u32)r.range(1, 9)); packet(true, make_ack((u16)r.below(200), ids)); st.add("long_acks"); }
    if (d.nb_missing_sources() > 60) break;
  }
  ntc_delete_encoder(E); ntc_delete_decoder(D); if (data) ntc_delete_data(data); if (pkt) ntc_delete_packet(pkt);
  ++st.evaluations; if (delivered && fails) { ++st.nontrivial; st.distinct.insert(h); }
  if (st.samples.size() < 3) st.sample("case " + s(c) + ": w=" + s(w) + (ord ? " in order" : " unordered") + ", " + s(submitted) + " submissions through both interfaces, " + s(delivered) + " deliveries, " + s(fails) + " failing calls");
}

#ifdef VF_CHECK_ERROR
struct boom : std::exception { bytes m; explicit boom(bytes x) : m(std::move(x)) {} const char* what() const noexcept override { return m.c_str(); } };
static void errors(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c + 4444));
  for (int i = 0; i < 60; ++i)
  {
    ntc_error e = dirty(r); bytes m(r.chance(0.2) ? 0 : r.range(1, r.chance(0.1) ? 4000 : 60), 'm'); for (auto& ch : m) ch = (char)r.range(32, 126);
    const int k = (int)r.below(6); 
    const int res = ntc::detail::check_error([&]() -> int
    {
      switch (k) { case 0: throw boom(m); case 1: throw ntc::packet_type_error(ntc::packet(m.begin(), m.end())); case 2: throw ntc::overflow_error(); case 3: throw std::bad_alloc(); case 4: throw 42; default: return 7; }
    }, &e);
    if (res != (k == 5 ? 7 : 0)) bad("a call returned " + s((u64)res));
    if (k == 0 || k == 4)
    {
      if (e.type != ntc_unknown_error) bad("an unexpected exception is not reported as unknown error");
      if (k == 0 && e.message && std::strcmp(e.message, m.c_str())) bad("the error message is not the text of the error: " + hex(bytes(e.message), 40));
    }
    coherent(e, k == 0 || k == 4 ? ntc_unknown_error : k == 1 ? ntc_packet_type_error : k == 2 ? ntc_overflow_error : k == 3 ? ntc_no_memory : ntc_no_error, "check_error", st);
    // functions without a result
    ntc_error v = dirty(r); ntc::detail::check_error([&]{ if (k == 3) throw std::bad_alloc(); }, &v); coherent(v, k == 3 ? ntc_no_memory : ntc_no_error, "check_error", st);
  }
  st.add("error_translations", 120); ++st.evaluations; ++st.nontrivial; st.distinct.insert(mix(c, 99));
}
#endif
int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [](u64 c, const options& o, stats& st)
  {
#ifdef VF_CHECK_ERROR
    if (c % 20 == 19) { errors(c, o, st); return; }
#endif
    one(c, o, st);
  });
}
