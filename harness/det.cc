// C23: the transcript of a session (every byte emitted or delivered, every result and counter) as a
// function of its calls alone.  The driver runs the same cases under builds and allocators that fill
// fresh memory differently; each case also runs twice in this process, the second time after the heap
// has been dirtied, and under valgrind every emitted or delivered byte has to be defined.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include "mutate.hh"
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
static void defined(const char* p, std::size_t n, const char* what)
{
#ifdef VF_VALGRIND
  if (n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) throw violation("C23", bytes(what) + " contains uninitialised bytes");
#else
  (void)p; (void)n; (void)what;
#endif
}
struct tr { std::vector<bytes> lines; std::vector<bytes> pk, acks; bytes cur, acur; bytes fail; u64 out_bytes = 0; };
struct hp { tr* t; void operator()(const char* p, std::size_t n) { defined(p, n, "an emitted packet"); t->cur.append(p, n); } void operator()() { t->lines.push_back("P" + t->cur); t->out_bytes += t->cur.size(); t->pk.push_back(t->cur); t->cur.clear(); } };
struct ha { tr* t; void operator()(const char* p, std::size_t n) { defined(p, n, "an emitted acknowledgement"); t->acur.append(p, n); } void operator()() { t->lines.push_back("A" + t->acur); t->out_bytes += t->acur.size(); t->acks.push_back(t->acur); t->acur.clear(); } };
struct hd { tr* t; void operator()(const char* p, std::size_t n) { defined(p, n, "delivered data"); t->lines.push_back("D" + bytes(p, n)); t->out_bytes += n; } };

static void dirty(rng& r)
{
  std::vector<std::unique_ptr<char[]>> v; const char c = (char)r.next();
  for (int i = 0; i < 400; ++i) { const std::size_t n = r.chance(0.9) ? r.range(1, 400) : r.range(1, 20000); v.emplace_back(new char[n]); std::memset(v.back().get(), c + (char)i, n); if (r.chance(0.3)) v.erase(v.begin() + (long)r.below(v.size())); }
}
__attribute__((noinline)) static void dirty_stack(char c) { volatile char b[16384]; for (auto& x : b) x = c; }

static void play(u64 c, const options& o, tr& t, bool again)
{
  rng r(mix(o.seed, c + 2300)), dr(c * 2 + again); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[c % 4];
  const bool ord = (c / 4) % 2; const double p_bad = (c / 8) % 2 ? 0 : r.chance(0.5) ? 0.1 : 0.4; const unsigned unit = w == 16 ? 2 : w == 32 ? 4 : 1;
  vclock() = 1000000000ll; if (again) dirty(dr);
  std::unique_ptr<ntc::encoder<hp>> e(new ntc::encoder<hp>((u8)w, hp{&t})); std::unique_ptr<ntc::decoder<ha, hd>> d(new ntc::decoder<ha, hd>((u8)w, ord ? ntc::in_order::yes : ntc::in_order::no, ha{&t}, hd{&t}));
  e->set_rate(r.range(1, 6)); e->set_window_size(r.range(1, 24)); e->set_adaptive(r.chance(0.3)); if (r.chance(0.35)) e->set_code_type(ntc::systematic::no);
  d->set_ack_nb_packets((u16)r.range(1, 60)); d->set_ack_period(std::chrono::milliseconds(r.chance(0.5) ? 0 : r.range(1, 200)));
  const double loss = r.pick(std::vector<double>{0, 0.1, 0.3, 0.5}); const int sizes = (int)r.below(4);
  std::vector<bytes> pool; u32 submitted = 0;
  auto note = [&](char k, u64 v) { t.lines.push_back(bytes(1, k) + s(v)); };
  auto to = [&](auto& x, const bytes& b)
  {
    try { if (r.chance(0.5)) note('r', x(ntc::packet(b.begin(), b.end()))); else { const ntc::packet p(b.begin(), b.end()); note('r', x(p)); } }
    catch (const ntc::packet_type_error& ex) { t.lines.push_back("T" + bytes(ex.error_packet.begin(), ex.error_packet.end())); }
    catch (const ntc::overflow_error& ex) { defined(ex.what(), std::strlen(ex.what()), "an error"); t.lines.push_back("O" + bytes(ex.what())); }
  };
  const unsigned steps = o.thorough() ? 250 : 140;
  for (unsigned i = 0; i < steps; ++i)
  {
    vclock() += (long long)r.below(20) * 1000000; if (again) dirty_stack((char)i);
    if (d->nb_missing_sources() > 100) break;
    if (r.chance(0.75))
    {
      std::size_t n = sizes == 0 ? r.range(1, 40) : sizes == 1 ? (i % 2 ? r.range(200, 900) : r.range(1, 9)) : sizes == 2 ? r.range(1, 2000) : 33;
      n = std::max<std::size_t>(unit, n / unit * unit); bytes x(n, 0); for (auto& ch : x) ch = (char)r.next();
      switch (r.below(4))
      {
        case 0: (*e)(ntc::data(x.begin(), x.end())); break;
        case 1: { const ntc::data k(x.begin(), x.end()); (*e)(k); break; }
        case 2: { ntc::data k; k.reserve(n + r.below(60)); for (char ch : x) k.push_back(ch); (*e)(std::move(k)); break; }
        default: { ntc::data k((u16)(n + unit * r.below(30))); std::memcpy(k.data(), x.data(), n); k.resize(n); (*e)(std::move(k)); break; }
      }
      ++submitted;
    }
    if (r.chance(0.05)) e->generate_repair();
    if (r.chance(0.05)) d->generate_ack();
    if (r.chance(0.02)) e->set_window_size(r.range(1, 24));
    if (r.chance(0.02)) e->set_rate(r.range(1, 6));
    auto v = std::move(t.pk); t.pk.clear();
    for (auto& p : v) { if (pool.size() < 40) pool.push_back(p); else pool[r.below(40)] = p; if (!r.chance(loss)) to(*d, p); if (r.chance(0.05)) to(*d, p); }
    auto a = std::move(t.acks); t.acks.clear();
    for (auto& p : a) if (r.chance(0.7)) to(*e, p);
    if (r.chance(0.05) && !pool.empty()) to(*d, pool[r.below(pool.size())]);
    if (r.chance(p_bad))
    {
      bytes b = r.chance(0.6) || pool.empty() ? crafted(r, w, submitted > 20 ? submitted - 20 : 0, submitted) : mutate(r, pool[r.below(pool.size())]);
      if (expansion(b) < 3000) { if (r.chance(0.8)) to(*d, b); else to(*e, b); }
    }
    note('w', e->window()); note('m', d->nb_missing_sources()); note('q', e->rate());
  }
  e->generate_repair(); d->generate_ack(); e.reset(); d.reset();
}
int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [&](u64 c, const options& o, stats& st)
  {
    tr a, b; play(c, o, a, false);
    auto h = [](const tr& t) { u64 x = 7; for (auto& l : t.lines) x = fnv(l, x * 31 + l.size()); return x; };
#ifndef VF_VALGRIND
    play(c, o, b, true);
    for (std::size_t i = 0; i < std::max(a.lines.size(), b.lines.size()); ++i)
      if (i >= a.lines.size() || i >= b.lines.size() || a.lines[i] != b.lines[i])
        throw violation("C23", "the second run in the same process differs at event " + s(i) + ": " + (i < a.lines.size() ? a.lines[i].substr(0, 1) + hex(a.lines[i].substr(1)) : bytes("nothing")) + " against " + (i < b.lines.size() ? b.lines[i].substr(0, 1) + hex(b.lines[i].substr(1)) : bytes("nothing")));
#endif
    if (o.verbose) for (auto& l : a.lines) std::printf("%c %s\n", l[0], strchr("PADTO", l[0]) ? hex(l.substr(1), 1 << 20).c_str() : l.c_str() + 1);
    ++st.evaluations; ++st.nontrivial; st.distinct.insert(h(a)); st.add("events", a.lines.size()); st.add("bytes_out", a.out_bytes);
    char k[32]; std::snprintf(k, sizeof k, "hash_%llu", (unsigned long long)c); st.n[k] = h(a) >> 12;
    if (st.samples.size() < 2) st.sample("case " + s(c) + ": " + s(a.lines.size()) + " events, " + s(a.out_bytes) + " bytes emitted or delivered");
  });
}
