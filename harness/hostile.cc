// C10: arbitrary bytes against a sender and a receiver in the middle of legitimate traffic.
// C11: what is refused, how, and that a refusal leaves no trace (twin without the refused packets).
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include "mutate.hh"
#include "netcode/dispatch.hh"
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
#ifdef VF_VALGRIND
static void defined(const char* p, std::size_t n, const char* what)
{ if (n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) throw violation("C10", bytes(what) + " contains uninitialised bytes"); }
#else
static void defined(const char*, std::size_t, const char*) {}
#endif

// ------------------------------------------------------------------------------ endpoints
struct out { std::vector<bytes> pk; bytes cur; std::vector<event> ev; bytes ack; };
struct hp { out* o; void operator()(const char* p, std::size_t n) { defined(p, n, "emitted packet"); o->cur.append(p, n); } void operator()() { o->pk.push_back(o->cur); o->cur.clear(); } };
struct ha { out* o; void operator()(const char* p, std::size_t n) { defined(p, n, "emitted ack"); o->ack.append(p, n); } void operator()() { o->ev.push_back({true, o->ack, true}); o->ack.clear(); } };
struct hd { out* o; void operator()(const char* p, std::size_t n) { defined(p, n, "delivered data"); o->ev.push_back({false, bytes(p, n), true}); } };
struct ends
{
  out o; ntc::encoder<hp> e; ntc::decoder<ha, hd> d;
  ends(unsigned w, bool ord) : e((u8)w, hp{&o}), d((u8)w, ord ? ntc::in_order::yes : ntc::in_order::no, ha{&o}, hd{&o}) {}
};
static ntc::packet pk(const bytes& b) { return ntc::packet(b.begin(), b.end()); }

enum class who { enc, dec, both };
struct verdict { int k = 0; std::size_t n = 0; bytes err_bytes; bytes other; bool altered = false; }; // 0 ok, 1 type, 2 overflow, 3 something else
static verdict give(ends& x, who t, const bytes& b, bool by_ref)
{
  verdict v; const auto kept = pk(b); // given by reference, it stays the caller's
  try
  {
    if (t == who::enc) v.n = by_ref ? x.e(kept) : x.e(pk(b));
    else if (t == who::dec) v.n = by_ref ? x.d(kept) : x.d(pk(b));
    else v.n = ntc::dispatch(x.e, x.d, pk(b));
  }
  catch (const ntc::packet_type_error& e) { v.k = 1; v.err_bytes.assign(e.error_packet.begin(), e.error_packet.end()); }
  catch (const ntc::overflow_error&) { v.k = 2; }
  catch (const violation&) { throw; }
  catch (const std::exception& e) { v.k = 3; v.other = bytes(typeid(e).name()) + " " + e.what(); }
  catch (...) { v.k = 3; v.other = "unknown exception"; }
  v.altered = kept.size() != b.size() || !std::equal(b.begin(), b.end(), kept.begin());
  return v;
}

// ------------------------------------------------------------------------------ C10
// The largest blocks there are, or sizes that a malformed repair makes up, rebuilt alone and together.
static void c10_large(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c * 2 + 1)); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[(c / 25) % 4], k = w == 16 ? 2 : w == 32 ? 4 : 1; u64 h = c;
  vclock() = 1000000000ll; ends x(w, r.chance(0.5)); x.e.set_rate(1000000); unsigned lost = 0;
  auto to = [&](const bytes& b) { const verdict v = give(x, who::dec, b, r.chance(0.3)); if (v.k == 3) throw violation("C10", "undocumented exception " + v.other + " for a large packet"); h = mix(h, mix(fnv(b), (u64)v.k)); };
  for (unsigned i = 0, n = (unsigned)r.range(2, 5); i < n; ++i)
  {
    const std::size_t sz = std::max<std::size_t>(k, (r.chance(0.4) ? 65535 : r.chance(0.7) ? r.range(65500, 65535) : r.range(1, 65535)) / k * k);
    bytes d(sz, 0); for (auto& ch : d) ch = (char)r.next();
    x.o.pk.clear(); x.e(ntc::data(d.begin(), d.end()));
    if (r.chance(0.5)) to(x.o.pk.at(0)); else ++lost;
  }
  const bool evil = r.chance(0.5);
  for (unsigned i = 0; i < lost + 2; ++i)
  {
    x.o.pk.clear(); x.e.generate_repair();
    for (bytes p : x.o.pk)
    {
      if (evil && r.chance(0.6)) { for (int q = 0; q < 2; ++q) p[p.size() - 1 - (std::size_t)q] ^= (char)r.next(); if (r.chance(0.3)) p = mutate(r, p); } // other sizes
      if (!p.empty() && expansion(p) <= 400) to(p);
    }
  }
  for (auto& e : x.o.ev) if (!e.ack) { st.add("deliveries"); st.add("large_blocks_delivered", e.b.size() > 65000); }
  ++st.evaluations; ++st.nontrivial; st.distinct.insert(h); st.add("large_block_cases");
}
static void c10(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c * 2 + 1)); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[c % 4];
  vclock() = 1000000000ll; std::unique_ptr<ends> px;
  auto renew = [&]
  {
    px.reset(new ends(w, (c / 4) % 2)); auto& x = *px;
    x.e.set_rate(r.range(1, 6)); x.e.set_window_size(r.chance(0.5) ? r.range(1, 20) : 40); x.e.set_adaptive(r.chance(0.3)); if (r.chance(0.3)) x.e.set_code_type(ntc::systematic::no);
    x.d.set_ack_nb_packets((u16)r.range(1, 60)); if (r.chance(0.5)) x.d.set_ack_period(std::chrono::milliseconds(0));
    st.add("endpoints");
  };
  renew(); unsigned idle = 0;
  std::vector<bytes> pool, acks; u32 submitted = 0; u64 h = c; unsigned hostile = 0;
  const unsigned steps = o.thorough() ? 400 : 250; const double p_hostile = r.chance(0.5) ? 0.5 : 0.15;
  for (unsigned i = 0; i < steps; ++i)
  {
    if (px->d.nb_missing_sources() > 120 || idle > 40) { renew(); submitted = 0; idle = 0; } // nothing gets through any more
    auto& x = *px; ++idle;
    vclock() += (long long)r.below(30) * 1000000;
    bytes b; who t = who::both; bool bad = false;
    if (r.chance(p_hostile))
    {
      bad = true; ++hostile;
      const u64 k = r.below(10);
      const u32 lo = submitted > 20 ? submitted - 20 : 0;
      if (k == 0) { const std::size_t n = r.chance(0.9) ? r.range(1, 60) : r.range(60, 3000); b.assign(n, 0); for (auto& ch : b) ch = (char)r.next(); if (r.chance(0.7)) b[0] = (char)r.below(3); }
      else if (k <= 4 && !pool.empty()) b = mutate(r, r.chance(0.2) && !acks.empty() ? acks[r.below(acks.size())] : pool[r.below(pool.size())]);
      else b = crafted(r, w, lo, submitted + 3);
      if (r.chance(0.1)) b = mutate(r, b);
      if (b.empty() || expansion(b) > 400) continue; // absurdly long lists only cost time and memory
      t = r.chance(0.3) ? who::both : r.chance(0.75) ? who::dec : who::enc;
    }
    else if (r.chance(0.1)) { x.d.generate_ack(); }
    else if (r.chance(0.1)) { x.e.generate_repair(); }
    else if (r.chance(0.15) && !acks.empty()) { b = acks[r.below(acks.size())]; t = who::enc; }
    else { const bytes d = block(r, w); x.e(ntc::data(d.begin(), d.end())); ++submitted; }
    if (!b.empty())
    {
      const verdict v = give(x, t, b, r.chance(0.3));
      if (v.k == 3) throw violation("C10", "undocumented exception " + v.other + " for packet " + hex(b, 200));
      st.add(bad ? (v.k == 0 ? "hostile_accepted" : v.k == 1 ? "hostile_type_errors" : "hostile_overflow_errors") : "genuine_given");
      h = mix(h, mix(fnv(b), (u64)v.k));
    }
    // a share of the genuine traffic gets through
    auto fresh = x.o.pk; x.o.pk.clear();
    for (auto& p : fresh)
    {
      if (pool.size() < 60) pool.push_back(p); else pool[r.below(pool.size())] = p;
      if (r.chance(0.6)) { const verdict v = give(x, who::dec, p, false); st.add("genuine_given"); if (v.k == 3) throw violation("C10", "undocumented exception " + v.other + " for a genuine packet"); }
    }
    for (auto& e : x.o.ev) { if (e.ack) { if (acks.size() < 20) acks.push_back(e.b); else acks[r.below(acks.size())] = e.b; st.add("acks"); } else { st.add("deliveries"); h = fnv(e.b, h); idle = 0; } }
    x.o.ev.clear(); x.o.pk.clear();
  }
  ++st.evaluations; if (hostile) { ++st.nontrivial; st.distinct.insert(h); }
  if (st.samples.size() < 3) st.sample("case " + s(c) + ": w=" + s(w) + ", " + s(hostile) + " hostile packets among " + s(submitted) + " submissions, e.g. " + hex(pool.empty() ? bytes("-") : mutate(r, pool[0]), 40));
}

// ------------------------------------------------------------------------------ C11
static void c11(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c * 2 + 2)); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[c % 4]; const bool ord = (c / 4) % 2;
  vclock() = 1000000000ll; ends a(w, ord), b(w, ord); // a is given the refused packets, b is not
  const u64 rate = r.range(1, 6), lim = r.chance(0.5) ? r.range(2, 20) : 50; const bool ad = r.chance(0.4), sys = r.chance(0.75);
  for (ends* x : {&a, &b})
  { x->e.set_rate(rate); x->e.set_window_size(lim); x->e.set_adaptive(ad); x->e.set_code_type(sys ? ntc::systematic::yes : ntc::systematic::no); x->d.set_ack_nb_packets(128); x->d.set_ack_period(std::chrono::milliseconds(0)); }
  std::vector<bytes> pool, acks; u64 h = c; unsigned since_ack = 0, refused = 0;
  auto bad = [&](const bytes& m) { throw violation("C11", m + " | w=" + s(w) + (ord ? " in_order" : " unordered") + " case " + s(c)); };
  auto compare = [&](const char* when)
  {
    if (a.o.pk != b.o.pk) bad(bytes("after refusals the sender emits other packets than without them (") + when + ")");
    if (a.o.ev.size() != b.o.ev.size()) bad(bytes("after refusals the receiver emits ") + s(a.o.ev.size()) + " deliveries and acks instead of " + s(b.o.ev.size()) + " (" + when + ")");
    for (std::size_t i = 0; i < a.o.ev.size(); ++i)
    {
      const auto &x = a.o.ev[i], &y = b.o.ev[i];
      if (x.ack != y.ack) bad("order of deliveries and acks differs after refusals");
      if (!x.ack) { if (x.b != y.b) bad("after refusals different data is delivered"); }
      else
      {
        wire p, q; try { p = parse(x.b, w); q = parse(y.b, w); } catch (const parse_error&) { continue; }
        if (p.ids != q.ids) bad("after refusals acks name other blocks");
      }
    }
    if (a.o.cur != b.o.cur || a.o.ack != b.o.ack) bad("partial packet left after a refusal");
    if (a.e.window() != b.e.window()) bad("the sender's window is " + s(a.e.window()) + " instead of " + s(b.e.window()) + " after refusals");
    if (a.e.rate() != b.e.rate()) bad("the rate is " + s(a.e.rate()) + " instead of " + s(b.e.rate()) + " after refusals");
    if (a.e.nb_sent_repairs() != b.e.nb_sent_repairs() || a.e.nb_sent_sources() != b.e.nb_sent_sources()) bad("sent counters differ after refusals");
    if (a.d.nb_missing_sources() != b.d.nb_missing_sources() || a.d.nb_decoded() != b.d.nb_decoded() || a.d.nb_useless_repairs() != b.d.nb_useless_repairs()
        || a.d.nb_sent_acks() != b.d.nb_sent_acks() || a.d.nb_failed_full_decodings() != b.d.nb_failed_full_decodings()) bad(bytes("the receiver's statistics differ after refusals (") + when + ")");
    st.add("twin_comparisons");
  };
  auto refuse = [&](const bytes& p, who t)
  {
    int exp = 0; // what the packet deserves
    if ((u8)p[0] > 2) exp = 1;
    else if (t == who::enc && p[0] != T_ACK) exp = 1;
    else if (t == who::dec && p[0] == T_ACK) exp = 1;
    else { try { parse(p, w); } catch (const parse_error&) { exp = 2; } }
    if (!exp) return;
    const std::size_t p0 = a.o.pk.size(), e0 = a.o.ev.size();
    const bool due = r.chance(0.3); // an acknowledgement is due as soon as data is delivered, which is not now
    if (due) { a.d.set_ack_nb_packets(1); if (r.chance(0.5)) { a.d.set_ack_period(std::chrono::milliseconds(1)); vclock() += 5000000; } }
    const verdict v = give(a, t, p, r.chance(0.3));
    if (due) { a.d.set_ack_nb_packets(128); a.d.set_ack_period(std::chrono::milliseconds(0)); st.add("refused_when_an_ack_was_due"); }
    if (v.altered) bad("a refused packet, given by reference, was altered");
    if (v.k != exp) bad(bytes(t == who::enc ? "sender" : t == who::dec ? "receiver" : "dispatch") + ": packet " + hex(p, 60) + (exp == 1 ? " of a foreign type" : " that is truncated") + (v.k == 0 ? " was accepted" : v.k == 3 ? " raised " + v.other : bytes(" was refused with the other error")));
    if (exp == 1 && v.err_bytes != p) bad("the refused packet attached to the error has other bytes: " + hex(v.err_bytes) + " for " + hex(p));
    if (a.o.pk.size() != p0 || a.o.ev.size() != e0) bad("a refused packet made the library emit or deliver something");
    ++refused; if (t != who::enc && p[0] >= 1 && p[0] <= 2) ++since_ack;
    h = mix(h, mix(fnv(p), (u64)exp)); st.add(exp == 1 ? "refused_type" : "refused_truncated");
  };
  auto both_get = [&](const bytes& p, bool ack)
  {
    // a uses the combined entry point half of the time: same routing, same result
    const bool disp = r.chance(0.5); bytes q = p; if (r.chance(0.15)) q.append(r.range(1, 30), 'x'); // bytes after the packet
    const verdict va = give(a, disp ? who::both : ack ? who::enc : who::dec, q, r.chance(0.3)), vb = give(b, ack ? who::enc : who::dec, q, false);
    if (va.k != vb.k || va.n != vb.n) bad(bytes("genuine ") + (ack ? "ack" : "packet") + " handled differently" + (disp ? " by dispatch" : " after refusals") + ": " + s((u64)va.k) + "/" + s(va.n) + " vs " + s((u64)vb.k) + "/" + s(vb.n));
    if (va.altered) bad("a packet given by reference was altered");
    if (disp) st.add("dispatched");
    if (!ack) ++since_ack;
    h = mix(h, fnv(p));
  };
  const bool wide = c % 45 == 40; const unsigned steps = wide ? 30 : 120;
  if (wide)
  { // hundreds of blocks retained and held
    const unsigned n = (unsigned)r.range(300, 1300);
    for (ends* x : {&a, &b}) { x->e.set_rate(100000); x->e.set_window_size(100000); }
    for (unsigned i = 0; i < n; ++i)
    {
      const bytes d = bytes(4u * (unsigned)r.range(1, 4), (char)i); const bool lost = r.chance(0.01);
      for (ends* x : {&a, &b}) { x->e(ntc::data(d.begin(), d.end())); if (!lost) give(*x, who::dec, x->o.pk.back(), false); }
      for (auto& e : b.o.ev) if (e.ack) acks.push_back(e.b);
      compare("wide window"); a.o = out(); b.o = out();
    }
    st.add("wide_twins"); since_ack = 1000; if (acks.size() > 3) acks.erase(acks.begin(), acks.end() - 3);
  }
  for (unsigned i = 0; i < steps; ++i)
  {
    // ---- legitimate step, for both
    const u64 k = r.below(20);
    if (since_ack > 90 || k == 0) { a.d.generate_ack(); b.d.generate_ack(); since_ack = 0; }
    else if (k == 1) { a.e.generate_repair(); b.e.generate_repair(); }
    else if (k == 2 && !acks.empty()) both_get(acks[r.below(acks.size())], true);
    else { const bytes d = block(r, w); a.e(ntc::data(d.begin(), d.end())); b.e(ntc::data(d.begin(), d.end())); }
    compare("legitimate step");
    auto fresh = b.o.pk; for (auto& e : b.o.ev) if (e.ack) acks.push_back(e.b);
    a.o = out(); b.o = out();
    for (auto& p : fresh)
    {
      pool.push_back(p);
      if (!r.chance(0.65)) continue;
      both_get(p, false);
      for (auto& e : b.o.ev) if (e.ack) acks.push_back(e.b);
      compare("genuine packet"); a.o = out(); b.o = out();
    }
    if (r.chance(0.1) && !acks.empty()) { both_get(acks.back(), true); compare("genuine ack"); a.o = out(); b.o = out(); }
    // ---- refused packets, for a only
    if (since_ack < 60 && r.chance(0.6)) for (unsigned j = (unsigned)r.range(1, 5); j--;)
    {
      bytes p; who t = r.chance(0.35) ? who::both : r.chance(0.6) ? who::dec : who::enc;
      const u64 z = r.below(8);
      const bytes g = !acks.empty() && r.chance(0.4) ? acks[r.below(acks.size())] : pool.empty() ? make_source(3, "abcd") : pool[r.below(pool.size())];
      if (z == 0) { p = bytes(1, (char)(r.chance(0.5) ? 3 : r.range(3, 255))); for (u64 q = r.below(40); q--;) p += (char)r.next(); }
      else if (z == 1) { p = g; p[0] = (char)r.range(3, 255); }
      else if (z == 2) { p = g; t = g[0] == T_ACK ? who::dec : who::enc; }
      else if (z <= 5) { p = g.substr(0, r.chance(0.3) ? g.size() - r.range(1, std::min<std::size_t>(12, g.size() - 1)) : r.range(1, g.size() - 1)); t = g[0] == T_ACK ? (r.chance(0.5) ? who::enc : who::both) : (r.chance(0.6) ? who::dec : who::both); }
      else
      { // the header promises more than there is: fresh numbers that would matter if they were used
        std::set<u32> ids; for (u64 q = r.range(1, 6); q--;) ids.insert((u32)r.below(i + 8));
        const bytes full = z == 6 ? make_repair((u32)r.below(500), block(r, w), {ids.begin(), ids.end()}, (u32)r.next(), w) : r.chance(0.5) ? make_source((u32)r.below(i + 10), block(r, w)) : make_ack((u16)r.next(), {ids.begin(), ids.end()});
        p = full.substr(0, full.size() - r.range(1, std::min<std::size_t>(full.size() - 1, 9)));
        t = full[0] == T_ACK ? who::enc : r.chance(0.7) ? who::dec : who::both;
      }
      if (p.empty() || expansion(p) > 400) continue;
      refuse(p, t);
    }
    if (i == steps / 2 && !pool.empty())
    { // every length of one source, one repair and one ack
      for (int ty : {T_SOURCE, T_REPAIR, T_ACK})
      {
        const auto& from = ty == T_ACK ? acks : pool; const bytes* g = nullptr;
        for (auto& p : from) if (p[0] == ty && p.size() < 300) g = &p;
        if (!g) continue;
        for (std::size_t n = 1; n < g->size(); ++n)
        {
          refuse(g->substr(0, n), ty == T_ACK ? who::enc : who::dec);
          if (since_ack > 90) { a.d.generate_ack(); b.d.generate_ack(); since_ack = 0; compare("truncations"); a.o = out(); b.o = out(); }
        }
        st.add("packets_cut_at_every_length");
      }
    }
    if (a.d.nb_missing_sources() > 100) break;
  }
  ++st.evaluations; if (refused) { ++st.nontrivial; st.distinct.insert(h); }
  if (st.samples.size() < 3) st.sample("case " + s(c) + ": w=" + s(w) + ", " + s(refused) + " refused packets among " + s(pool.size()) + " genuine ones, twin without them compared after every step");
}

int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [](u64 c, const options& o, stats& st) { if (o.prop == "C11") c11(c, o, st); else if (c % 25 == 24) c10_large(c, o, st); else c10(c, o, st); });
}
