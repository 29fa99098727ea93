#define VF_VIRTUAL_CLOCK 1
#include <atomic>
#include "session.hh"
using namespace vf;

extern std::atomic<unsigned long> vf_gf_regions;

// Hand-written scenario families mixed with the random ones.
static void scripted(u64 k, session& s)
{
  auto& r = s.r;
  switch (k % 6)
  {
    case 0: // lose a few sources, then deliver repairs newest first
    {
      const unsigned n = (unsigned)r.range(2, 6);
      std::vector<bytes> keep;
      for (unsigned i = 0; i < n; ++i) { s.submit(); }
      for (unsigned i = 0; i < n + 2; ++i) { auto b = s.forced_repair(false); if (!b.empty()) keep.push_back(b); if (r.chance(0.3)) s.submit(); }
      s.fwd.clear();
      for (std::size_t i = keep.size(); i--;) if (r.chance(0.85)) s.give_packet(keep[r.chance(0.7) ? i : r.below(keep.size())]);
      break;
    }
    case 1: // many repairs over the same lost blocks: dependent rows in small fields
    {
      const unsigned n = (unsigned)r.range(2, 5);
      for (unsigned i = 0; i < n; ++i) s.submit();
      s.fwd.clear();
      for (int i = 0; i < 40; ++i) { auto b = s.forced_repair(false); if (!b.empty() && r.chance(0.5)) s.give_packet(b); }
      break;
    }
    case 2: // repair covering two lost blocks, then one of them late
    {
      std::vector<bytes> pk;
      for (unsigned i = 0; i < 4; ++i) { s.submit(); pk.push_back(s.forced_repair(false)); }
      std::vector<bytes> src; for (auto& p : s.fwd) src.push_back(p.second); s.fwd.clear();
      std::vector<bytes> all = src; all.insert(all.end(), pk.begin(), pk.end());
      for (std::size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
      for (auto& b : all) if (!b.empty() && r.chance(0.8)) s.give_packet(b);
      break;
    }
    case 3: // a stale repair after the horizon moved
    {
      std::vector<bytes> old;
      for (unsigned i = 0; i < 6; ++i) { s.submit(); old.push_back(s.forced_repair(false)); if (r.chance(0.6)) s.pump(true); else if (r.chance(0.5)) s.fwd.clear(); if (r.chance(0.4)) { s.request_ack(); s.pump(true); } }
      for (unsigned i = 0; i < 10; ++i) { auto& b = old[r.below(old.size())]; if (!b.empty()) s.give_packet(b); if (r.chance(0.5)) { s.submit(); old.push_back(s.forced_repair(false)); } if (r.chance(0.3)) s.pump(true); }
      break;
    }
    case 4: // everything shuffled, everything twice
    {
      std::vector<bytes> all; const unsigned n = (unsigned)r.range(4, 14);
      for (unsigned i = 0; i < n; ++i)
      {
        s.submit(); if (r.chance(0.5)) { auto b = s.forced_repair(false); if (!b.empty()) all.push_back(b); }
        for (auto& p : s.fwd) all.push_back(p.second);
        s.fwd.clear();
      }
      auto dup = all; all.insert(all.end(), dup.begin(), dup.end());
      for (std::size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
      const double keep = r.chance(0.5) ? 0.6 : 0.3;
      for (auto& b : all) { if (r.chance(keep)) s.give_packet(b); if (r.chance(0.05)) { s.request_ack(); while (!s.back.empty()) { auto a = s.back.begin()->second; s.back.erase(s.back.begin()); s.give_ack(a); } } }
      break;
    }
    case 5: // holes in the window: selective loss + acks, then wide repairs
    {
      for (unsigned i = 0; i < 40; ++i) { s.submit(); if (r.chance(0.4)) s.fwd.clear(); s.pump(true); if (r.chance(0.1)) { s.request_ack(); s.pump(true); } }
      for (unsigned i = 0; i < 12; ++i) { auto b = s.forced_repair(false); if (!b.empty() && r.chance(0.8)) s.give_packet(b); }
      break;
    }
  }
}

// A very long outage of the data path while acks keep flowing: block numbers far apart.
static void long_gap(session& s)
{
  auto& r = s.r;
  for (int i = 0; i < 3; ++i) s.submit(std::make_shared<bytes>(s.cfg.w == 32 ? 4 : 2, (char)('a' + i)));
  std::vector<bytes> first; for (auto& x : s.fwd) first.push_back(x.second);
  s.fwd.clear(); // the first blocks are lost, or only late: they come after the outage
  const bool late = r.chance(s.cfg.in_order ? 0.8 : 0.3);
  // in most late runs what is held on both sides of the outage is exactly 65536 blocks apart
  const unsigned gap = late && r.chance(0.7) ? 65536 + 61 : 66000 + (unsigned)r.below(3000);
  for (unsigned i = 0; i < gap; ++i)
  {
    auto d = std::make_shared<bytes>(4, '\0'); for (int k = 0; k < 4; ++k) (*d)[k] = (char)(i >> (8 * k)); (*d)[3] = 'z';
    s.submit(d);
    if (i > 20 && i + 40 < gap) { s.fwd.clear(); continue; } // outage of the data path
    s.pump(true);
  }
  if (late) { for (auto& b : first) s.give_packet(b); s.st.add("late_first_blocks"); }
  s.request_ack(); s.pump(true);
  for (int i = 0; i < 3; ++i) { auto d = std::make_shared<bytes>(4, (char)('A' + i)); s.submit(d); }
  s.pump(true);
  s.request_ack(); s.pump(true);
  s.st.add("long_gap_runs");
}

// More than 65536 repairs of the same few blocks, then losses repaired with high repair numbers.
static void many_repairs(session& s)
{
  auto& r = s.r; auto block = [&](int k) { return std::make_shared<bytes>(4u * (unsigned)r.range(1, 3), (char)k); };
  s.submit(block(1)); s.submit(block(2)); s.pump(true);
  const unsigned n = 65530 + (unsigned)r.below(40); const bool flood = r.chance(0.5); // the receiver gets them all, and delivers nothing
  for (unsigned i = 0; i < n; ++i) { const bytes b = s.forced_repair(false); if ((flood || i % 5000 == 0) && !b.empty()) s.give_packet(b); }
  if (flood) { s.st.add("floods_without_delivery"); if (r.chance(0.5)) { s.submit(block(9)); s.pump_data(); } }
  for (int k = 0; k < 3; ++k) { s.submit(block(3 + k)); if (r.chance(0.7)) s.fwd.clear(); }
  for (int k = 0; k < 8; ++k) { const bytes b = s.forced_repair(false); if (!b.empty()) s.give_packet(b); }
  s.pump(true); s.request_ack(); s.pump(true); s.st.add("many_repairs_runs");
}

// More than 65536 sources, repairs and acknowledgements through one receiver.
static void many_packets(session& s)
{
  auto& r = s.r; const unsigned n = 65540 + (unsigned)r.below(60);
  for (unsigned i = 0; i < n; ++i)
  {
    auto d = std::make_shared<bytes>(4, '\0'); for (int k = 0; k < 4; ++k) (*d)[k] = (char)(i >> (8 * k));
    s.submit(d);
    if (i % 1000 == 77) s.fwd.clear();
    s.pump(true);
    if (i % 16 == 5) { s.request_ack(); s.pump(true); }
  }
  s.st.add("many_packets_runs");
}

// Several hundred blocks in the window: long runs in repairs and acknowledgements.
static void wide_window(session& s, bool huge, bool ocean)
{
  auto& r = s.r; const unsigned n = ocean ? (unsigned)r.range(8300, 12000) : huge || s.cfg.limit < 1000 ? (unsigned)r.range(1200, 2200) : (unsigned)r.range(250, 800), hole = r.chance(0.4) ? 0 : (unsigned)r.range(1, 4);
  const bool flow = s.cfg.limit < 1000; std::set<unsigned> lost; for (unsigned k = 0; k < hole; ++k) lost.insert((unsigned)r.below(n));
  for (unsigned i = 0; i < n; ++i)
  {
    s.submit(std::make_shared<bytes>(4u * (unsigned)r.range(1, 4), (char)i));
    if (lost.count(i)) s.fwd.clear(); else s.pump_data();
    if (flow && r.chance(0.5)) s.pump(true); else s.back.clear(); // hardly any acknowledgement arrives
  }
  s.forced_repair(); s.pump_data(); s.back.clear();
  for (unsigned k = 0; k < hole; ++k) { s.forced_repair(); s.pump_data(); s.back.clear(); }
  if (s.prop != "C24") { s.request_ack(); s.pump(true); } // else the first acknowledgement comes with the healing
  s.st.add("wide_windows"); s.st.max("wide_window", n);
}

// A long burst: tens to hundreds of blocks missing at once, then rebuilt together.
static void wide_loss(session& s, bool huge)
{
  auto& r = s.r; const unsigned n = huge ? (unsigned)r.range(260, 300) : (unsigned)r.range(40, 140), extra = (unsigned)r.below(20);
  for (unsigned i = 0; i < n + extra; ++i)
  {
    s.submit(std::make_shared<bytes>(4u * (unsigned)r.range(1, 4), (char)i));
    if (i < n) s.fwd.clear();
  }
  if (r.chance(0.5)) s.pump_data(); else s.fwd.clear();
  for (unsigned k = 0; k < n + extra + 4 && s.delivered.size() < n + extra; ++k) { const bytes b = s.forced_repair(false); if (!b.empty()) s.give_packet(b); }
  s.back.clear(); s.request_ack(); s.pump(true); s.st.add("wide_losses"); s.st.max("wide_loss", n);
}

// Blocks as large as can be, lost one or several at a time, and rebuilt.
static void large_blocks(session& s)
{
  auto& r = s.r; const unsigned k = s.cfg.w == 16 ? 2 : s.cfg.w == 32 ? 4 : 1;
  for (int round = 0; round < 2; ++round)
  {
    const unsigned n = (unsigned)r.range(2, 5); unsigned lost = 0;
    for (unsigned i = 0; i < n; ++i)
    {
      static const unsigned round[] = {0x8000, 0x4000, 0xff00, 0x00ff, 0x0100, 0x7fff, 0xfffe, 0xf000, 0x1000, 0x8001, 0xc000, 0x2000};
      const std::size_t sz = (r.chance(0.3) ? 65535 : r.chance(0.3) ? round[r.below(12)] : r.chance(0.7) ? r.range(65500, 65535) : r.range(1, 65535)) / k * k;
      auto d = std::make_shared<bytes>(std::max<std::size_t>(sz, k), '\0'); for (auto& c : *d) c = (char)r.next();
      s.submit(d);
      if (r.chance(0.6)) { s.fwd.clear(); ++lost; } else s.pump_data();
    }
    for (unsigned i = 0; i < lost + 2; ++i) { const bytes b = s.forced_repair(false); if (!b.empty()) s.give_packet(b); }
    if (r.chance(0.5)) { s.request_ack(); s.pump(true); }
  }
  s.pump(true); s.request_ack(); s.pump(true); s.st.add("large_block_runs");
}

// Every coefficient of the small fields, for the oldest block of a repair and for the next one, with blocks of various sizes.
static void coefficients(session& s)
{
  auto& r = s.r; const unsigned k = s.cfg.w == 16 ? 2 : s.cfg.w == 32 ? 4 : 1; const auto coef = [&](u32 rid, u32 id) { return ref_gf(s.cfg.w).coeff(rid, id); };
  std::set<u32> first, second; const std::size_t all = s.cfg.w == 4 ? 15 : s.cfg.w == 8 ? 255 : 400;
  for (unsigned i = 0; i < 420 && (first.size() < all || second.size() < all); ++i)
  {
    const std::size_t n = r.chance(0.6) ? r.range(2040, 2600) : r.chance(0.5) ? r.range(1020, 1100) : r.range(1, 300);
    auto d = std::make_shared<bytes>(std::max<std::size_t>(n / k * k, k), '\0'); for (auto& c : *d) c = (char)r.next();
    s.submit(d); s.fwd.clear(); // lost
    unsigned skip = 0; const u32 id = s.em.next_id - 1;
    if (s.em.window.size() == 2)
      for (unsigned best = 0, x = 0; x < 12 && best < 2; ++x)
      {
        const unsigned gain = !first.count(coef(s.em.n_rep + x, id - 1)) + !second.count(coef(s.em.n_rep + x, id));
        if (gain > best) { best = gain; skip = x; }
      }
    for (unsigned x = 0; x < skip; ++x) s.forced_repair(false);
    if (s.em.window.size() == 2) { first.insert(coef(s.em.n_rep, id - 1)); second.insert(coef(s.em.n_rep, id)); }
    const bytes b = s.forced_repair(false); if (!b.empty()) s.give_packet(b);
    s.back.clear();
  }
  s.st.add("coefficient_runs"); s.st.max("coefficients_of_first_block", first.size()); s.st.max("coefficients_of_next_block", second.size());
}

// A peer whose repairs cover any part of the blocks it retains: stars, chains and sparse systems.
static void sparse(session& s)
{
  auto& r = s.r;
  for (int round = 0; round < 4; ++round)
  {
    const unsigned n = (unsigned)r.range(3, 16); const int shape = (int)r.below(4);
    for (unsigned i = 0; i < n; ++i) s.submit(std::make_shared<bytes>(4u * (unsigned)r.range(1, 9), (char)r.next()));
    s.fwd.clear();
    const auto all = s.em.window; std::vector<u32> ids = s.em.ids(); if (ids.size() < 2) continue;
    if (shape == 1) for (std::size_t i = ids.size(); i > 2; --i) std::swap(ids[i - 1], ids[1 + r.below(i - 1)]);
    const unsigned apart = shape == 0 && ids.size() > 5 && r.chance(0.7) ? 2 + (unsigned)r.below(2) : 0; // blocks outside the star, which share one repair
    const unsigned m = shape == 0 ? (unsigned)ids.size() - 1 - apart + (apart > 0) : (unsigned)r.range(ids.size() / 2, ids.size() + 3);
    for (unsigned i = 0; i < m; ++i)
    {
      std::set<u32> in; in.insert(ids[0]); // the oldest one stays protected
      if (shape == 0 && (!apart || i + 1 < m)) in.insert(ids[1 + i]);
      else if (shape == 0) in.insert(ids.end() - apart, ids.end());
      else if (shape == 1) { in.insert(ids[i % ids.size()]); in.insert(ids[(i + 1) % ids.size()]); }
      else for (u32 x : ids) if (r.chance(shape == 2 ? 0.25 : 0.6)) in.insert(x);
      s.em.window.clear(); for (u32 x : in) s.em.window.insert(*all.find(x));
      const bytes b = s.em.mk_repair(); s.em.window = all; s.give_packet(b);
      if (r.chance(0.08)) { const u32 x = ids[r.below(ids.size())]; s.give_packet(make_source(x, *all.at(x))); }
    }
    if (r.chance(0.8)) s.give_packet(make_source(ids[0], *all.at(ids[0])));
    if (r.chance(0.4)) { s.request_ack(); s.pump(true); }
  }
  s.st.add("sparse_runs");
}

int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [&](u64 c, const options& o, stats& st)
  {
    rng r(mix(o.seed, c)); config cfg = random_config(r, o.thorough());
    vclock() = 1000000000ll + (long long)r.below(1000000);
    const u64 foreign0 = st.foreign.size(); (void)foreign0;
    const bool script = c % 4 == 3; bool gap = c % 400 == 5; const bool many = c % 400 == 205, wide = c % 100 == 50, huge = c % 800 == 650, ocean = c % 800 == 250, burst = c % 200 == 130, stream = c % 1600 == 13, large = c % 100 == 70, thin = c % 50 == 33, coefs = c % 200 == 102;
    if (o.prop == "C24" || o.prop == "C20") gap = false;
    if (script) { cfg.rate = r.chance(0.5) ? 100000 : cfg.rate; cfg.loss = 0; cfg.burst_stay = 0; cfg.p_outage = 0; cfg.dup = 0; if (r.chance(0.5)) cfg.w = 4; if (cfg.sizes == 6) cfg.sizes = 1; if (r.chance(0.6)) cfg.ack_loss = 0; }
    if (gap)
    { cfg = config(); cfg.rate = 1000000; cfg.sizes = 1; cfg.in_order = (c / 400) % 2; cfg.w = (c / 400) % 4 == 3 ? 16 : 8; cfg.ack_nb = 128; cfg.ack_ms = 0; cfg.loss = 0; cfg.limit = ~0ull; }
    if (many) { const bool ad = r.chance(0.6); static const unsigned ws[] = {32, 8, 16, 4}; cfg = config(); cfg.rate = 1000000; cfg.sizes = 1; cfg.w = ws[(c / 400) % 4]; cfg.in_order = (c / 400) % 2; cfg.adaptive = ad; cfg.ack_ms = 0; cfg.loss = 0; cfg.limit = ~0ull; }
    if (wide || burst) { static const unsigned ws[] = {32, 8, 16}; const auto ord = r.chance(0.5); cfg = config(); cfg.rate = 1000000; cfg.sizes = 1; cfg.w = ws[(c / 100) % 3]; cfg.in_order = ord; cfg.ack_ms = 0; cfg.ack_nb = 128; cfg.loss = 0; cfg.limit = wide && r.chance(0.4) ? r.range(1, 60) : ~0ull; cfg.adaptive = r.chance(0.4); }
    if (huge || (wide && r.chance(0.5))) cfg.rate = r.range(100, 1100);
    if (ocean) { cfg.rate = 1000000; cfg.limit = ~0ull; }
    if (stream) { cfg = config(); cfg.rate = 1; cfg.sizes = 1; cfg.w = (c / 1600) % 2 ? 32 : 8; cfg.in_order = (c / 1600) % 2; cfg.ack_ms = 0; cfg.ack_nb = 1; cfg.loss = 0; cfg.limit = 4; }
    if (thin) { static const unsigned ws[] = {8, 32, 16}; const auto ord = r.chance(0.5); cfg = config(); cfg.ref_sender = true; cfg.rate = 1000000; cfg.sizes = 1; cfg.w = ws[(c / 50) % 3]; cfg.in_order = ord; cfg.ack_ms = 0; cfg.ack_nb = 128; cfg.loss = 0; cfg.limit = ~0ull; }
    if (large) { static const unsigned ws[] = {8, 32, 4, 16}; const auto ord = r.chance(0.5); cfg = config(); cfg.rate = r.chance(0.5) ? 1000000 : r.range(1, 4); cfg.sizes = 1; cfg.w = ws[(c / 100) % 4]; cfg.in_order = ord; cfg.ack_ms = 0; cfg.ack_nb = 128; cfg.loss = 0; cfg.limit = ~0ull; }
    if (coefs) { static const unsigned ws[] = {8, 4, 8, 16, 8, 32}; const auto ord = r.chance(0.5); cfg = config(); cfg.rate = 1000000; cfg.sizes = 1; cfg.w = ws[(c / 200) % 6]; cfg.in_order = ord; cfg.ack_ms = 0; cfg.ack_nb = 128; cfg.loss = 0; cfg.limit = 2; }
    session s(cfg, r.next(), o.prop, st);
    s.trace = o.verbose;
    const auto d0 = st.n["deliveries"], p0 = st.n["packets_delivered"], l0 = st.n["packets_lost"];
    if (gap) long_gap(s);
    else if (many) many_repairs(s);
    else if (wide) wide_window(s, huge, ocean);
    else if (burst) wide_loss(s, c % 1600 == 530);
    else if (stream) many_packets(s);
    else if (large) large_blocks(s);
    else if (thin) sparse(s);
    else if (coefs) coefficients(s);
    else { if (script) for (int k = 0; k < 6; ++k) { scripted(r.next(), s); if (r.chance(0.2)) s.pump(true); } else s.run(); }
    if (!gap) s.heal();
    ++st.evaluations;
    st.add("rebuilt", s.dm.n_rebuilt); st.add("rebuilt_by_substitution", s.dm.n_peel); st.add("full_decodings", s.dm.n_full); st.add("dependent_repairs", s.dm.n_singular); st.add("stale_packets_ignored", s.dm.n_outdated);
    st.add(bytes("cases_w") + std::to_string(cfg.w)); st.add(cfg.in_order ? "cases_in_order" : "cases_unordered"); if (cfg.ref_sender) st.add("cases_reference_sender");
    // a case is non-trivial if data was delivered and the channel or the code had something to do
    if (st.n["deliveries"] > d0 && st.n["packets_delivered"] > p0 && (s.dm.n_rebuilt || st.n["packets_lost"] > l0 || s.dm.n_useless || s.em.n_ack)) { ++st.nontrivial; st.distinct.insert(s.hash); }
    if (st.samples.size() < 3) { std::ostringstream x; x << "case " << c << ": " << cfg.str() << " -> submitted " << s.truth.size() << ", delivered " << s.delivered.size() << ", rebuilt " << s.dm.n_rebuilt << ", acks in " << s.em.n_ack; st.sample(x.str()); }
    st.n["gf_region_operations"] = vf_gf_regions.load();
  });
}
