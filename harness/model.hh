// Reference models of the sender and of the receiver, and the monitors that compare a real
// encoder/decoder pair with them.
#pragma once
#include "common.hh"
#include <cmath>

namespace vf {

// ---------------------------------------------------------------- sender model
struct enc_model
{
  unsigned w; bool systematic = true, adaptive = false;
  u64 rate = 5, limit = ~0ull;
  u32 next_id = 0, next_rid = 0; u64 sent_since_ack = 0;
  u64 submitted = 0; // counted from the start of the stream
  std::map<u32, std::shared_ptr<bytes>> window; // retained blocks
  u64 n_src = 0, n_rep = 0, n_ack = 0; std::vector<double> rate_forms;

  explicit enc_model(unsigned w_) : w(w_) {}

  std::vector<u32> ids() const { std::vector<u32> r; for (auto& p : window) r.push_back(p.first); return r; }
  bytes repair_bytes(u32 rid) const
  {
    std::vector<std::pair<u32, const bytes*>> v; for (auto& p : window) v.push_back({p.first, p.second.get()});
    return ref_repair(w, rid, v);
  }
  bytes mk_repair() { auto b = repair_bytes(next_rid++); ++n_rep; ++sent_since_ack; return b; }

  // The kinds of packets a submission must emit, in order.
  std::vector<int> submit_kinds() const
  {
    std::vector<int> k; k.push_back(systematic ? T_SOURCE : T_REPAIR);
    if ((submitted + 1) % rate == 0) k.push_back(T_REPAIR);
    return k;
  }
  void insert(std::shared_ptr<bytes> d)
  {
    while (window.size() >= limit) window.erase(window.begin());
    window.emplace(next_id, std::move(d));
  }
  // Used as a sender of its own (reference sender).
  std::vector<bytes> submit(std::shared_ptr<bytes> d)
  {
    std::vector<bytes> out; const auto kinds = submit_kinds(); insert(d);
    for (int k : kinds)
      if (k == T_SOURCE) { out.push_back(make_source(next_id, *d)); ++n_src; ++sent_since_ack; } else out.push_back(mk_repair());
    ++next_id; ++submitted;
    return out;
  }
  // Returns the exact real value from which the adaptive rate is rounded up (0: rate untouched).
  double ack(const wire& a)
  {
    ++n_ack; double exact = 0;
    if (adaptive)
    {
      double loss = 0;
      if (sent_since_ack) loss = ((double)sent_since_ack - a.nb_packets) / (double)sent_since_ack;
      exact = loss < 0.01 ? 50 : (1 / loss) / 2;
      rate = (u64)std::ceil(exact); rate_forms.clear();
      if (!(loss < 0.01)) { const double lost = (double)sent_since_ack - a.nb_packets, sent = (double)sent_since_ack; rate_forms = {1 / (2 * loss), 0.5 / loss, sent / (2 * lost), (sent / lost) / 2, (1 / loss) * 0.5}; }
    }
    sent_since_ack = 0;
    for (u32 i : a.ids) window.erase(i);
    return exact;
  }
};

// ---------------------------------------------------------------- receiver model
struct dec_model
{
  struct eq { u32 rid; std::set<u32> unknown; };
  unsigned w; bool in_order;
  bool has_h = false; u32 h = 0;            // horizon: oldest block the sender is known to protect
  std::map<u32, char> known;                // held blocks >= horizon: 'd' direct, 'r' rebuilt
  std::set<u32> fresh;                      // those learnt since the last call began
  std::vector<eq> eqs;
  u32 next = 0;                             // in-order: first block not yet passed
  std::set<u32> pending;                    // in-order: held, not yet delivered
  std::map<u32, char> how;                  // every block ever obtained
  // After linearly dependent repairs were met, a receiver may keep any of the equivalent repairs:
  // substitution is then not required any more until the held repairs are exhausted, and blocks
  // that elimination determines may (not must) be known to it.
  bool soft = false, ever_soft = false; std::set<u32> maybe;
  u64 n_rebuilt = 0, n_useless = 0, n_full = 0, n_peel = 0, n_singular = 0, n_outdated = 0;

  dec_model(unsigned w_, bool o) : w(w_), in_order(o) {}

  std::set<u32> missing() const { std::set<u32> m; for (auto& e : eqs) m.insert(e.unknown.begin(), e.unknown.end()); return m; }

  void flush(std::vector<u32>& out)
  {
    while (pending.count(next)) { out.push_back(next); pending.erase(next); ++next; }
  }
  void learn(u32 id, char c, std::vector<u32>& out)
  {
    known[id] = c; fresh.insert(id); how[id] = c; if (c == 'r') ++n_rebuilt;
    if (in_order) { pending.insert(id); flush(out); } else out.push_back(id);
    for (auto& e : eqs) e.unknown.erase(id);
    eqs.erase(std::remove_if(eqs.begin(), eqs.end(), [](const eq& e){ return e.unknown.empty(); }), eqs.end());
  }
  // Reduced echelon form of the held equations over `cols`; returns the kept (independent) ones.
  std::vector<eq> reduce(const std::vector<u32>& cols, std::vector<u32>& m, std::vector<u8>& keep) const
  {
    const std::size_t n = cols.size(); m.assign(eqs.size() * n, 0); keep.assign(eqs.size(), 0);
    const auto& f = field(w);
    for (std::size_t r = 0; r < eqs.size(); ++r)
    {
      std::size_t i = 0;
      for (u32 id : eqs[r].unknown) { while (cols[i] != id) ++i; m[r * n + i] = f.coeff(eqs[r].rid, id); }
    }
    rf_reduce(w, m.data(), eqs.size(), n, keep.data());
    std::vector<eq> kept; for (std::size_t r = 0; r < eqs.size(); ++r) if (keep[r]) kept.push_back(eqs[r]);
    return kept;
  }
  void note_maybe()
  {
    if (!soft || eqs.empty()) return;
    const auto s = missing(); std::vector<u32> cols(s.begin(), s.end()), m; std::vector<u8> keep; reduce(cols, m, keep);
    for (std::size_t r = 0; r < eqs.size(); ++r) if (keep[r])
    { const u32* row = &m[r * cols.size()]; std::size_t n = 0, at = 0; for (std::size_t j = 0; j < cols.size(); ++j) if (row[j]) { ++n; at = j; } if (n == 1) maybe.insert(cols[at]); }
  }
  // The receiver showed that it knows this block although the model does not require it.
  void absorb(u32 id)
  {
    std::vector<u32> out;
    if (how.count(id) || (has_h && id < h)) { how.emplace(id, 'r'); return; }
    learn(id, 'r', out); pending.erase(id); close(out);
  }
  void close(std::vector<u32>& out)
  {
    for (;;)
    {
      bool again = false;
      if (!soft) for (auto& e : eqs) if (e.unknown.size() == 1) { ++n_peel; learn(*e.unknown.begin(), 'r', out); again = true; break; }
      if (again) continue;
      if (eqs.empty()) { soft = false; return; }
      const auto m = missing();
      if (eqs.size() < m.size()) break;
      std::vector<u32> cols(m.begin(), m.end()), mat; std::vector<u8> keep;
      const std::vector<eq> kept = reduce(cols, mat, keep);
      if (kept.size() == cols.size())
      {
        ++n_full; eqs.clear();
        for (u32 id : cols) learn(id, 'r', out);
        soft = false; return;
      }
      n_singular += eqs.size() - kept.size();
      eqs = kept; soft = ever_soft = true; break;
    }
    note_maybe();
  }
  std::vector<u32> source(u32 id)
  {
    std::vector<u32> out;
    if (has_h && id < h) { ++n_outdated; return out; }
    if (known.count(id)) return out;
    learn(id, 'd', out); close(out);
    return out;
  }
  std::vector<u32> repair(u32 rid, const std::vector<u32>& ids)
  {
    std::vector<u32> out;
    if (ids.empty()) return out;
    if (has_h && ids[0] < h) { ++n_outdated; return out; }
    for (auto& e : eqs) if (e.rid == rid) return out; // same repair again
    has_h = true; h = ids[0];
    note_maybe();
    eqs.erase(std::remove_if(eqs.begin(), eqs.end(), [&](const eq& e){ return *e.unknown.begin() < h; }), eqs.end());
    if (eqs.empty()) soft = false;
    if (in_order)
    {
      while (!pending.empty() && *pending.begin() < h) { out.push_back(*pending.begin()); pending.erase(pending.begin()); }
      if (next < h) next = h;
      flush(out);
    }
    known.erase(known.begin(), known.lower_bound(h));
    eq e{rid, {}};
    for (u32 i : ids) if (!known.count(i)) e.unknown.insert(i);
    if (e.unknown.empty()) { ++n_useless; return out; }
    eqs.push_back(e); close(out);
    return out;
  }
};

} // namespace vf
