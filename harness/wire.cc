// C12: everything the packetizer writes, an independent parser and the packetizer itself read back.
#include "common.hh"
#include "netcode/detail/packetizer.hh"
#include "netcode/dispatch.hh"
using namespace vf;
namespace d = ntc::detail;
static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C12", m); }

struct handler
{
  bytes* cur; std::vector<bytes>* done; u64* chunks; u64* nulls;
  void operator()(const char* p, std::size_t n) { ++*chunks; if (!p && n) ++*nulls; cur->append(p, n); }
  void operator()() { done->push_back(*cur); cur->clear(); }
};

struct quiet { void operator()(const char*, std::size_t) {} void operator()() {} };

static std::vector<u32> make_ids(rng& r)
{
  std::set<u32> ids; const u64 m = r.below(9);
  u32 at = r.chance(0.5) ? (u32)r.below(1000) : r.chance(0.3) ? 0 : (u32)r.next();
  auto put_run = [&](u32 len, u32 step) { for (u32 i = 0; i < len; ++i) { ids.insert(at); if (at > 0xffffffffu - step) { at = 0xffffffffu; return; } at += step; } };
  if (r.chance(0.004)) { at = (u32)r.below(1000); for (u64 k = r.range(1000, 40000); k--;) { ids.insert(at); at += 1 + (u32)(k % 2) + (r.chance(0.01) ? (u32)r.below(100000) : 0); } } // thousands of entries
  else if (m == 0) return {};
  else if (m == 1) ids.insert(at);
  else if (m == 2) { at = (u32)r.below(100000); put_run((u32)r.range(2, 1200), 1); }                     // one long run
  else if (m == 3) { at = (u32)r.below(1000); for (int k = (int)r.range(1, 8); k--;) put_run((u32)(r.chance(0.5) ? r.range(254, 258) : r.range(1, 520)), (u32)(r.chance(0.6) ? 1 : r.range(1, 5))); } // runs about 255
  else if (m == 4) { for (int k = (int)r.range(1, 60); k--;) ids.insert((u32)r.below(500)); }            // random holes
  else if (m == 5) { at = (u32)r.below(1000); for (int k = (int)r.range(2, 20); k--;) { ids.insert(at); at += (u32)r.range(65530, 65545); } } // about 2^16
  else if (m == 6) { for (int k = (int)r.range(2, 40); k--;) ids.insert((u32)r.next()); }                // anything
  else if (m == 7) { at = (u32)r.below(1000); for (int k = (int)r.range(1, 6); k--;) { put_run((u32)r.range(1, 300), (u32)r.range(1, 3)); at += (u32)(r.chance(0.5) ? 65536u * (u32)r.range(1, 40) + (u32)r.below(3) : r.below(70000)); } }
  else { at = 0xffffffffu - (u32)r.below(600); put_run((u32)r.range(1, 700), 1); }                        // up to the last number
  return {ids.begin(), ids.end()};
}
static d::source_id_list lst(const std::vector<u32>& v) { return d::source_id_list(v.begin(), v.end()); }
template <class L> static bool same(const L& l, const std::vector<u32>& v) { return std::vector<u32>(l.begin(), l.end()) == v; }

// The same list, with the runs cut at random places: also a valid encoding.
static void put_ids_split(bytes& b, const std::vector<u32>& ids, rng& r)
{
  if (ids.empty()) { put(b, 0, 2); return; }
  bytes body; u32 n = 1;
  for (std::size_t i = 1; i < ids.size();)
  {
    const u32 dd = ids[i] - ids[i - 1]; std::size_t j = i + 1;
    if (dd >> 16) { put(body, 0, 1); put(body, dd >> 16, 2); ++n; }
    else while (j < ids.size() && ids[j] - ids[j - 1] == dd && j - i < 255 && !r.chance(0.1)) ++j;
    put(body, j - i, 1); put(body, dd & 0xffff, 2); ++n; i = j;
  }
  put(b, n, 2); put(b, ids[0], 4); b += body;
}

static void one(rng& r, stats& st, u64& h)
{
  bytes cur; std::vector<bytes> done; u64 chunks = 0, nulls = 0; handler hd{&cur, &done, &chunks, &nulls};
  d::packetizer<handler> pz{hd};
  ntc::encoder<quiet> sender{8, quiet{}}; ntc::decoder<quiet, quiet> receiver{8, ntc::in_order::no, quiet{}, quiet{}};
  for (unsigned it = 0; it < 12; ++it) // the same packetizer re-uses its buffers
  {
    done.clear(); cur.clear(); chunks = 0;
    const auto ids = make_ids(r); const u32 id = r.chance(0.6) ? (u32)r.below(100000) : (u32)r.next(), enc = r.chance(0.5) ? (u32)r.below(65536) : (u32)r.next();
    const u16 nb = (u16)(r.chance(0.2) ? 65535 : r.next()); bytes sym(r.chance(0.85) ? r.range(1, 200) : r.chance(0.7) ? r.range(1000, 9000) : r.range(65000, 65535), 0); for (auto& c : sym) c = (char)r.next();
    const unsigned kind = (unsigned)r.below(3);
    if (kind == T_ACK) { const d::ack a{lst(ids), nb}; pz.write_ack(a); if (!same(a.source_ids(), ids)) bad("writing an ack altered it"); }
    else if (kind == T_REPAIR) { const d::encoder_repair x{id, enc, lst(ids), d::zero_byte_buffer(sym.begin(), sym.end())}; pz.write_repair(x); }
    else { const d::encoder_source x{id, d::byte_buffer(sym.begin(), sym.end())}; pz.write_source(x); }
    const bytes what = bytes(kind == 0 ? "ack" : kind == 1 ? "repair" : "source") + " of " + s(ids.size()) + " blocks" + (ids.empty() ? bytes() : " from " + s(ids[0]));
    if (done.size() != 1 || !cur.empty()) bad(what + ": " + s(done.size()) + " end-of-packet calls, " + s(cur.size()) + " bytes after the last one");
    if (nulls) bad(what + ": null chunk");
    bytes b = done[0]; wire w;
    try { w = parse(b, 8); } catch (const parse_error& e) { bad(what + ": written packet is " + e.what()); }
    if (w.consumed != b.size()) bad(what + ": " + s(b.size()) + " bytes written, the format needs " + s(w.consumed));
    if ((unsigned)w.type != kind) bad(what + ": written with type " + s((u64)w.type));
    if (kind != T_SOURCE && w.ids != ids) bad(what + ": written list has " + s(w.ids.size()) + " other blocks" + (w.ids.empty() ? bytes() : " from " + s(w.ids[0]) + " to " + s(w.ids.back())));
    if (kind == T_ACK && w.nb_packets != nb) bad(what + ": packet count " + s(w.nb_packets) + " instead of " + s(nb));
    if (kind != T_ACK && (w.id != id || w.symbol != sym)) bad(what + ": number or symbol written wrongly");
    if (kind == T_REPAIR && w.encoded_size != enc) bad(what + ": encoded size " + s(w.encoded_size) + " instead of " + s(enc));
    // read back: as written, with other bytes behind, and with the runs cut differently
    for (int mode = 0; mode < 3; ++mode)
    {
      bytes x = b;
      if (mode == 2)
      {
        if (kind == T_SOURCE) break;
        x.clear(); put(x, kind, 1);
        if (kind == T_ACK) { put(x, nb, 2); put_ids_split(x, ids, r); } else { put(x, id, 4); put(x, sym.size(), 2); x += sym; put_ids_split(x, ids, r); put(x, enc, 4); }
        st.add("foreign_encodings_read");
      }
      const std::size_t len = x.size();
      if (mode >= 1) { const std::size_t extra = r.range(1, 60); for (std::size_t i = 0; i < extra; ++i) x += (char)r.next(); }
      std::size_t n = 0; ntc::packet p(x.begin(), x.end());
      try
      {
        if (kind == T_ACK)
        {
          auto q = pz.read_ack(std::move(p)); n = q.second;
          if (!same(q.first.source_ids(), ids) || q.first.nb_packets() != nb) bad(what + ": read back differently (" + s(q.first.source_ids().size()) + " blocks, count " + s(q.first.nb_packets()) + ")");
        }
        else if (kind == T_REPAIR)
        {
          auto q = pz.read_repair(std::move(p)); n = q.second;
          if (!same(q.first.source_ids(), ids)) bad(what + ": list read back differently (" + s(q.first.source_ids().size()) + " blocks)");
          if (q.first.id() != id || q.first.encoded_size() != enc) bad(what + ": number or encoded size read back differently");
          if (bytes(q.first.symbol(), q.first.symbol_size()) != sym) bad(what + ": symbol read back differently");
        }
        else
        {
          auto q = pz.read_source(std::move(p)); n = q.second;
          if (q.first.id() != id || bytes(q.first.symbol(), q.first.symbol_size()) != sym) bad(what + ": read back differently");
        }
      }
      catch (const std::exception& e) { if (dynamic_cast<const violation*>(&e)) throw; bad(what + ": refused when read back: " + typeid(e).name()); }
      if (n != len) bad(what + ": " + s(n) + " bytes reported as read, the packet has " + s(len));
      st.add("packets_read_back");
      // and through the addressed side itself
      try
      {
        const ntc::packet q(x.begin(), x.end()); const int way = (int)r.below(3); bool kept = true;
        if (way == 0) n = ntc::dispatch(sender, receiver, ntc::packet(q));
        else if (way == 1) { n = kind == T_ACK ? sender(q) : receiver(q); kept = q.size() == x.size() && std::equal(x.begin(), x.end(), q.begin()); }
        else n = kind == T_ACK ? sender(ntc::packet(q)) : receiver(ntc::packet(q));
        if (!kept) bad(what + ": altered although given by reference");
        if (n != len) bad(what + ": " + s(n) + " bytes reported as read by the " + (kind == T_ACK ? "sender" : "receiver") + ", the packet has " + s(len));
        st.add("packets_given");
      }
      catch (const std::exception& e) { if (dynamic_cast<const violation*>(&e)) throw; bad(what + ": refused: " + typeid(e).name()); }
    }
    h = fnv(b, h); st.add(kind == 0 ? "acks_written" : kind == 1 ? "repairs_written" : "sources_written"); st.add("chunks_announced", chunks); st.max("ids", ids.size());
    for (std::size_t i = 1; i < ids.size(); ++i) if (ids[i] - ids[i - 1] > 65535) { st.add("lists_with_wide_gaps"); break; }
  }
}
int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [](u64 c, const options& o, stats& st)
  {
    rng r(mix(o.seed, c + 77)); u64 h = c;
    one(r, st, h); ++st.evaluations; ++st.nontrivial; st.distinct.insert(h);
    if (st.samples.size() < 3) { auto v = make_ids(r); st.sample("case " + s(c) + ": 12 packets through one packetizer, with block lists such as one of " + s(v.size()) + " blocks" + (v.empty() ? bytes() : " from " + s(v[0]) + " to " + s(v.back()))); }
  });
}
