// C18: what a dumping receiver records, reads back and replays.  Compiled with -DNTC_DUMP_PACKETS and
// -DNTC_DUMP_PACKETS_FILE="\"vf_dump.bin\""; every process works in a scratch directory of its own.
// --extra PATH: the replay tool, built so that its receiver records what it is given in vf_dump.bin.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include "netcode/detail/serialize_packet.hh"
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C18", m); }
struct run_t { std::vector<event> ev; bytes cur; };
static bytes nasty(rng& r, std::size_t n)
{
  bytes b(n, 0); static const char set[] = {' ', '\n', '\t', '\r', '\v', '\f', '\0', '\xff', '\x1a', '\x04', 'a'}; const int m = (int)r.below(3);
  for (auto& c : b) c = m == 0 ? (char)r.next() : m == 1 ? set[r.below(sizeof set)] : (r.chance(0.3) ? ' ' : (char)r.next());
  return b;
}
static std::vector<bytes> read_all(const char* f)
{
  std::ifstream in(f); if (!in.is_open()) bad("no recording was made");
  std::vector<bytes> v;
  while (in.peek() != std::char_traits<char>::eof())
  {
    const ntc::packet p = ntc::detail::serialize_packet::read(in);
    if (!in) bad("the recording ends in the middle of packet " + s(v.size()));
    v.emplace_back(p.begin(), p.end());
    if (v.size() > 100000) bad("reading the recording does not end");
  }
  return v;
}
static void feed(unsigned w, bool ord, const std::vector<bytes>& pk, run_t& out)
{
  vclock() = 1000000000ll;
  ntc::decoder<cap_acks, cap_data> d((u8)w, ord ? ntc::in_order::yes : ntc::in_order::no, cap_acks{&out.ev, &out.cur}, cap_data{&out.ev});
  d.set_ack_period(std::chrono::milliseconds(0));
  for (auto& b : pk) { try { if (b.size() % 2) d(ntc::packet(b.begin(), b.end())); else { const ntc::packet p(b.begin(), b.end()); d(p); } } catch (const ntc::packet_type_error&) {} catch (const ntc::overflow_error&) {} }
}
static void one(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c + 1800)); static const unsigned ws[] = {8, 4, 16, 32}; const unsigned w = ws[c % 4]; const bool ord = w == 8 || r.chance(0.5), refused = r.chance(0.4), big = c % 7 == 3;
  // ---- some traffic
  std::vector<bytes> out; bytes cur; u64 em = 0; std::vector<bytes> pk; bytes first_refused; std::size_t first_refused_at = ~(std::size_t)0;
  {
    vclock() = 1000000000ll; ntc::encoder<cap_packets> e((u8)w, cap_packets{&out, &cur, &em}); e.set_rate(r.range(1, 6)); e.set_window_size(r.range(1, 20));
    if (r.chance(0.2)) e.set_code_type(ntc::systematic::no);
    for (unsigned i = 0, n = (unsigned)r.range(1, 60); i < n; ++i)
    {
      const unsigned k = w == 16 ? 2 : w == 32 ? 4 : 1; std::size_t len = big && r.chance(0.2) ? r.range(30000, 65400) : r.range(1, 300); len = std::max<std::size_t>(k, len / k * k);
      const bytes b = nasty(r, len); out.clear(); e(ntc::data(b.begin(), b.end()));
      for (auto& p : out) if (r.chance(0.75) && p.size() <= 65507) pk.push_back(p);
      if (refused && r.chance(0.15)) pk.push_back(r.chance(0.5) ? bytes(1, (char)r.range(3, 255)) + nasty(r, r.below(100)) : r.chance(0.5) ? out[0].substr(0, r.range(1, out[0].size() - 1)) : make_ack(3, {1, 2, 3}));
    }
    if (r.chance(0.3)) pk.push_back(make_source(1000000, nasty(r, r.range(1, 65500) / 4 * 4)));
  }
  for (std::size_t i = 0; i < pk.size() && first_refused_at == ~(std::size_t)0; ++i) { bool ok = true; try { ok = parse(pk[i], w).type != T_ACK; } catch (const parse_error&) { ok = false; } if (!ok) first_refused_at = i; }
  // ---- record
  // (half of the time over the recording of an earlier receiver)
  unlink("vf_dump.bin"); run_t a, b; if (c % 2) { run_t old; feed(w, ord, {make_source(0, nasty(r, 40)), make_source(1, nasty(r, 4 * r.range(1, 3000)))}, old); }
  feed(w, ord, pk, a);
  const auto rec = read_all("vf_dump.bin");
  for (std::size_t i = 0; i < std::min(rec.size(), pk.size()); ++i) if (rec[i] != pk[i]) bad("recorded packet " + s(i) + " of " + s(pk.size()) + " has " + s(rec[i].size()) + " bytes instead of " + s(pk[i].size()) + " or other contents");
  if (rec.size() != pk.size()) bad(s(rec.size()) + " packets recorded, " + s(pk.size()) + " were given");
  if (std::rename("vf_dump.bin", "kept.bin")) bad("no recording was made");
  st.add("packets_recorded", pk.size()); for (auto& p : pk) st.add("bytes_recorded", p.size());
  // ---- replay
  feed(w, ord, rec, b); u64 h = c;
  auto only = [](const std::vector<event>& v) { std::vector<bytes> x; for (auto& e : v) if (!e.ack) x.push_back(e.b); return x; };
  if (only(a.ev) != only(b.ev)) bad("replaying the recording delivers " + s(only(b.ev).size()) + " blocks or other contents instead of " + s(only(a.ev).size()));
  for (auto& x : only(a.ev)) h = fnv(x, h);
  st.add("deliveries_replayed", only(a.ev).size());
  // ---- the tool
  if (!o.extra.empty() && w == 8 && !pk.empty())
  {
    if (c % 3) unlink("vf_dump.bin");
    const int rc = std::system(("'" + o.extra + "' kept.bin >tool.out 2>&1").c_str());
    if (rc == -1 || !WIFEXITED(rc) || WEXITSTATUS(rc) != 0) { std::ifstream f("tool.out"); bytes t((std::istreambuf_iterator<char>(f)), {}); bad("the replay tool fails (" + s((u64)rc) + "): " + t.substr(0, 300)); }
    const auto got = read_all("vf_dump.bin"); const std::size_t need = std::min(pk.size(), first_refused_at);
    for (std::size_t i = 0; i < got.size(); ++i) if (i >= pk.size() || got[i] != pk[i]) bad("the replay tool gives another packet " + s(i) + " to its receiver");
    if (got.size() < need) bad("the replay tool processes " + s(got.size()) + " of " + s(need) + " packets");
    st.add("tool_runs"); st.add("tool_packets", got.size());
  }
  ++st.evaluations; if (!pk.empty()) { ++st.nontrivial; st.distinct.insert(h); }
  if (st.samples.size() < 3) st.sample("case " + s(c) + ": w=" + s(w) + ", " + s(pk.size()) + " packets recorded, largest of " + s(pk.empty() ? 0 : std::max_element(pk.begin(), pk.end(), [](const bytes& x, const bytes& y){ return x.size() < y.size(); })->size()) + " bytes, " + s(only(a.ev).size()) + " deliveries reproduced" + (first_refused_at != ~(std::size_t)0 ? ", refused packets among them" : ""));
}
int main(int argc, char** argv)
{
  options o(argc, argv);
  char dir[] = "/tmp/vf-dump-XXXXXX"; if (!mkdtemp(dir) || chdir(dir)) { std::perror("scratch"); return 3; }
  const int rc = run_cases(o, one);
  for (const char* f : {"vf_dump.bin", "kept.bin", "tool.out"}) unlink(f);
  if (chdir("/") == 0) rmdir(dir);
  return rc;
}
