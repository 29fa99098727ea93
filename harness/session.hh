// A real sender (or the reference sender) and a real receiver connected by a faulty channel, with
// every call observed and compared with the models.
#pragma once
#include <functional>
#include "model.hh"
#include "netcode/decoder.hh"
#include "netcode/encoder.hh"
#include <chrono>

namespace vf {

// ---------------------------------------------------------------- virtual time
inline long long& vclock() { static thread_local long long t = 1000000000ll; return t; } // ns

struct event { bool ack; bytes b; bool aligned; bool asked; };

struct cap_packets // sender side capture
{
  std::vector<bytes>* out; bytes* cur; u64* empties;
  void operator()(const char* p, std::size_t n) { if (!n) ++*empties; cur->append(p, n); }
  void operator()() { out->push_back(*cur); cur->clear(); }
};
struct cap_acks
{
  std::vector<event>* ev; bytes* cur; const bool* asked = nullptr;
  cap_acks(std::vector<event>* e, bytes* c, const bool* a = nullptr) : ev(e), cur(c), asked(a) {}
  void operator()(const char* p, std::size_t n) { cur->append(p, n); }
  void operator()() { ev->push_back({true, *cur, true, asked && *asked}); cur->clear(); }
};
struct cap_data
{
  std::vector<event>* ev; std::function<void()>* then = nullptr; // what the application does when it is given data
  cap_data(std::vector<event>* e, std::function<void()>* f = nullptr) : ev(e), then(f) {}
  void operator()(const char* p, std::size_t n)
  {
    const bytes b(p, n); ev->push_back({false, b, (reinterpret_cast<std::uintptr_t>(p) % 16) == 0, false});
    if (then && *then) { (*then)(); }
  }
};

struct config
{
  unsigned w = 8; bool in_order = true, systematic = true, adaptive = false, ref_sender = false;
  u64 rate = 5, limit = ~0ull; u32 start_id = 0, start_rid = 0;
  double loss = 0.1, burst_stay = 0, dup = 0, ack_loss = 0, ack_dup = 0; unsigned delay = 0, ack_delay = 0;
  int sizes = 0; unsigned steps = 100; bool wild = false; // wild: settings change on the way
  double p_forced = 0.02, p_genack = 0.02, p_outage = 0.0, p_tick = 0.2; unsigned outage_len = 20;
  unsigned ack_nb = 50; long ack_ms = 100; double auto_ack_ops = 0, p_handler_ack = 0;
  bytes str() const
  {
    std::ostringstream o;
    o << "w=" << w << (in_order ? " in_order" : " unordered") << (systematic ? " sys" : " nonsys") << (adaptive ? " adaptive" : "")
      << (ref_sender ? " ref_sender" : "") << " rate=" << rate << " limit=" << (limit == ~0ull ? -1ll : (long long)limit) << " start=" << start_id << "/" << start_rid
      << " loss=" << loss << " burst=" << burst_stay << " dup=" << dup << " delay=" << delay << " ack_loss=" << ack_loss << " ack_dup=" << ack_dup << " ack_delay=" << ack_delay
      << " sizes=" << sizes << " steps=" << steps << (wild ? " wild" : "") << " forced=" << p_forced << " genack=" << p_genack << " outage=" << p_outage << "/" << outage_len
      << " handler_ack=" << p_handler_ack << " ack_nb=" << ack_nb << " ack_ms=" << ack_ms;
    return o.str();
  }
};

struct session
{
  const config cfg; rng r; const bytes prop; stats& st;
  std::vector<bytes> enc_out; bytes enc_cur; u64 enc_empty = 0;
  std::vector<event> ev; bytes ack_cur; bool asking = false; std::function<void()> on_data;
  std::unique_ptr<ntc::encoder<cap_packets>> enc;
  std::unique_ptr<ntc::decoder<cap_acks, cap_data>> dec;
  enc_model em; dec_model dm;
  std::map<u32, std::shared_ptr<bytes>> truth;              // every submitted block
  std::unordered_map<bytes, std::vector<u32>> by_content;
  std::unordered_map<bytes, unsigned> delivered_count;
  std::set<u32> delivered; bool any_delivered = false; u32 last_delivered = 0;
  std::set<u32> held;                // model-known, not actually delivered yet (in-order bookkeeping)
  std::set<u32> seen_rids;
  // channel
  std::multimap<u64, bytes> fwd, back; u64 t = 0; bool bad = false; unsigned outage = 0;
  // ack schedule model
  u64 nb_since = 0; long long last_auto; unsigned ack_nb; long ack_ms;
  u64 n_src_rx = 0, n_rep_rx = 0, n_acks_tx = 0, n_direct_deliv = 0, last_failed = 0;
  u64 hash = 0; std::vector<bytes>* transcript = nullptr;
  bool trace = false;

  session(const config& c, u64 seed, bytes p, stats& s)
    : cfg(c), r(seed), prop(std::move(p)), st(s), em(c.w), dm(c.w, c.in_order)
  {
    last_auto = vclock(); ack_nb = 50; ack_ms = 100;
    if (!cfg.ref_sender)
      enc.reset(new ntc::encoder<cap_packets>(static_cast<std::uint8_t>(cfg.w), cap_packets{&enc_out, &enc_cur, &enc_empty}));
    dec.reset(new ntc::decoder<cap_acks, cap_data>(static_cast<std::uint8_t>(cfg.w), cfg.in_order ? ntc::in_order::yes : ntc::in_order::no
                                                  , cap_acks{&ev, &ack_cur, &asking}, cap_data{&ev, &on_data}));
    if (cfg.p_handler_ack > 0) on_data = [this] { if (r.chance(cfg.p_handler_ack)) { asking = true; dec->generate_ack(); asking = false; st.add("acks_requested_on_delivery"); } };
    em.next_id = cfg.start_id; em.next_rid = cfg.start_rid;
    if (enc) check_settings("fresh");
    if (dec->ack_nb_packets() != ack_nb || dec->ack_period().count() != ack_ms) flag("C16", "a new receiver has other acknowledgement settings than a count of 50 and a period of 100 ms");
    after_receiver_call();
    set_rate(cfg.rate); set_limit(cfg.limit); set_systematic(cfg.systematic); set_adaptive(cfg.adaptive);
    set_ack_nb(cfg.ack_nb); set_ack_ms(cfg.ack_ms);
  }

  void flag(const char* p, const bytes& msg)
  {
    if (prop == p || prop == "ALL") throw violation(p, msg + " | " + cfg.str() + " t=" + std::to_string(t));
    st.foreign[p]++;
  }
  bool want(const char* p) const { return prop == p || prop == "ALL"; }

  // ------------------------------------------------------------ settings
  void check_settings(const char* when)
  {
    if (!enc) return;
    if (enc->rate() != em.rate) flag("C09", bytes("rate() is ") + std::to_string(enc->rate()) + " expected " + std::to_string(em.rate) + " " + when);
    if (enc->window_size() != em.limit) flag("C07", bytes("window limit differs ") + when);
    if ((enc->code_type() == ntc::systematic::yes) != em.systematic) flag("C09", bytes("code type differs ") + when);
    if (enc->adaptive() != em.adaptive) flag("C09", bytes("adaptive flag differs ") + when);
  }
  void set_rate(u64 x) { em.rate = x; if (enc) enc->set_rate(x); }
  void set_limit(u64 x) { em.limit = x; if (enc) enc->set_window_size(x); }
  void set_systematic(bool x) { em.systematic = x; if (enc) enc->set_code_type(x ? ntc::systematic::yes : ntc::systematic::no); }
  void set_adaptive(bool x) { em.adaptive = x; if (enc) enc->set_adaptive(x); }
  void set_ack_nb(unsigned x)
  {
    ack_nb = std::min(x, 128u); dec->set_ack_nb_packets(static_cast<u16>(x));
    if (dec->ack_nb_packets() != ack_nb) flag("C16", "ack_nb_packets() is " + std::to_string(dec->ack_nb_packets()) + " after setting " + std::to_string(x));
  }
  void set_ack_ms(long x) { ack_ms = x; dec->set_ack_period(std::chrono::milliseconds(x)); if (dec->ack_period().count() != x) flag("C16", "ack_period() differs"); }

  void log(char k, const bytes& b) { hash = fnv(b, hash * 31 + static_cast<u8>(k)); if (transcript) transcript->push_back(bytes(1, k) + b);
    if (trace) std::printf("  %c %zu %s\n", k, b.size(), hex(b, 48).c_str()); }

  // ------------------------------------------------------------ sender side
  std::shared_ptr<bytes> make_block()
  {
    const unsigned k = cfg.w == 16 ? 2 : cfg.w == 32 ? 4 : 1;
    std::size_t n;
    switch (cfg.sizes)
    {
      case 0: n = 64; break;
      case 1: n = r.range(1, 40); break;
      case 2: n = r.chance(0.15) ? r.range(200, 1500) : r.range(1, 60); break;
      case 3: n = r.chance(0.02) ? r.range(5000, 20000) : r.range(8, 300); break;
      case 4: n = r.range(1, 4); break;
      case 5: n = r.chance(0.3) ? r.range(254, 260) : r.chance(0.3) ? r.range(15, 18) : 16; break;
      case 6: n = r.chance(0.05) ? (r.chance(0.3) ? 65535 : r.range(65500, 65535)) : r.range(250, 600); break;
      default: n = 1; break;
    }
    n = std::max<std::size_t>(k, n / k * k);
    auto b = std::make_shared<bytes>(n, '\0');
    const int mode = r.below(12) == 0 ? (int)r.below(3) : 3;
    for (auto& c : *b) c = mode == 0 ? '\0' : mode == 1 ? '\xff' : static_cast<char>(r.next());
    if (n >= 8 && mode == 3) for (int i = 0; i < 4; ++i) (*b)[i] = static_cast<char>(em.next_id >> (8 * i)); // mostly unique
    return b;
  }

  void check_source(const bytes& b, u32 id, const bytes& data)
  {
    wire x; try { x = parse(b, cfg.w); } catch (const parse_error& e) { flag("C08", bytes("unparsable source: ") + e.what() + " " + hex(b)); flag("C12", "unparsable source"); return; }
    if (x.consumed != b.size()) { flag("C12", "source packet has " + std::to_string(b.size()) + " bytes, format needs " + std::to_string(x.consumed)); }
    if (x.id != id) flag("C08", "source numbered " + std::to_string(x.id) + " expected " + std::to_string(id));
    if (x.symbol != data) flag("C08", "source packet does not carry the submitted block verbatim, id " + std::to_string(id) + " got " + hex(x.symbol) + " expected " + hex(data));
    st.add("sources_checked");
  }
  void check_repair(const bytes& b)
  {
    wire x; try { x = parse(b, cfg.w); } catch (const parse_error& e) { flag("C08", bytes("unparsable repair: ") + e.what()); flag("C12", "unparsable repair"); return; }
    if (x.consumed != b.size()) flag("C12", "repair packet has " + std::to_string(b.size()) + " bytes, format needs " + std::to_string(x.consumed));
    if (!seen_rids.insert(x.id).second) flag("C08", "repair number reused: " + std::to_string(x.id));
    if (x.ids != em.ids())
    {
      const bytes m = "repair " + std::to_string(x.id) + " covers " + show(x.ids) + " but the retained blocks are " + show(em.ids());
      flag("C08", m); flag("C07", m); return;
    }
    const bytes expect = em.repair_bytes(x.id);
    const wire e = parse(expect, cfg.w);
    if (x.symbol != e.symbol) flag("C08", "repair symbol differs from the published combination of " + show(x.ids) + " repair " + std::to_string(x.id) + " sizes " + std::to_string(x.symbol.size()) + "/" + std::to_string(e.symbol.size()));
    if (x.encoded_size != e.encoded_size) flag("C08", "repair encoded size " + std::to_string(x.encoded_size) + " expected " + std::to_string(e.encoded_size));
    st.add("repairs_checked"); st.max("repair_width", x.ids.size());
    st.max("repair_hole_span", x.ids.empty() ? 0 : x.ids.back() - x.ids[0] + 1 - x.ids.size());
  }
  static bytes show(const std::vector<u32>& v)
  {
    bytes s = "{"; for (std::size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + (v.size() > 24 ? ",..(" + std::to_string(v.size()) + ")}" : "}");
  }
  static char kind(const bytes& b) { return b.empty() ? '?' : b[0] == T_SOURCE ? 'S' : b[0] == T_REPAIR ? 'R' : b[0] == T_ACK ? 'A' : '?'; }

  void after_sender_call()
  {
    if (!enc) return;
    if (enc->window() != em.window.size()) flag("C07", "window() is " + std::to_string(enc->window()) + " expected " + std::to_string(em.window.size()));
    if (enc->nb_sent_repairs() != em.n_rep) flag("C17", "sent repairs counter " + std::to_string(enc->nb_sent_repairs()) + " observed " + std::to_string(em.n_rep));
    if (enc->nb_sent_sources() != em.n_src) flag("C17", "sent sources counter " + std::to_string(enc->nb_sent_sources()) + " observed " + std::to_string(em.n_src));
    if (enc->nb_received_acks() != em.n_ack) flag("C17", "received acks counter " + std::to_string(enc->nb_received_acks()) + " observed " + std::to_string(em.n_ack));
    if (!enc_cur.empty()) flag("C12", "bytes without end-of-packet call");
    check_settings("after call");
    st.add("sender_calls_checked");
  }
  void emit(const bytes& b)
  {
    log('>', b);
    ++st.n["packets_emitted"];
    // Gilbert-like channel
    bool lose;
    if (outage) { --outage; lose = true; }
    else { lose = bad ? r.chance(cfg.burst_stay) : r.chance(cfg.loss); bad = lose && cfg.burst_stay > 0; }
    if (cfg.p_outage > 0 && r.chance(cfg.p_outage)) outage = (unsigned)r.range(1, cfg.outage_len);
    if (lose) { ++st.n["packets_lost"]; return; }
    fwd.emplace(t + r.below(cfg.delay + 1), b);
    if (r.chance(cfg.dup)) { ++st.n["packets_duplicated"]; fwd.emplace(t + r.below(2 * cfg.delay + 3), b); }
  }
  void submit() { submit(make_block()); }
  void submit(std::shared_ptr<bytes> d)
  {
    const u32 id = em.next_id; truth[id] = d; by_content[*d].push_back(id);
    ++st.n["blocks_submitted"];
    if (!enc) { for (auto& b : em.submit(d)) emit(b); return; }
    const auto kinds = em.submit_kinds();
    em.insert(d);
    enc_out.clear();
    if (r.chance(0.5)) (*enc)(ntc::data(d->begin(), d->end()));
    else { const ntc::data x(d->begin(), d->end()); (*enc)(x); if (bytes(x.begin(), x.end()) != *d) for (const char* q : {"C08", "C01"}) flag(q, "submitting by reference altered the caller's block"); }
    bytes got, exp; for (auto& b : enc_out) got += kind(b); for (int k : kinds) exp += k == T_SOURCE ? 'S' : 'R';
    if (got != exp) flag("C09", "submission " + std::to_string(id) + " emitted [" + got + "] expected [" + exp + "] rate " + std::to_string(em.rate));
    for (auto& b : enc_out)
    {
      if (kind(b) == 'S') { check_source(b, id, *d); ++em.n_src; } else if (kind(b) == 'R') { check_repair(b); ++em.n_rep; }
      else { flag("C08", "sender emitted something that is neither a source nor a repair"); }
      ++em.sent_since_ack; 
    }
    ++em.next_id; ++em.submitted;
    const auto out = enc_out; after_sender_call();
    for (auto& b : out) emit(b);
  }
  bytes forced_repair(bool send = true)
  {
    if (!enc) { if (em.window.empty()) return ""; auto b = em.mk_repair(); if (send) emit(b); return b; }
    enc_out.clear(); enc->generate_repair();
    bytes got; for (auto& b : enc_out) got += kind(b);
    const bytes exp = em.window.empty() ? "" : "R";
    if (got != exp) flag("C09", "forced repair emitted [" + got + "] expected [" + exp + "] with " + std::to_string(em.window.size()) + " blocks retained");
    for (auto& b : enc_out) { if (kind(b) == 'R') { check_repair(b); ++em.n_rep; ++em.sent_since_ack; } }
    const auto out = enc_out; after_sender_call();
    ++st.n["forced_repairs"];
    for (auto& b : out) if (send) emit(b); else log('>', b);
    return out.empty() ? bytes() : out.back();
  }
  void give_ack(const bytes& b)
  {
    wire a; try { a = parse(b, cfg.w); } catch (const parse_error&) { return; } // reported where it was emitted
    ++st.n["acks_delivered"];
    log('<', b);
    const double exact = em.ack(a);
    if (!enc) return;
    enc_out.clear();
    std::size_t n = 0; bytes err;
    try
    {
      if (r.chance(0.3)) { const ntc::packet p(b.begin(), b.end()); n = (*enc)(p); if (p.size() != b.size() || !std::equal(b.begin(), b.end(), p.begin())) { flag("C12", "giving an ack by reference altered it"); flag("C11", "giving an ack by reference altered it"); } }
      else if (r.chance(0.1)) { ntc::packet p(b.begin(), b.end()); p.resize(b.size() + r.range(1, 40), 'x'); n = (*enc)(std::move(p)); } // trailing bytes
      else n = (*enc)(ntc::packet(b.begin(), b.end()));
    }
    catch (const std::exception& e) { err = typeid(e).name(); }
    if (!err.empty()) { flag("C12", "sender refused a genuine ack: " + err); flag("C07", "sender refused a genuine ack: " + err); }
    else if (n != a.consumed) flag("C12", "ack: " + std::to_string(n) + " bytes reported as read, packet has " + std::to_string(a.consumed));
    if (!enc_out.empty()) flag("C09", "an ack made the sender emit packets");
    if (exact > 0)
    {
      if (enc->rate() < 1 || enc->rate() > 50) flag("C09", "adaptive rate out of [1,50]: " + std::to_string(enc->rate()));
      // when the exact value is an integer, floating point may round it up to the next one; any way of computing it will do
      if (enc->rate() != em.rate) for (double x : em.rate_forms) if (enc->rate() == (u64)std::ceil(x)) { em.rate = enc->rate(); break; }
      st.add("adaptive_updates"); st.max("adaptive_rate", em.rate);
    }
    after_sender_call();
  }

  // ------------------------------------------------------------ receiver side
  void check_acks_and_schedule(bool forced)
  {
    // The ack schedule, replayed on the observed sequence of deliveries.
    bool due = false; std::size_t forced_seen = 0;
    for (std::size_t i = 0; i < ev.size(); ++i)
    {
      const auto& e = ev[i];
      if (!e.ack)
      {
        if (due) { flag("C16", "no automatic ack although due (packets since last " + std::to_string(nb_since) + "/" + std::to_string(ack_nb) + ", ms " + std::to_string((vclock() - last_auto) / 1000000) + "/" + std::to_string(ack_ms) + ")"); due = false; }
        if (!forced) due = nb_since >= ack_nb || (ack_ms != 0 && vclock() - last_auto >= (long long)ack_ms * 1000000);
        continue;
      }
      // an ack
      wire a; bool ok = true;
      try { a = parse(e.b, cfg.w); } catch (const parse_error&) { ok = false; }
      if (!ok || a.type != T_ACK) { flag("C06", "receiver emitted something that is not an ack: " + hex(e.b)); flag("C12", "unparsable ack"); continue; }
      if (a.consumed != e.b.size()) flag("C12", "ack packet has " + std::to_string(e.b.size()) + " bytes, format needs " + std::to_string(a.consumed));
      if (a.nb_packets != std::min<u64>(nb_since, 65535)) flag("C06", "ack counts " + std::to_string(a.nb_packets) + " packets, received since the previous ack: " + std::to_string(nb_since));
      // truthful
      for (std::size_t k = 0; k < a.ids.size(); ++k)
      {
        if (!dm.how.count(a.ids[k]) && !dm.maybe.count(a.ids[k])) flag("C06", "ack names block " + std::to_string(a.ids[k]) + " which was neither received nor rebuilt");
        if (k && a.ids[k] <= a.ids[k - 1]) flag("C06", "ack list not increasing");
      }
      // complete
      const std::set<u32> s(a.ids.begin(), a.ids.end());
      for (auto& kb : dm.known) if (!dm.fresh.count(kb.first) && !s.count(kb.first)) flag("C06", "ack omits held block " + std::to_string(kb.first));
      st.add("acks_checked"); st.max("ack_width", a.ids.size());
      if (e.asked) due = ack_ms != 0 && vclock() - last_auto >= (long long)ack_ms * 1000000; // the count starts again, the period does not
      else if (forced) { if (++forced_seen > 1) flag("C16", "several acks for one request"); }
      else
      {
        if (!due) flag("C16", "automatic ack not due (packets since last " + std::to_string(nb_since) + "/" + std::to_string(ack_nb) + ", ms " + std::to_string((vclock() - last_auto) / 1000000) + "/" + std::to_string(ack_ms) + ")");
        due = false; last_auto = vclock(); st.add("auto_acks");
      }
      nb_since = 0; ++n_acks_tx;
    }
    if (due) flag("C16", "no automatic ack although due (packets since last " + std::to_string(nb_since) + "/" + std::to_string(ack_nb) + ", ms " + std::to_string((vclock() - last_auto) / 1000000) + "/" + std::to_string(ack_ms) + ")");
    if (forced && !forced_seen) flag("C16", "no ack although requested");
    for (auto& e : ev) if (e.ack)
    {
      log('A', e.b);
      if (!r.chance(cfg.ack_loss)) { back.emplace(t + r.below(cfg.ack_delay + 1), e.b); if (r.chance(cfg.ack_dup)) back.emplace(t + r.below(3 * cfg.ack_delay + 3), e.b); }
      else ++st.n["acks_lost"];
    }
  }

  void give_packet(const bytes& b)
  {
    wire x; try { x = parse(b, cfg.w); } catch (const parse_error&) { return; } // reported where it was emitted
    ++st.n["packets_delivered"];
    dm.fresh.clear();
    const u64 sing0 = dm.n_singular;
    if (trace) std::printf("  give type %d id %u ids %s H %u; %s; how %zu sing %llu\n", x.type, x.id, show(x.ids).c_str(), dm.h, describe().c_str(), dm.how.size(), (unsigned long long)dm.n_singular);
    const std::vector<u32> pred = x.type == T_SOURCE ? dm.source(x.id) : dm.repair(x.id, x.ids);
    if (x.type == T_SOURCE) ++n_src_rx; else ++n_rep_rx;
    ++nb_since;
    ev.clear();
    std::size_t n = 0; bytes err;
    try
    {
      if (r.chance(0.3)) { const ntc::packet p(b.begin(), b.end()); n = (*dec)(p); if (p.size() != b.size() || !std::equal(b.begin(), b.end(), p.begin())) flag("C12", "giving a packet by reference altered it"); }
      else if (r.chance(0.1)) { ntc::packet p(b.begin(), b.end()); p.resize(b.size() + r.range(1, 40), 'x'); n = (*dec)(std::move(p)); } // trailing bytes
      else n = (*dec)(ntc::packet(b.begin(), b.end()));
    }
    catch (const std::exception& e) { err = typeid(e).name(); }
    if (!err.empty()) { flag("C12", "receiver refused a genuine packet: " + err); flag(x.type == T_SOURCE ? "C04" : "C05", "receiver refused a genuine packet: " + err); }
    else if (n != x.consumed) flag("C12", "packet: " + std::to_string(n) + " bytes reported as read, packet has " + std::to_string(x.consumed));
    log('.', bytes(1, (char)x.type));

    // ---- deliveries
    std::set<u32> pending_pred(pred.begin(), pred.end()); std::vector<std::size_t> unmatched;
    for (u32 id : pred) held.insert(id);
    for (auto& p : dm.pending) held.insert(p);
    for (std::size_t i = 0; i < ev.size(); ++i)
    {
      const auto& e = ev[i]; if (e.ack) continue;
      log('D', e.b); ++st.n["deliveries"];
      if (!e.aligned) flag("C19", "delivered data not on a 16-byte boundary");
      const auto it = by_content.find(e.b);
      if (it == by_content.end()) { flag("C01", "delivered data was never submitted: size " + std::to_string(e.b.size()) + " " + hex(e.b) + " while expecting " + (pred.empty() ? bytes("nothing") : "block " + std::to_string(pred[0]) + " of size " + std::to_string(truth[pred[0]]->size()) + " " + hex(*truth[pred[0]]))); unmatched.push_back(i); continue; }
      if (++delivered_count[e.b] > it->second.size()) { flag("C02", "block delivered more often than submitted, e.g. block " + std::to_string(it->second[0]) + " " + hex(e.b)); continue; }
      // which block is it?
      bool found = false; u32 id = 0;
      for (u32 c : it->second) if (pending_pred.count(c)) { id = c; found = true; break; }
      if (!found) for (u32 c : it->second) if (!delivered.count(c)) { id = c; found = true; break; }
      if (!found) { flag("C02", "block delivered twice"); continue; }
      if (it->second.size() == 1 && delivered.count(id)) flag("C02", "block " + std::to_string(id) + " delivered twice");
      if (cfg.in_order)
      {
        if (any_delivered && id <= last_delivered) flag("C03", "block " + std::to_string(id) + " delivered after block " + std::to_string(last_delivered));
        else
          for (u32 j = any_delivered ? last_delivered + 1 : cfg.start_id; j != id; ++j)
            if (!dm.has_h || j >= dm.h) { flag("C03", "block " + std::to_string(j) + " skipped although still protected (oldest protected block: " + (dm.has_h ? std::to_string(dm.h) : bytes("none known")) + "), delivered " + std::to_string(id)); break; }
        if (!any_delivered || id > last_delivered) last_delivered = id;
        any_delivered = true;
      }
      if (!pending_pred.count(id)) st.add("deliveries_ahead_of_model");
      if (!dm.how.count(id)) dm.absorb(id);
      delivered.insert(id); held.erase(id); pending_pred.erase(id);
    }
    // corrupted deliveries stand for whatever is left
    for (std::size_t k = 0; k < unmatched.size() && !pending_pred.empty(); ++k)
    { const u32 id = *pending_pred.begin(); pending_pred.erase(pending_pred.begin()); delivered.insert(id); held.erase(id); if (cfg.in_order) { last_delivered = std::max(last_delivered, id); any_delivered = true; } }

    if (!cfg.in_order)
    {
      for (u32 id : pending_pred)
        if (dm.how[id] == 'd') flag("C04", "block " + std::to_string(id) + " arrived but was not delivered in that call");
        else flag("C05", "block " + std::to_string(id) + " is determined by the received repairs but was not rebuilt; " + describe());
      for (u32 id : pending_pred) { held.erase(id); delivered.insert(id); }
    }
    else if (!held.empty())
    {
      // held = obtained (per model), not handed over.  The first one must be blocked by an older,
      // still protected, undelivered block.
      std::vector<u32> hv(held.begin(), held.end());
      for (u32 id : hv)
      {
        if (dm.has_h && id < dm.h)
        {
          const bytes m = "held block " + std::to_string(id) + " was passed over: sender protects only from " + std::to_string(dm.h);
          flag("C03", m); flag(dm.how[id] == 'd' ? "C04" : "C05", m); held.erase(id); delivered.insert(id);
        }
      }
      for (;;)
      {
        if (held.empty()) break;
        const u32 id = *held.begin();
        u32 lo = dm.has_h ? dm.h : cfg.start_id; if (!dm.has_h) lo = 0;
        bool blocked = false;
        for (u32 j = lo; j < id && !blocked; ++j) if (!delivered.count(j)) blocked = true;
        if (blocked) break;
        const bytes m = "block " + std::to_string(id) + (dm.how[id] == 'd' ? " arrived" : " can be rebuilt") + " and all older blocks are delivered or abandoned, but it was not delivered; " + describe();
        flag(dm.how[id] == 'd' ? "C04" : "C05", m);
        held.erase(id); delivered.insert(id);
      }
    }
    check_acks_and_schedule(false);
    after_receiver_call();
    st.max("missing", dm.missing().size()); if (dm.n_singular != sing0) st.add("singular_systems");
  }
  bytes describe() const
  {
    bytes s = "held repairs: "; int k = 0;
    for (auto& e : dm.eqs) { if (k++ > 6) { s += "..."; break; } s += std::to_string(e.rid) + show(std::vector<u32>(e.unknown.begin(), e.unknown.end())) + " "; }
    return s;
  }
  void after_receiver_call()
  {
    if (dec->nb_received_sources() != n_src_rx) flag("C17", "received sources counter " + std::to_string(dec->nb_received_sources()) + " given " + std::to_string(n_src_rx));
    if (dec->nb_received_repairs() != n_rep_rx) flag("C17", "received repairs counter " + std::to_string(dec->nb_received_repairs()) + " given " + std::to_string(n_rep_rx));
    if (dec->nb_sent_acks() != n_acks_tx) flag("C17", "sent acks counter " + std::to_string(dec->nb_sent_acks()) + " observed " + std::to_string(n_acks_tx));
    const u64 failed = dec->nb_failed_full_decodings();
    if (failed < last_failed) flag("C17", "the counter of failed decodings went back");
    last_failed = failed;
    if (failed && !dm.ever_soft) flag("C17", "failed decodings counter " + std::to_string(failed) + " although all repairs were independent");
    if (!failed && dm.ever_soft) flag("C17", "failed decodings counter is zero although as many repairs as missing blocks were dependent");
    if (dm.ever_soft && cfg.in_order)
    { if (dec->nb_decoded() < dm.n_rebuilt || dec->nb_decoded() > dm.n_rebuilt + dm.maybe.size()) flag("C17", "rebuilt counter " + std::to_string(dec->nb_decoded()) + " expected between " + std::to_string(dm.n_rebuilt) + " and " + std::to_string(dm.n_rebuilt + dm.maybe.size())); return; }
    if (dec->nb_decoded() != dm.n_rebuilt) flag("C17", "rebuilt counter " + std::to_string(dec->nb_decoded()) + " expected " + std::to_string(dm.n_rebuilt));
    if (dec->nb_useless_repairs() != dm.n_useless) flag("C17", "useless repairs counter " + std::to_string(dec->nb_useless_repairs()) + " expected " + std::to_string(dm.n_useless));
    if (want("C17") || want("C05"))
    {
      const auto m = dm.missing().size();
      if (dec->nb_missing_sources() != m) flag("C17", "missing counter " + std::to_string(dec->nb_missing_sources()) + " expected " + std::to_string(m));
    }
    if (!ack_cur.empty()) flag("C12", "bytes without end-of-packet call");
    st.add("receiver_calls_checked");
  }
  void request_ack()
  {
    dm.fresh.clear(); ev.clear(); dec->generate_ack();
    for (auto& e : ev) if (!e.ack) flag("C02", "an ack request delivered data");
    if (want("C06")) for (auto& e : ev) if (e.ack)
    {
      wire a; try { a = parse(e.b, cfg.w); } catch (const parse_error&) { continue; }
      std::vector<u32> exp; for (auto& k : dm.known) exp.push_back(k.first);
      if (dm.ever_soft && cfg.in_order)
      {
        const std::set<u32> have(a.ids.begin(), a.ids.end());
        for (u32 i : exp) if (!have.count(i)) flag("C06", "requested ack omits held block " + std::to_string(i));
        continue;
      }
      if (a.ids != exp) flag("C06", "requested ack lists " + show(a.ids) + " but the receiver holds " + show(exp));
    }
    check_acks_and_schedule(true);
    after_receiver_call(); ++st.n["acks_requested"];
  }

  // ------------------------------------------------------------ running
  void pump_data() { while (!fwd.empty()) { auto b = fwd.begin()->second; fwd.erase(fwd.begin()); give_packet(b); } }
  void pump(bool all = false)
  {
    while (!fwd.empty() && (all || fwd.begin()->first <= t)) { auto b = fwd.begin()->second; fwd.erase(fwd.begin()); give_packet(b); }
    while (!back.empty() && (all || back.begin()->first <= t)) { auto b = back.begin()->second; back.erase(back.begin()); give_ack(b); }
  }
  // Settings which do not fit in the smaller integer types.
  static u64 big(rng& r) { static const u64 b[] = {256, 65536, 1ull << 31, 1ull << 32, 1ull << 33}; return b[r.below(5)] + r.below(20); }
  void step()
  {
    ++t;
    if (r.chance(cfg.p_tick)) vclock() += (long long)r.range(1, 60) * (r.chance(0.5) ? 1000000 : 999999);
    const double x = r.below(1000) / 1000.0;
    if (x < cfg.p_forced) forced_repair();
    else if (x < cfg.p_forced + cfg.p_genack) request_ack();
    else if (cfg.wild && x > 0.97)
    {
      switch (r.below(8))
      {
        case 0: case 1: set_limit(r.chance(0.15) ? ~0ull : r.chance(0.1) ? big(r) : r.range(1, 24)); break;
        case 2: set_rate(r.chance(0.1) ? 100000 : r.chance(0.1) ? big(r) : r.range(1, 9)); break;
        case 3: set_systematic(r.chance(0.6)); break;
        case 4: set_adaptive(r.chance(0.5)); break;
        case 5: set_ack_nb((unsigned)(r.chance(0.1) ? r.range(129, 400) : r.chance(0.05) ? r.range(65400, 65535) : r.range(1, 60))); break;
        case 6: set_ack_ms(r.chance(0.3) ? 0 : r.chance(0.1) ? (long)big(r) : (long)r.range(1, 300)); break;
        default: vclock() += (long long)r.range(90, 500) * 1000000; break;
      }
      check_settings("after a change"); ++st.n["setting_changes"];
    }
    else submit();
    pump();
  }
  // Too many unknowns make every single decoding attempt slow; such runs end early.
  bool too_wide() const { return dm.eqs.size() > 20 && dm.missing().size() > (cfg.w == 4 ? 32u : 64u); }
  void run() { for (unsigned i = 0; i < cfg.steps && !(i % 8 == 0 && too_wide()); ++i) step(); pump(r.chance(0.5)); }

  // The fault-free suffix.  Returns false if the coefficients never became independent.
  bool heal()
  {
    if (em.window.empty()) return true;
    if (r.chance(0.5)) { fwd.clear(); back.clear(); } else pump(true);
    if (em.window.empty()) return true;
    std::size_t unknown = 0; for (auto& p : em.window) if (!dm.known.count(p.first)) ++unknown;
    if (unknown > (cfg.w == 4 ? 14u : 48u)) { st.add("heals_skipped_wide"); return false; }
    const std::size_t start_missing = em.window.size();
    bool complete = false; unsigned sent = 0; const unsigned cap = (unsigned)(em.window.size() + 60);
    while (sent < cap)
    {
      const bytes b = forced_repair(false); ++sent;
      if (b.empty()) { flag("C24", "sender retains blocks but emits no repair"); return true; }
      give_packet(b);
      complete = true; for (auto& p : em.window) if (!dm.known.count(p.first)) { complete = false; break; }
      if (complete) break;
      // acks may flow as well
      if (!back.empty()) { back.clear(); }
    }
    if (!complete) { st.add("heal_rank_never_reached"); return false; }
    for (auto& p : em.window) if (!delivered.count(p.first)) flag("C24", "block " + std::to_string(p.first) + " is retained by the sender, enough repairs arrived, but it was never delivered");
    back.clear(); ev.clear();
    dec->generate_ack();
    bytes a; for (auto& e : ev) if (e.ack) a = e.b;
    if (a.empty()) { flag("C24", "no ack on request"); return true; }
    nb_since = 0; ++n_acks_tx;
    if (enc)
    {
      enc_out.clear();
      try { (*enc)(ntc::packet(a.begin(), a.end())); } catch (const std::exception& e) { flag("C24", bytes("ack refused: ") + typeid(e).name()); }
      try { em.ack(parse(a, cfg.w)); } catch (const parse_error&) { flag("C24", "unparsable ack"); }
      if (enc->window() != 0) flag("C24", "window still holds " + std::to_string(enc->window()) + " blocks after everything was delivered and acknowledged");
    }
    else { em.ack(parse(a, cfg.w)); if (!em.window.empty()) flag("C24", "the final ack does not cover every retained block"); }
    st.add("heals"); st.max("heal_repairs", sent); st.add("heal_blocks_outstanding", start_missing);
    return true;
  }
};

inline config random_config(rng& r, bool thorough)
{
  config c;
  static const unsigned ws[] = {4, 8, 8, 16, 32};
  c.w = ws[r.below(5)]; c.in_order = r.chance(0.55); c.systematic = r.chance(0.75); c.adaptive = r.chance(0.2);
  c.ref_sender = r.chance(0.12);
  c.rate = r.chance(0.08) ? 100000 : r.chance(0.3) ? 1 : r.range(1, 8);
  c.limit = r.chance(0.35) ? ~0ull : r.chance(0.1) ? 1 : r.range(1, 30);
  if (c.ref_sender && r.chance(0.8))
  {
    static const u32 s[] = {255u, 65530u, 0x7fffffe0u, 0xfffff000u, 1000000u, 0x80000000u};
    c.start_id = s[r.below(6)] + (u32)r.below(16); c.start_rid = r.chance(0.5) ? s[r.below(6)] + (u32)r.below(16) : 0;
  }
  static const double losses[] = {0, 0.02, 0.1, 0.2, 0.3, 0.5, 0.7};
  c.loss = losses[r.below(7)]; c.burst_stay = r.chance(0.3) ? 0.6 : 0; c.dup = r.chance(0.4) ? r.below(30) / 100.0 : 0;
  c.delay = r.chance(0.45) ? 0 : (unsigned)r.range(1, r.chance(0.3) ? 60 : 8);
  c.ack_loss = r.chance(0.5) ? 0 : r.chance(0.2) ? 1 : r.below(90) / 100.0; c.ack_delay = r.chance(0.5) ? 0 : (unsigned)r.range(1, 30); c.ack_dup = r.chance(0.3) ? 0.2 : 0;
  c.sizes = (int)(r.chance(0.04) ? 6 : r.below(6)); if (r.chance(0.05)) c.sizes = 7;
  c.steps = (unsigned)(r.chance(0.1) ? r.range(300, thorough ? 3000 : 600) : r.range(20, 160));
  if (c.sizes == 6) c.steps = std::min(c.steps, 60u);
  if (c.sizes == 3) c.steps = std::min(c.steps, 250u);
  c.wild = r.chance(0.4);
  c.p_forced = r.chance(0.3) ? 0.2 : 0.02; c.p_genack = r.chance(0.3) ? 0.1 : 0.02;
  if (r.chance(0.25)) { c.p_outage = 0.03; c.outage_len = (unsigned)r.range(3, 40); }
  if (r.chance(0.12)) c.p_handler_ack = r.chance(0.5) ? 0.03 : 0.4;
  c.ack_nb = r.chance(0.5) ? (unsigned)r.range(1, 12) : (unsigned)r.range(1, 200); c.ack_ms = r.chance(0.4) ? 0 : (long)r.range(1, 200);
  c.p_tick = r.chance(0.5) ? 0.2 : 0.6;
  if (c.limit == ~0ull && c.steps > 200) c.ack_loss = std::min(c.ack_loss, 0.5);
  return c;
}

} // namespace vf

// Virtual monotonic clock: every clock read of the library goes through these.
#ifdef VF_VIRTUAL_CLOCK
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vf::vclock())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf::vclock())); }
}}}
#endif
