// C15: distinct senders and receivers, alone, interleaved on one thread, nested in each other's
// callbacks, and on several threads at once: same transcripts, no data race.
#define VF_VIRTUAL_CLOCK 1
#include "session.hh"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <queue>
#include <thread>
using namespace vf;
static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C15", m); }

// What an endpoint emitted or delivered, in order.
struct log_t { std::vector<u64> h; void add(char k, const bytes& b) { h.push_back(fnv(b, 7919 + (u64)(u8)k)); } };
struct hp { log_t* l; bytes* cur; std::vector<bytes>* out; void operator()(const char* p, std::size_t n) { cur->append(p, n); } void operator()() { l->add('P', *cur); out->push_back(*cur); cur->clear(); } };
struct hd { log_t* l; std::function<void(const bytes&)>* f; void operator()(const char* p, std::size_t n) { const bytes b(p, n); l->add('D', b); if (*f) (*f)(b); } };

static bytes block(rng& r, unsigned w)
{
  const unsigned k = w == 16 ? 2 : w == 32 ? 4 : 1; std::size_t n = r.chance(0.85) ? r.range(1, 200) : r.range(200, 3000); n = std::max<std::size_t>(k, n / k * k);
  bytes b(n, 0); for (auto& c : b) c = (char)r.next(); return b;
}
struct sender
{
  log_t l; bytes cur; std::vector<bytes> out; unsigned w; ntc::encoder<hp> e;
  explicit sender(unsigned w_) : w(w_), e((u8)w_, hp{&l, &cur, &out}) {}
};
struct receiver
{
  log_t l; bytes cur; std::vector<bytes> acks; std::function<void(const bytes&)> on_data; ntc::decoder<hp, hd> d;
  receiver(unsigned w, bool ord) : d((u8)w, ord ? ntc::in_order::yes : ntc::in_order::no, hp{&l, &cur, &acks}, hd{&l, &on_data}) {}
};
// A sender and a receiver with a faulty channel; fully determined by the seed.
struct pipe_t
{
  rng r; unsigned w; bool ord; long long clk = 1000000000ll; std::unique_ptr<sender> tx; std::unique_ptr<receiver> rx; unsigned steps; unsigned at = 0;
  explicit pipe_t(u64 seed, unsigned w_, unsigned n) : r(seed), w(w_), steps(n)
  {
    vclock() = clk; ord = r.chance(0.5); tx.reset(new sender(w)); rx.reset(new receiver(w, ord));
    tx->e.set_rate(r.range(1, 5)); tx->e.set_window_size(r.range(2, 24)); tx->e.set_adaptive(r.chance(0.3)); if (r.chance(0.2)) tx->e.set_code_type(ntc::systematic::no);
    rx->d.set_ack_nb_packets((u16)r.range(2, 40)); rx->d.set_ack_period(std::chrono::milliseconds(r.chance(0.5) ? 0 : r.range(1, 60)));
  }
  bool done() const { return at >= steps; }
  void step()
  {
    vclock() = clk; clk += (long long)r.below(20) * 1000000; ++at;
    const u64 k = r.below(20);
    if (k == 0) tx->e.generate_repair(); else if (k == 1) rx->d.generate_ack();
    else { const bytes b = block(r, w); tx->e(ntc::data(b.begin(), b.end())); }
    auto o = tx->out; tx->out.clear();
    for (auto& p : o) if (r.chance(0.7)) rx->d(ntc::packet(p.begin(), p.end()));
    auto a = rx->acks; rx->acks.clear();
    for (auto& p : a) if (r.chance(0.6)) tx->e(ntc::packet(p.begin(), p.end()));
    rx->l.h.push_back(rx->d.nb_decoded()); rx->l.h.push_back(rx->d.nb_missing_sources()); tx->l.h.push_back(tx->e.window()); tx->l.h.push_back(tx->e.rate());
    if (rx->d.nb_missing_sources() > 40) at = steps;
  }
  std::vector<u64> transcript() const { auto v = tx->l.h; v.push_back(0); v.insert(v.end(), rx->l.h.begin(), rx->l.h.end()); return v; }
};
static std::vector<u64> solo(u64 seed, unsigned w, unsigned n) { pipe_t p(seed, w, n); while (!p.done()) p.step(); return p.transcript(); }

static void one(u64 c, const options& o, stats& st)
{
  rng r(mix(o.seed, c + 600)); static const unsigned ws[] = {4, 8, 16, 32}; u64 h = c;
  const unsigned n = 6, steps = o.thorough() ? 120 : 60; const u64 mode = c % 4;
  std::vector<u64> seeds; std::vector<unsigned> w; std::vector<std::vector<u64>> alone;
  const unsigned same = ws[r.below(4)]; const bool all_same = r.chance(0.5);
  for (unsigned i = 0; i < n; ++i) { seeds.push_back(r.next()); w.push_back(all_same ? same : ws[r.below(4)]); alone.push_back(solo(seeds[i], w[i], steps)); for (u64 x : alone[i]) h = mix(h, x); st.add("events", alone[i].size()); }
  auto cmp = [&](unsigned i, const std::vector<u64>& t, const char* how) { if (t != alone[i]) bad(bytes("a sender and receiver pair (w=") + s(w[i]) + ") behaves differently " + how); st.add("transcripts_compared"); };
  if (mode == 0) // interleaved on one thread
  {
    std::vector<std::unique_ptr<pipe_t>> p; for (unsigned i = 0; i < n; ++i) p.emplace_back(new pipe_t(seeds[i], w[i], steps));
    for (bool more = true; more;) { more = false; for (unsigned k = 0; k < n; ++k) { const unsigned i = (unsigned)r.below(n); if (!p[i]->done()) { p[i]->step(); } } for (auto& x : p) more |= !x->done(); }
    for (unsigned i = 0; i < n; ++i) cmp(i, p[i]->transcript(), "when interleaved with others on one thread");
    st.add("interleaved_runs");
  }
  else if (mode == 1) // nested: a receiver's callback drives another sender, whose packets go to another receiver
  {
    const unsigned w2 = ws[r.below(4)]; const u64 sd = r.next();
    auto relay = [&](bool nested) -> std::pair<std::vector<u64>, std::vector<u64>>
    {
      vclock() = 1000000000ll;
      sender t2(w2); receiver r2(w2, true); t2.e.set_rate(2); t2.e.set_window_size(8); r2.d.set_ack_period(std::chrono::milliseconds(0));
      pipe_t p(sd, w[0], steps); rng rr(sd + 1); std::vector<bytes> later;
      auto hop = [&](const bytes& b)
      { bytes x = b; while (x.size() % 4) x += 'p'; t2.e(ntc::data(x.begin(), x.end())); auto o = t2.out; t2.out.clear(); for (auto& q : o) if (rr.chance(0.8)) r2.d(ntc::packet(q.begin(), q.end())); r2.acks.clear(); };
      p.rx->on_data = [&](const bytes& b) { if (nested) hop(b); else later.push_back(b); };
      while (!p.done()) p.step();
      for (auto& b : later) hop(b);
      auto v = t2.l.h; v.insert(v.end(), r2.l.h.begin(), r2.l.h.end());
      return {p.transcript(), v};
    };
    const auto a = relay(false), b = relay(true);
    if (a.first != b.first) bad("a receiver behaves differently when its callback uses another sender");
    if (a.second != b.second) bad("a sender behaves differently when used inside the callback of another receiver");
    st.add("transcripts_compared", 2); st.add("nested_runs");
  }
  else if (mode == 2) // one pair per thread; objects created and destroyed concurrently
  {
    std::vector<std::vector<u64>> got(n); std::atomic<unsigned> ready{0}; std::vector<std::thread> th; std::atomic<unsigned> overlap{0}, running{0};
    for (unsigned i = 0; i < n; ++i) th.emplace_back([&, i]
    {
      ++ready; while (ready < n) std::this_thread::yield();
      ++running; got[i] = solo(seeds[i], w[i], steps); if (running.load() > 1) ++overlap; --running;
    });
    for (auto& t : th) t.join();
    for (unsigned i = 0; i < n; ++i) cmp(i, got[i], "when others run on other threads");
    st.add("concurrent_runs"); st.add("threads_that_overlapped", overlap);
  }
  else // a sender on one thread, its receiver on another, several times
  {
    struct chan { std::mutex m; std::condition_variable cv; std::queue<bytes> q; bool end = false; };
    const unsigned pairs = 3; std::vector<std::vector<u64>> ref(pairs), got(pairs);
    auto drive = [&](unsigned i, bool threaded)
    {
      chan ch; sender* txp = nullptr; (void)txp; std::vector<u64> te, tr; std::mutex mm;
      auto sendf = [&] { vclock() = 1000000000ll; rng q(seeds[i]); sender t(w[i]); t.e.set_rate(1 + i); t.e.set_window_size(12); for (unsigned k = 0; k < steps; ++k) { const bytes b = block(q, w[i]); t.e(ntc::data(b.begin(), b.end())); for (auto& p : t.out) if (q.chance(0.75)) { std::lock_guard<std::mutex> g(ch.m); ch.q.push(p); ch.cv.notify_one(); } t.out.clear(); } { std::lock_guard<std::mutex> g(ch.m); ch.end = true; ch.cv.notify_one(); } te = t.l.h; };
      auto recvf = [&] { vclock() = 1000000000ll; receiver x(w[i], i % 2); x.d.set_ack_period(std::chrono::milliseconds(0)); for (;;) { bytes p; { std::unique_lock<std::mutex> g(ch.m); ch.cv.wait(g, [&]{ return ch.end || !ch.q.empty(); }); if (ch.q.empty()) break; p = ch.q.front(); ch.q.pop(); } x.d(ntc::packet(p.begin(), p.end())); x.acks.clear(); } tr = x.l.h; };
      if (threaded) { std::thread a(sendf), b(recvf); a.join(); b.join(); } else { sendf(); recvf(); }
      te.insert(te.end(), tr.begin(), tr.end()); return te;
    };
    for (unsigned i = 0; i < pairs; ++i) ref[i] = drive(i, false);
    std::vector<std::thread> th; for (unsigned i = 0; i < pairs; ++i) th.emplace_back([&, i]{ got[i] = drive(i, true); });
    for (auto& t : th) t.join();
    for (unsigned i = 0; i < pairs; ++i) { if (ref[i] != got[i]) bad("a sender and its receiver on different threads behave differently"); st.add("transcripts_compared"); for (u64 x : got[i]) h = mix(h, x); }
    st.add("split_runs");
  }
  ++st.evaluations; ++st.nontrivial; st.distinct.insert(h);
  static const char* names[] = {"interleaved on one thread", "nested in callbacks", "one pair per thread", "sender and receiver on different threads"};
  if (st.samples.size() < 4) st.sample("case " + s(c) + ": " + names[mode] + ", " + s(n) + " pairs of " + s(steps) + " steps compared with running alone", 4);
}
int main(int argc, char** argv) { options o(argc, argv); return run_cases(o, one); }
