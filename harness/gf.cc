// C22: the field and the matrix inversion used by the library against an independent field.
#include "common.hh"
#include "netcode/detail/galois_field.hh"
#include "netcode/detail/invert_matrix.hh"
#include "netcode/detail/square_matrix.hh"
using namespace vf;
namespace d = ntc::detail;

static bytes s(u64 x) { return std::to_string(x); }
static void bad(const bytes& m) { throw violation("C22", m); }

// 16-byte aligned storage of exactly n bytes, so that any overrun is seen by the sanitizer
struct buf { char* p; std::size_t n; explicit buf(std::size_t n_) : p(nullptr), n(n_) { void* q = nullptr; if (posix_memalign(&q, 16, n_ ? n_ : 1)) std::abort(); p = (char*)q; } ~buf() { free(p); } buf(const buf&) = delete; };

template <class G> auto size_of(const G& g, int, unsigned) -> decltype((unsigned)g.size()) { return (unsigned)g.size(); }
template <class G> unsigned size_of(const G&, long, unsigned w) { return w; }
static void scalars(u64 c, unsigned w, rng& r, stats& st)
{
  d::galois_field gf((u8)w); const auto& f = field(w);
  if (size_of(gf, 0, w) != w) bad("size() is " + s(size_of(gf, 0, w)) + " for a field of " + s(w));
  const u32 mask = w == 32 ? 0xffffffffu : (1u << w) - 1;
  auto check = [&](u32 a, u32 b)
  {
    const u32 e = rf_slow(w, a, b), g = gf.multiply(a, b);
    if (g != e) bad("w=" + s(w) + ": " + s(a) + " * " + s(b) + " = " + s(g) + " instead of " + s(e));
    st.add("products");
  };
  auto check_inv = [&](u32 a)
  {
    if (!a) return;
    const u32 i = gf.invert(a);
    if (i > mask || rf_slow(w, a, i) != 1) bad("w=" + s(w) + ": inverse of " + s(a) + " is " + s(i) + ", product " + s(rf_slow(w, a, i)));
    st.add("inverses");
  };
  if (w <= 8) { for (u32 a = 0; a <= mask; ++a) { for (u32 b = 0; b <= mask; ++b) check(a, b); check_inv(a); } }
  else for (int i = 0; i < 4000; ++i) { const u32 a = r.chance(0.1) ? (u32)r.below(4) : (u32)r.next() & mask; check(a, (u32)r.next() & mask); check(a, r.chance(0.3) ? mask : (u32)r.below(300) & mask); check_inv((u32)r.next() & mask); check_inv(1u << r.below(w));
    const u32 e1 = (r.chance(0.5) ? mask - (u32)r.below(20) : (1u << r.below(w)) + (u32)r.below(3) - 1) & mask, e2 = (r.chance(0.5) ? mask - (u32)r.below(20) : (1u << r.below(w)) + (u32)r.below(3) - 1) & mask;
    check(e1, e2); check(e1, e1); check_inv(e1); check(a, a); }
  if (w == 16 && c % 8 == 0) for (u32 a = 1; a <= mask; ++a) check_inv(a);
  // coefficients
  for (int i = 0; i < 6000; ++i)
  {
    const u32 rid = r.chance(0.2) ? 0xffffffffu - (u32)r.below(40) : r.chance(0.5) ? (u32)r.below(70000) : (u32)r.next();
    const u32 sid = r.chance(0.2) ? 0xffffffffu - rid - (u32)r.below(4) : r.chance(0.5) ? (u32)r.below(70000) : (u32)r.next();
    const u32 k = gf.coefficient(rid, sid);
    if (k == 0 || k > mask) bad("w=" + s(w) + ": coefficient(" + s(rid) + "," + s(sid) + ") = " + s(k));
    if (k != f.coeff(rid, sid)) bad("w=" + s(w) + ": coefficient(" + s(rid) + "," + s(sid) + ") = " + s(k) + ", published formula gives " + s(f.coeff(rid, sid)));
    st.add("coefficients");
  }
  // Sizes: an encoded size must be recoverable
  for (int i = 0; i < 3000; ++i)
  {
    const u32 sz = r.chance(0.1) ? 65535 : (u32)r.range(1, 65535); const u32 k = gf.coefficient((u32)r.next(), (u32)r.next());
    const u32 e = gf.multiply_size(sz, k); 
    if (e != f.mul_size((u16)sz, k)) bad("w=" + s(w) + ": multiply_size(" + s(sz) + "," + s(k) + ") = " + s(e) + " instead of " + s(f.mul_size((u16)sz, k)));
    const u32 back = gf.multiply_size(e, gf.invert(k));
    if (back != sz) bad("w=" + s(w) + ": size " + s(sz) + " encoded with " + s(k) + " decodes to " + s(back));
    st.add("sizes");
  }
  st.distinct.insert(mix(mix(c, w), 1)); st.nontrivial++;
}
static void regions(u64 c, unsigned w, rng& r, stats& st)
{
  d::galois_field gf((u8)w); const u32 mask = w == 32 ? 0xffffffffu : (1u << w) - 1; const unsigned k = w == 16 ? 2 : w == 32 ? 4 : 1;
  for (int i = 0; i < 150; ++i)
  {
    std::size_t n = (r.chance(0.5) ? r.range(1, 70) : r.chance(0.1) ? r.range(3000, 65535) : r.range(1, 1500)) / k * k; if (!n) n = k;
    buf a(n), b(n); bytes ra(n, 0), rb(n, 0);
    for (std::size_t j = 0; j < n; ++j) { ra[j] = a.p[j] = (char)r.next(); rb[j] = b.p[j] = (char)r.next(); }
    u32 co = (u32)r.next() & mask; if (r.chance(0.15)) co = 1; if (!co) co = 1;
    const bool add = r.chance(0.6);
    if (add) gf.multiply_add(a.p, b.p, n, co); else { gf.multiply(a.p, b.p, n, co); std::fill(rb.begin(), rb.end(), 0); }
    rf_axpy(w, &rb[0], ra.data(), n, co);
    if (bytes(b.p, n) != rb) bad("w=" + s(w) + ": region of " + s(n) + " bytes " + (add ? "multiply_add" : "multiply") + " by " + s(co) + " is wrong");
    if (bytes(a.p, n) != ra) bad("w=" + s(w) + ": region operation altered its source");
    st.add("regions"); st.distinct.insert(mix(mix(n, co), mix(w, (u64)add)));
  }
  st.nontrivial++;
}
static void matrices(u64 c, unsigned w, rng& r, stats& st)
{
  d::galois_field gf((u8)w); const auto& f = field(w); const u32 mask = w == 32 ? 0xffffffffu : (1u << w) - 1;
  for (int it = 0; it < 40; ++it)
  {
    const bool big = it == 0 && c / 16 % 6 == 0; // as after a long outage
    const std::size_t n = big ? r.range(100, 280) : r.chance(0.6) ? r.range(1, 6) : r.chance(0.8) ? r.range(6, 20) : r.range(20, 40);
    std::vector<std::vector<u32>> col(n, std::vector<u32>(n)); // columns
    const int mode = (int)r.below(5);
    if (mode == 4) { // as met by the decoder: structured coefficients, some holes
      const u32 r0 = (u32)r.below(1000), s0 = (u32)r.below(1000);
      for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) col[i][j] = r.chance(0.1) ? 0 : f.coeff(r0 + (u32)i, s0 + (u32)j); }
    else
    {
      const double z = mode == 0 ? 0.0 : mode == 1 ? 0.5 : 0.8;
      for (auto& x : col) for (auto& y : x) y = r.chance(z) ? 0 : (mode == 2 && r.chance(0.5)) ? 1 : (u32)r.next() & mask;
      if (mode >= 2 && n >= 2) // force a dependency: one column is a combination of others
      {
        const std::size_t t = r.below(n); std::fill(col[t].begin(), col[t].end(), 0);
        const std::size_t m = r.below(4); for (std::size_t q = 0; q < m; ++q) { const std::size_t o = r.below(n); if (o == t) continue; const u32 k = (u32)r.next() & mask; for (std::size_t j = 0; j < n; ++j) col[t][j] ^= f.mul(k, col[o][j]); }
      }
    }
    std::vector<u32> flat; for (auto& x : col) flat.insert(flat.end(), x.begin(), x.end()); std::vector<u8> kept(n);
    const u32 rank = rf_reduce(w, flat.data(), n, n, kept.data());
    d::square_matrix m(n), inv(n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { m(j, i) = col[i][j]; inv(j, i) = 0xdeadbeef; }
    const auto res = d::invert(gf, m, inv);
    const bytes what = "w=" + s(w) + " n=" + s(n) + " rank=" + s(rank) + ": ";
    if (!res != (rank == n)) bad(what + (res ? "an invertible matrix was refused" : "a singular matrix was inverted"));
    if (!res)
    {
      if (big) // the inverse is applied to whole columns picked at random and to random vectors
      {
        for (int q = 0; q < 6; ++q)
        {
          std::vector<u32> v(n), u(n); if (q < 4) v[q == 0 ? n - 1 : r.below(n)] = 1; else for (auto& x : v) x = (u32)r.next() & mask;
          for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < n; ++k) u[i] ^= f.mul(inv(i, k), v[k]);
          for (std::size_t i = 0; i < n; ++i) { u32 x = 0; for (std::size_t k = 0; k < n; ++k) x ^= f.mul(col[k][i], u[k]); if (x != v[i]) bad(what + "the product with the inverse is not the identity"); }
        }
        st.add("large_inverted"); st.max("dimension", n);
      }
      else for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j)
      { // sum_k A(i,k) inv(k,j)
        u32 x = 0; for (std::size_t k = 0; k < n; ++k) x ^= f.mul(col[k][i], inv(k, j));
        if (x != (i == j ? 1u : 0u)) bad(what + "the product with the inverse is not the identity");
      }
      st.add("inverted");
    }
    else
    {
      if (*res >= n) bad(what + "designates column " + s(*res));
      auto rest = col; rest.erase(rest.begin() + (long)*res);
      const unsigned rr = rest.empty() ? 0 : f.rank(rest);
      if (rr != rank) bad(what + "designated column " + s(*res) + " is not a combination of the others (rank without it " + s(rr) + ")");
      st.add("singular");
    }
    u64 h = w; for (auto& x : col) for (u32 y : x) h = mix(h, y);
    st.distinct.insert(h);
  }
  st.nontrivial++;
}
int main(int argc, char** argv)
{
  options o(argc, argv);
  return run_cases(o, [](u64 c, const options& o, stats& st)
  {
    rng r(mix(o.seed, c)); static const unsigned ws[] = {4, 8, 16, 32}; const unsigned w = ws[c % 4];
    const u64 k = c / 4 % 4;
    if (k == 0) scalars(c, w, r, st); else if (k == 1) regions(c, w, r, st); else matrices(c, w, r, st);
    ++st.evaluations;
    if (st.samples.size() < 3) st.sample("case " + s(c) + ": field of " + s(w) + " bits, " + (k == 0 ? "scalar products, inverses, coefficients and sizes" : k == 1 ? "150 region operations" : "40 matrices of dimension 1 to 40 (some up to 280), regular and singular"));
  });
}
