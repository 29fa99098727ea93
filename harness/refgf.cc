// Reference field arithmetic (plain polynomial arithmetic with log tables).  Nothing is shared with
// gf_complete.  Compiled without sanitizers and without any C++ library code, for speed.
#include <cstdint>
#include <cstdlib>
#include <cstring>
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;
namespace {
struct tab { u64 poly; u32* lg; u32* ex; unsigned w; } T[3];
u64 slow(unsigned w, u64 poly, u64 a, u64 b) { u64 r = 0; while (b) { if (b & 1) r ^= a; b >>= 1; a <<= 1; if (a >> w & 1) a ^= poly; } return r; }
struct init
{
  init()
  {
    const unsigned ws[3] = {4, 8, 16}; const u64 ps[3] = {0x13, 0x11d, 0x1100b};
    for (int k = 0; k < 3; ++k)
    {
      const u32 n = (1u << ws[k]) - 1; T[k].w = ws[k]; T[k].poly = ps[k];
      T[k].lg = (u32*)std::calloc(n + 1, 4); T[k].ex = (u32*)std::calloc(2 * n + 2, 4);
      u32 x = 1; for (u32 i = 0; i < n; ++i) { T[k].ex[i] = T[k].ex[i + n] = x; T[k].lg[x] = i; x = (u32)slow(ws[k], ps[k], x, 2); }
      if (x != 1) std::abort();
    }
  }
} the_init;
inline const tab& t(unsigned w) { return T[w == 4 ? 0 : w == 8 ? 1 : 2]; }
}
extern "C" {
u32 rf_mul(unsigned w, u32 a, u32 b)
{
  if (!a || !b) return 0;
  if (w <= 16) { const tab& x = t(w); return x.ex[x.lg[a] + x.lg[b]]; }
  return (u32)slow(32, 0x100400007ull, a, b);
}
u32 rf_slow(unsigned w, u32 a, u32 b) { return (u32)slow(w, w == 4 ? 0x13 : w == 8 ? 0x11d : w == 16 ? 0x1100b : 0x100400007ull, a, b); }
u32 rf_inv(unsigned w, u32 a)
{
  if (w <= 16) { const tab& x = t(w); const u32 n = (1u << w) - 1; return x.ex[(n - x.lg[a]) % n]; }
  u32 r = 1, b = a; for (int i = 1; i < 32; ++i) { b = rf_mul(32, b, b); r = rf_mul(32, r, b); }
  return r;
}
// dst ^= c * src over the native (little endian) words of the field
void rf_axpy(unsigned w, char* dst_, const char* src_, std::size_t n, u32 c)
{
  u8* dst = (u8*)dst_; const u8* src = (const u8*)src_;
  if (w == 4 || w == 8)
  {
    u8 m[256]; for (u32 b = 0; b < 256; ++b) m[b] = w == 4 ? (u8)(rf_mul(4, b & 15, c) | rf_mul(4, b >> 4, c) << 4) : (u8)rf_mul(8, b, c);
    for (std::size_t i = 0; i < n; ++i) dst[i] ^= m[src[i]];
    return;
  }
  const std::size_t k = w / 8; u32 tt[8][16];
  for (unsigned j = 0; j < w / 4; ++j) for (u32 v = 0; v < 16; ++v) tt[j][v] = rf_mul(w, v << (4 * j), c);
  for (std::size_t i = 0; i + k <= n; i += k)
  {
    u32 r = 0; for (std::size_t j = 0; j < k; ++j) r ^= tt[2 * j][src[i + j] & 15] ^ tt[2 * j + 1][src[i + j] >> 4];
    for (std::size_t j = 0; j < k; ++j) dst[i + j] ^= (u8)(r >> (8 * j));
  }
}
// y ^= c*x over field words (one element per u32)
static void row_axpy(unsigned w, u32* y, const u32* x, std::size_t n, u32 c)
{
  if (!c) return;
  if (w <= 16) { const tab& q = t(w); const u32 lc = q.lg[c]; for (std::size_t i = 0; i < n; ++i) if (x[i]) y[i] ^= q.ex[lc + q.lg[x[i]]]; return; }
  u32 tt[4][256];
  for (unsigned j = 0; j < 4; ++j) { u32 p[8]; for (unsigned b = 0; b < 8; ++b) p[b] = rf_mul(32, 1u << (8 * j + b), c); tt[j][0] = 0; for (u32 v = 1; v < 256; ++v) { const u32 low = v & (0u - v); tt[j][v] = tt[j][v ^ low] ^ p[__builtin_ctz(low)]; } }
  for (std::size_t i = 0; i < n; ++i) { const u32 v = x[i]; if (v) y[i] ^= tt[0][v & 255] ^ tt[1][v >> 8 & 255] ^ tt[2][v >> 16 & 255] ^ tt[3][v >> 24]; }
}
// Reduced row echelon form of `m` (rows x cols), in place: on return kept[i] is 1 when row i was
// independent of the rows before it, and its (reduced) contents are in m; other rows are zero.
u32 rf_reduce(unsigned w, u32* m, std::size_t rows, std::size_t cols, u8* kept)
{
  std::size_t* piv = (std::size_t*)std::malloc((rows + 1) * sizeof(std::size_t)); u32 rank = 0;
  for (std::size_t i = 0; i < rows; ++i)
  {
    u32* row = m + i * cols; kept[i] = 0;
    for (std::size_t k = 0; k < i; ++k) if (kept[k]) row_axpy(w, row, m + k * cols, cols, row[piv[k]]);
    std::size_t p = 0; while (p < cols && !row[p]) ++p;
    if (p == cols) continue;
    const u32 iv = rf_inv(w, row[p]); for (std::size_t j = 0; j < cols; ++j) row[j] = rf_mul(w, row[j], iv);
    for (std::size_t k = 0; k < i; ++k) if (kept[k]) row_axpy(w, m + k * cols, row, cols, m[k * cols + p]);
    kept[i] = 1; piv[i] = p; ++rank;
  }
  std::free(piv); return rank;
}
}
