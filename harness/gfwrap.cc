// libgf_complete is a shared, uninstrumented library: a region operation that runs past a buffer
// would be invisible to AddressSanitizer.  Linked with -Wl,--wrap=gf_init_easy, this puts a checking
// front end before every region multiplication.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <atomic>
extern "C" {
#include <gf_complete.h>
int __real_gf_init_easy(gf_t*, int);
int __wrap_gf_init_easy(gf_t*, int);
}
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
extern "C" void* __asan_region_is_poisoned(void*, size_t);
extern "C" void __asan_describe_address(void*);
extern "C" void __sanitizer_print_stack_trace();
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_read_range(void*, unsigned long);
extern "C" void __tsan_write_range(void*, unsigned long);
#endif
std::atomic<unsigned long> vf_gf_regions{0}, vf_gf_region_bytes{0}, vf_gf_ragged{0};
namespace {
using fn = void (*)(gf_t*, void*, void*, gf_val_32_t, int, int);
std::atomic<fn> orig[33];
void fail(const char* what, void* p, int len)
{
  std::fprintf(stderr, "ERROR: VerifRegion: %s at %p len %d\n", what, p, len);
#ifdef VF_ASAN
  __asan_describe_address(p); __sanitizer_print_stack_trace();
#endif
  std::fflush(stderr); _exit(86);
}
template <int W> void checked(gf_t* gf, void* src, void* dst, gf_val_32_t v, int len, int add)
{
  vf_gf_regions.fetch_add(1, std::memory_order_relaxed);
  if (len < 0) fail("negative region length", src, len);
  vf_gf_region_bytes.fetch_add((unsigned long)len, std::memory_order_relaxed);
  if (W >= 16 && len % (W / 8)) fail("region length not a multiple of the field word", src, len);
#ifdef VF_ASAN
  if (len > 0)
  {
    if (void* p = __asan_region_is_poisoned(src, (size_t)len)) fail("region read out of bounds", p, len);
    if (void* p = __asan_region_is_poisoned(dst, (size_t)len)) fail("region write out of bounds", p, len);
  }
#endif
#if defined(__SANITIZE_THREAD__)
  if (len > 0) { __tsan_read_range(src, (unsigned long)len); __tsan_write_range(dst, (unsigned long)len); }
#endif
  orig[W].load(std::memory_order_relaxed)(gf, src, dst, v, len, add);
}
}
extern "C" int __wrap_gf_init_easy(gf_t* gf, int w)
{
  const int r = __real_gf_init_easy(gf, w);
  if (r == 0) return r;
  fn f = gf->multiply_region.w32;
  fn wrap = w == 4 ? checked<4> : w == 8 ? checked<8> : w == 16 ? checked<16> : w == 32 ? checked<32> : nullptr;
  if (wrap && f != wrap) { orig[w].store(f, std::memory_order_relaxed); gf->multiply_region.w32 = wrap; }
  return r;
}
