// The tools resolve numeric addresses with AI_ADDRCONFIG, which fails on hosts that only have a loopback
// interface.  That is a fact about the sandbox, not about the tools.
#include <netdb.h>
extern "C" int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);
extern "C" int __wrap_getaddrinfo(const char* h, const char* s, const addrinfo* hints, addrinfo** r)
{
  if (!hints) return __real_getaddrinfo(h, s, hints, r);
  addrinfo x = *hints; x.ai_flags &= ~AI_ADDRCONFIG;
  return __real_getaddrinfo(h, s, &x, r);
}
