#pragma once
#include <cassert>
#ifndef EXPECTS
#define EXPECTS(X)                                                                                                                                   \
  if (!(X)) throw std::runtime_error(std::string("Precondition violated: ") + #X)
#endif
#ifndef FORCEINLINE
#define FORCEINLINE inline
#endif
#ifndef FWD
#define FWD(...) static_cast<decltype(__VA_ARGS__) &&>(__VA_ARGS__)
#endif
#ifndef AS_STRING
#define AS_STRING2(...) #__VA_ARGS__
#define AS_STRING(...) AS_STRING2(__VA_ARGS__)
#endif
#ifndef ASSERT
#define ASSERT(X)                                                                                                                                    \
  if (!(X)) throw std::runtime_error(std::string("Assertion violated: ") + #X)
#endif
#ifndef EXPECTS_WITH_MESSAGE
#define EXPECTS_WITH_MESSAGE(X, ...) EXPECTS(X)
#endif
