// Analysis stand-in for glog: a failed CHECK ends in vp_fatal_stream(), which the analysis treats as
// abnormal termination.  Message operands are still type-checked.
#pragma once
#include <ostream>
#include <string>
#include <cstddef>
namespace google {
struct NullStream {
  template <class T> const NullStream& operator<<(const T&) const;
  const NullStream& operator<<(std::ostream& (*)(std::ostream&)) const;
};
struct Voidify { void operator&(const NullStream&) const; };
NullStream vp_fatal_stream();
NullStream vp_null_stream();
template <class T> T CheckNotNull(T&& p) { if (p == nullptr) vp_fatal_stream(); return static_cast<T&&>(p); }
inline void InitGoogleLogging(const char*) {}
}
#define CHECK(c) (c) ? (void)0 : google::Voidify() & google::vp_fatal_stream()
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_NEAR(a, b, m) CHECK((a) <= (b) + (m) && (a) >= (b) - (m))
#define CHECK_DOUBLE_EQ(a, b) CHECK_NEAR(a, b, 0.000000000000001L)
#define CHECK_STREQ(a, b) CHECK(std::string(a) == std::string(b))
#define CHECK_NOTNULL(p) google::CheckNotNull((p))
#define PCHECK CHECK
// The library is built with assertions on, in the project's own build as well as in the reference build; drivers that
// ask for a build without assertions define NDEBUG.
#ifdef NDEBUG
#define VP_DCHECK(check) while (false) check
#define DCHECK(c) VP_DCHECK(CHECK(c))
#define DCHECK_EQ(a, b) VP_DCHECK(CHECK_EQ(a, b))
#define DCHECK_NE(a, b) VP_DCHECK(CHECK_NE(a, b))
#define DCHECK_LT(a, b) VP_DCHECK(CHECK_LT(a, b))
#define DCHECK_LE(a, b) VP_DCHECK(CHECK_LE(a, b))
#define DCHECK_GT(a, b) VP_DCHECK(CHECK_GT(a, b))
#define DCHECK_GE(a, b) VP_DCHECK(CHECK_GE(a, b))
#define DCHECK_NOTNULL(p) (p)
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_NOTNULL CHECK_NOTNULL
#endif
#define VP_LOG_INFO google::vp_null_stream()
#define VP_LOG_WARNING google::vp_null_stream()
#define VP_LOG_ERROR google::vp_null_stream()
#define VP_LOG_FATAL google::vp_fatal_stream()
#define VP_LOG_DFATAL google::vp_fatal_stream()
#define LOG(s) VP_LOG_##s
#define PLOG(s) VP_LOG_##s
#define DLOG(s) VP_LOG_##s
#define LOG_IF(s, c) !(c) ? (void)0 : google::Voidify() & VP_LOG_##s
#define LOG_FIRST_N(s, n) VP_LOG_##s
#define LOG_EVERY_N(s, n) VP_LOG_##s
#define VLOG(n) google::vp_null_stream()
#define VLOG_IF(n, c) !(c) ? (void)0 : google::Voidify() & google::vp_null_stream()
#define DVLOG(n) google::vp_null_stream()
#define VLOG_IS_ON(n) false
