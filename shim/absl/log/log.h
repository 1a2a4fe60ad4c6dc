// Stand-in for absl/log (not installed here). Same observable contract for the
// subset the repository uses: LOG(sev) streams to stderr, FATAL and failed
// CHECKs abort.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <cstdlib>
#include <iostream>
#include <ostream>
#include <sstream>

namespace absl {
namespace log_shim {
enum Severity { S_INFO, S_WARNING, S_ERROR, S_FATAL, S_DFATAL };

class LogMessage {
 public:
  LogMessage(const char* file, int line, Severity s);
  ~LogMessage();
  std::ostream& stream();

 private:
  std::ostringstream os_;
  Severity s_;
};

class FatalMessage {
 public:
  FatalMessage(const char* file, int line, const char* cond);
  [[noreturn]] ~FatalMessage();
  std::ostream& stream();

 private:
  std::ostringstream os_;
};

class NullMessage {
 public:
  std::ostream& stream();
};

struct Voidify {
  void operator&&(std::ostream&) const {}
};

#ifndef VERIF_SHIM_NO_DEFS
inline LogMessage::LogMessage(const char* file, int line, Severity s) : s_(s) {
  os_ << "IWEFD"[s] << " " << file << ":" << line << "] ";
}
inline LogMessage::~LogMessage() {
  std::cerr << os_.str() << std::endl;
  if (s_ == S_FATAL) std::abort();
}
inline std::ostream& LogMessage::stream() { return os_; }
inline FatalMessage::FatalMessage(const char* file, int line,
                                  const char* cond) {
  os_ << "F " << file << ":" << line << "] Check failed: " << cond << " ";
}
inline FatalMessage::~FatalMessage() {
  std::cerr << os_.str() << std::endl;
  std::abort();
}
inline std::ostream& FatalMessage::stream() { return os_; }
inline std::ostream& NullMessage::stream() {
  static std::ostringstream& os = *new std::ostringstream;
  return os;
}
#endif
}  // namespace log_shim
}  // namespace absl

#define LOG(sev)                                                         \
  ::absl::log_shim::LogMessage(__FILE__, __LINE__,                       \
                               ::absl::log_shim::S_##sev)                \
      .stream()
#define LOG_IF(sev, cond) \
  !(cond) ? (void)0 : ::absl::log_shim::Voidify{} && LOG(sev)
#define VLOG(n) true ? (void)0 : ::absl::log_shim::Voidify{} && LOG(INFO)
#define DLOG(sev) LOG(sev)
#define PLOG(sev) LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)

#define CHECK(cond)                                          \
  (cond) ? (void)0                                           \
         : ::absl::log_shim::Voidify{} &&                    \
               ::absl::log_shim::FatalMessage(__FILE__, __LINE__, #cond).stream()
#define VERIF_SHIM_CHECK_OP(a, op, b) CHECK((a)op(b))
#define CHECK_EQ(a, b) VERIF_SHIM_CHECK_OP(a, ==, b)
#define CHECK_NE(a, b) VERIF_SHIM_CHECK_OP(a, !=, b)
#define CHECK_LT(a, b) VERIF_SHIM_CHECK_OP(a, <, b)
#define CHECK_LE(a, b) VERIF_SHIM_CHECK_OP(a, <=, b)
#define CHECK_GT(a, b) VERIF_SHIM_CHECK_OP(a, >, b)
#define CHECK_GE(a, b) VERIF_SHIM_CHECK_OP(a, >=, b)
#define PCHECK(cond) CHECK(cond)
#define QCHECK(cond) CHECK(cond)
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#define QCHECK_NE(a, b) CHECK_NE(a, b)
#define QCHECK_LT(a, b) CHECK_LT(a, b)
#define QCHECK_LE(a, b) CHECK_LE(a, b)
#define QCHECK_GT(a, b) CHECK_GT(a, b)
#define QCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK(cond) CHECK(cond)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)

#endif
