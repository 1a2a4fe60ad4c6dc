#include "absl/log/log.h"
namespace absl { namespace log_shim {
template <class T> T DieIfNull(T&& t) { CHECK(t != nullptr); return static_cast<T&&>(t); }
}}
#define ABSL_DIE_IF_NULL(v) ::absl::log_shim::DieIfNull((v))
