// Stand-in for @bazel_rules//parser:parser_support (not available here).
#ifndef VERIF_SHIM_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_SUPPORT_H_
#include <cstdio>
#include <iostream>
#include <string>

namespace parser_support {
struct ScannerExtra {
  std::string* filename = nullptr;
};

template <class L>
void Error(L const& l, std::string const& msg, ScannerExtra* extra) {
  std::cerr << "error "
            << (l.begin.filename ? *l.begin.filename : std::string("??")) << ":"
            << l.begin.line << ":" << l.begin.column << ": " << msg
            << std::endl;
}
}  // namespace parser_support
#endif
