#ifndef SIM_ABSL_PARSE_H_
#define SIM_ABSL_PARSE_H_
#include <iostream>
#include "absl/flags/flag.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char** argv) {
  std::vector<char*> rest;
  if (argc > 0) rest.push_back(argv[0]);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--", 0) != 0) { rest.push_back(argv[i]); continue; }
    a = a.substr(2);
    std::string name = a, val;
    auto eq = a.find('=');
    if (eq != std::string::npos) { name = a.substr(0, eq); val = a.substr(eq + 1); }
    else if (i + 1 < argc) { val = argv[++i]; }
    auto it = simflags::Registry().find(name);
    if (it == simflags::Registry().end() || !it->second(val)) {
      std::cerr << "ERROR: bad command line flag '" << name << "'" << std::endl;
      exit(1);
    }
  }
  return rest;
}
}  // namespace absl
#endif
