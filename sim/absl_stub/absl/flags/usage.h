#ifndef SIM_ABSL_USAGE_H_
#define SIM_ABSL_USAGE_H_
#include <string>
namespace absl {
template <typename S>
inline void SetProgramUsageMessage(const S&) {}
inline std::string ProgramUsageMessage() { return ""; }
}  // namespace absl
#endif
