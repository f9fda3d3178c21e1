// Stand-in for absl/flags used only when /repo is built as a simulator node:
// the distribution's static absl is not position independent, and its shared
// build has one flag registry per OS process, while the simulator hosts many
// nodes per OS process.  Same surface as the part of absl/flags the program
// uses; every node image has its own registry.
#ifndef SIM_ABSL_FLAG_H_
#define SIM_ABSL_FLAG_H_
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace absl {
namespace simflags {
using Setter = std::function<bool(const std::string&)>;
__attribute__((visibility("hidden"))) inline std::map<std::string, Setter>& Registry() {
  static std::map<std::string, Setter> r;
  return r;
}
inline bool Parse(const std::string& s, std::string* o) { *o = s; return true; }
inline bool Parse(const std::string& s, bool* o) {
  if (s == "true" || s == "1" || s == "yes" || s == "") { *o = true; return true; }
  if (s == "false" || s == "0" || s == "no") { *o = false; return true; }
  return false;
}
template <typename T>
bool Parse(const std::string& s, T* o) {
  std::istringstream is(s);
  is >> *o;
  return !is.fail() && (is.peek() == std::char_traits<char>::eof());
}
}  // namespace simflags
template <typename T>
class Flag {
 public:
  Flag(const char* name, T def) : value(def) {
    simflags::Registry()[name] = [this](const std::string& s) {
      return simflags::Parse(s, &this->value);
    };
  }
  T value;
};
template <typename T>
T GetFlag(const Flag<T>& f) { return f.value; }
template <typename T, typename V>
void SetFlag(Flag<T>* f, const V& v) { f->value = v; }
}  // namespace absl
#define ABSL_FLAG(Type, name, def, help) absl::Flag<Type> FLAGS_##name(#name, Type(def))
#define ABSL_DECLARE_FLAG(Type, name) extern absl::Flag<Type> FLAGS_##name
#endif
