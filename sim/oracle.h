#pragma once
#include "core.h"
namespace sim {
struct Violation { std::string cls, msg; };
extern std::vector<Violation> violations;
extern std::map<std::string, std::string> report;  // extra JSON fields for the driver
void Violate(const std::string& cls, const std::string& msg);
bool Has(const char* check);
// Runs every oracle the scenario asks for.  `fault_free`: no fault was scheduled.
void RunOracles(bool fault_free);
long NoiseCount();
}  // namespace sim
