// Stand-in: the schema validator is a git submodule that is not present here.
// Taint configurations reach the harnesses through callbacks, so parsing and
// validation of config files never run.
#pragma once
#include "nlohmann/json.hpp"
namespace nlohmann::json_schema {
class json_validator {
public:
  void set_root_schema(const nlohmann::json &) {}
  nlohmann::json validate(const nlohmann::json &) const { return {}; }
};
} // namespace nlohmann::json_schema
