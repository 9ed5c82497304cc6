// The schema validator is not installed here: no schema is enforced.
#pragma once
#include "nlohmann/json.hpp"
namespace nlohmann::json_schema {
struct json_validator {
  void set_root_schema(const nlohmann::json &) {}
  void validate(const nlohmann::json &) {}
};
} // namespace nlohmann::json_schema
