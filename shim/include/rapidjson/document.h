// Stand-in over nlohmann::json for the few calls psi makes.
#pragma once
#include <stdexcept>
#include <string>
#include "nlohmann/json.hpp"
namespace rapidjson {
class Value {
 public:
  explicit Value(nlohmann::json j = {}) : j_(std::move(j)) { if (j_.is_string()) s_ = j_.get<std::string>(); }
  const char* GetString() const { if (!j_.is_string()) throw std::runtime_error("rapidjson: not a string"); return s_.c_str(); }
  size_t GetStringLength() const { return s_.size(); }
  int GetInt() const { return j_.get<int>(); }
  Value operator[](const char* k) const { return Value(j_.at(k)); }
  bool HasMember(const char* k) const { return j_.contains(k); }
 protected:
  nlohmann::json j_;
  std::string s_;
};
class Document {
 public:
  Document& Parse(const char* s) { j_ = nlohmann::json::parse(s, nullptr, false); return *this; }
  bool HasParseError() const { return j_.is_discarded(); }
  const Value& operator[](const char* k) { auto it = v_.find(k); if (it == v_.end()) it = v_.emplace(k, Value(j_.at(k))).first; return it->second; }
  bool HasMember(const char* k) const { return j_.contains(k); }
 private:
  nlohmann::json j_;
  std::map<std::string, Value> v_;
};
}  // namespace rapidjson
