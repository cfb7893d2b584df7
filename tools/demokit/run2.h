// Runs a two-party PSI of /repo in one process; used by demonstrations.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "google/protobuf/util/json_util.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/interface.h"
#include "spdlog/spdlog.h"
#include "yacl/link/context.h"
#include "yacl/link/test_util.h"
namespace demo {
using Lines = std::vector<std::string>;
inline void Write(const std::string& p, const Lines& l) { std::ofstream o(p, std::ios::binary); for (auto& s : l) o << s << "\n"; }
inline Lines Read(const std::string& p) { Lines r; std::ifstream i(p); std::string s; while (std::getline(i, s)) r.push_back(s); return r; }
inline psi::v2::PsiConfig Cfg(bool receiver, psi::v2::Protocol proto, const std::string& dir, const std::vector<std::string>& keys) {
  psi::v2::PsiConfig c;
  c.mutable_protocol_config()->set_protocol(proto);
  c.mutable_protocol_config()->set_role(receiver ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER);
  c.mutable_protocol_config()->set_broadcast_result(true);
  c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(psi::CURVE_25519);
  std::string t = receiver ? "r" : "s";
  c.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(dir + "/in_" + t + ".csv");
  c.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(dir + "/out_" + t + ".csv");
  for (auto& k : keys) c.add_keys(k);
  return c;
}
struct Res { std::string err[2]; psi::PsiResultReport rep[2]; };
// cfg[0] is the receiver (rank 0), cfg[1] the sender (rank 1)
inline Res Run(const psi::v2::PsiConfig cfg[2]) {
  auto links = yacl::link::test::SetupWorld(2);
  Res r;
  std::thread th[2];
  for (int i = 0; i < 2; ++i)
    th[i] = std::thread([&, i] {
      try { r.rep[i] = psi::createPsiParty(cfg[i], links[i])->Run(); } catch (const std::exception& e) { r.err[i] = e.what(); if (r.err[i].empty()) r.err[i] = "?"; }
    });
  for (auto& t : th) t.join();
  return r;
}
#define DEMO_REQUIRE(c) do { if (!(c)) { std::cerr << "FAILED " << #c << " line " << __LINE__ << std::endl; std::_Exit(1); } } while (0)
}  // namespace demo
