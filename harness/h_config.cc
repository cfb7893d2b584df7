// Configurations that are invalid or do not match are refused by both parties.
#include "e2e.h"
using namespace e2e;

PROP(config_refused, 60) {
  Profile p;
  p.max_rows = 8;
  p.max_rows_thorough = 8;
  auto x = Gen(c, p);
  x.seed &= ~3ull;
  Place(x, c.scratch);
  v2::PsiConfig cfg[2] = {Config(x, 0, c.scratch), Config(x, 1, c.scratch)};
  int who = (int)c.below(2);
  auto& m = cfg[who];
  auto* pc = m.mutable_protocol_config();
  std::string what;
  auto rewrite = [&](const std::string& text) { std::ofstream f(x.s[who].in, std::ios::binary | std::ios::trunc); f << text; };
  bool both = false;
  using J = v2::PsiConfig;
  switch (c.below(21)) {
    case 0: pc->set_broadcast_result(!pc->broadcast_result()); what = "broadcast_result differs"; break;
    case 1: {
      auto o = Config(x, who, c.scratch);
      auto pr = x.proto == v2::PROTOCOL_ECDH ? v2::PROTOCOL_KKRT : x.proto == v2::PROTOCOL_KKRT ? v2::PROTOCOL_RR22 : v2::PROTOCOL_ECDH;
      pc->set_protocol(pr);
      if (pr == v2::PROTOCOL_ECDH) pc->mutable_ecdh_config()->set_curve(psi::CURVE_25519);
      what = "protocol differs";
      break;
    }
    case 2:
      if (x.proto == v2::PROTOCOL_ECDH) { pc->mutable_ecdh_config()->set_curve(x.curve == psi::CURVE_SM2 ? psi::CURVE_FOURQ : psi::CURVE_SM2); what = "curve differs"; }
      else if (x.proto == v2::PROTOCOL_KKRT) { pc->mutable_kkrt_config()->set_bucket_size(x.bucket + 1); what = "bucket size differs"; }
      else { pc->mutable_rr22_config()->set_bucket_size(x.bucket + 1); what = "bucket size differs"; }
      break;
    case 3:
      if (x.proto == v2::PROTOCOL_ECDH) { pc->mutable_ecdh_config()->set_batch_size(x.batch + 1); what = "batch size differs"; }
      else if (x.proto == v2::PROTOCOL_RR22) { pc->mutable_rr22_config()->set_low_comm_mode(!x.low_comm); what = "low_comm_mode differs"; }
      else { pc->mutable_kkrt_config()->set_bucket_size(x.bucket + 7); what = "bucket size differs"; }
      break;
    case 4: {
      auto j = m.advanced_join_type();
      m.set_advanced_join_type(j == J::ADVANCED_JOIN_TYPE_FULL_JOIN ? J::ADVANCED_JOIN_TYPE_DIFFERENCE : J::ADVANCED_JOIN_TYPE_FULL_JOIN);
      if (x.left < 0) for (auto& g : cfg) g.set_left_side(v2::ROLE_RECEIVER);
      what = "join type differs";
      break;
    }
    case 5:
      for (auto& g : cfg) { g.set_advanced_join_type(J::ADVANCED_JOIN_TYPE_LEFT_JOIN); g.set_left_side(v2::ROLE_RECEIVER); }
      m.set_left_side(v2::ROLE_SENDER);
      what = "left side differs";
      break;
    case 6: m.mutable_output_attr()->set_csv_null_rep("nu" + x.s[0].null_rep); what = "null text differs"; break;
    case 7:
      if (x.recovery) m.mutable_recovery_config()->Clear();
      else { m.mutable_recovery_config()->set_enabled(true); m.mutable_recovery_config()->set_folder(c.scratch + "/rec"); }
      what = "recovery enabled on one side";
      break;
    case 8:
      for (auto& g : cfg) g.mutable_recovery_config()->Clear();
      m.set_check_hash_digest(!m.check_hash_digest());
      what = "check_hash_digest differs";
      break;
    case 9: m = cfg[1 - who]; m.mutable_input_config()->set_path(x.s[who].in); m.mutable_output_config()->set_path(x.s[who].out); m.clear_keys(); for (auto& k : x.s[who].keys) m.add_keys(k); what = "both have the same role"; break;
    case 10: m.clear_keys(); what = "no keys"; break;
    case 11: m.add_keys(m.keys(0)); what = "duplicated key column"; break;
    case 12: m.set_keys((int)c.below(m.keys_size()), "no_such_column"); what = "key column missing in the input"; break;
    case 13: m.mutable_input_config()->set_path(c.scratch + "/missing.csv"); what = "input file missing"; break;
    case 14: m.mutable_output_config()->set_type(v2::IO_TYPE_UNSPECIFIED); what = "output type"; both = true; break;
    case 15: m.mutable_input_config()->set_type(v2::IO_TYPE_UNSPECIFIED); what = "input type"; both = true; break;
    case 16:
      for (auto& g : cfg) { g.mutable_protocol_config()->set_protocol(v2::PROTOCOL_ECDH); g.mutable_protocol_config()->mutable_ecdh_config()->set_curve(psi::CURVE_INVALID_TYPE); }
      what = "curve not given";
      break;
    case 17: {  // an empty input file
      rewrite("");
      what = "empty input file";
      break;
    }
    case 18: {  // a row with too few or too many columns
      auto t = x.s[who].t;
      std::string text = tables::Slurp(x.s[who].in);
      if (text.empty() || text.back() != '\n') text += "\n";
      std::string extra;
      for (size_t i = 0; i < t.cols.size() + 1; ++i) extra += std::string(i ? "," : "") + "q";
      text += extra + "\n";
      rewrite(text);
      what = "a row with one column too many";
      break;
    }
    case 19: m.set_intersection_threshold(3 + m.intersection_threshold()); what = "threshold differs"; break;
    default: pc->set_protocol(v2::PROTOCOL_UNSPECIFIED); for (auto& g : cfg) g.mutable_protocol_config()->set_protocol(v2::PROTOCOL_UNSPECIFIED); what = "protocol not given"; break;
  }
  Describe(c, x);
  c.note() << "\n" << (who ? "sender" : "receiver") << ": " << what;
  c.label(what);
  for (auto& g : cfg) fs::remove(g.output_config().path());
  auto r = Run(x, cfg[0], cfg[1]);
  c.note() << " -> " << r.r.err[0].substr(0, 160) << " | " << r.r.err[1].substr(0, 160);
  for (int i = 0; i < 2; ++i) {
    REQUIRE(!r.r.err[i].empty(), (i ? "sender" : "receiver") << " accepts although: " << what);
    REQUIRE(r.r.err[i].find("timeout") == std::string::npos, (i ? "sender" : "receiver") << " does not notice but waits for a timeout: " << what);
    REQUIRE(!r.out[i], (i ? "sender" : "receiver") << " wrote an output although: " << what);
  }
  c.nontrivial();
}
