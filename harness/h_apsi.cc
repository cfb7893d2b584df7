// Keyword PIR (the APSI wrapper): a query returns exactly the labels of the keys asked for.
#include <filesystem>
#include <fstream>
#include <set>

#include "parties.h"
#include "pbt.h"
#include "psi/wrapper/apsi/api/receiver.h"
#include "psi/wrapper/apsi/api/receiver_c_wrapper.h"
#include "psi/wrapper/apsi/api/sender.h"
#include "psi/wrapper/apsi/api/sender_c_wrapper.h"
#include "psi/wrapper/apsi/api/wrapper_util.h"
#include "psi/wrapper/apsi/cli/entry.h"
#include "psi/wrapper/apsi/utils/group_db.h"
#include "tables.h"
#include "yacl/crypto/rand/rand.h"

using namespace pbt;
using tables::Row;
using tables::Table;
namespace aw = psi::apsi_wrapper;
namespace fs = std::filesystem;

namespace {
struct Init {
  Init() { parties::Quiet(); }
} init;

struct Params {
  uint32_t n, felts, bits, hashes, table, per_bin, low = 0;
  std::set<uint32_t> powers;
  std::string Json() const {
    std::string p;
    for (auto v : powers) p += (p.empty() ? "" : ",") + std::to_string(v);
    return "{\"table_params\":{\"hash_func_count\":" + std::to_string(hashes) + ",\"table_size\":" + std::to_string(table) +
           ",\"max_items_per_bin\":" + std::to_string(per_bin) + "},\"item_params\":{\"felts_per_item\":" + std::to_string(felts) +
           "},\"query_params\":{\"ps_low_degree\":" + std::to_string(low) + ",\"query_powers\":[" + p +
           "]},\"seal_params\":{\"plain_modulus_bits\":" + std::to_string(bits) + ",\"poly_modulus_degree\":" + std::to_string(n) +
           ",\"coeff_modulus_bits\":[48,30,30]}}";
  }
};
Params MakeParams(Ctx& c) {
  Params p;
  p.n = c.pick(std::vector<uint32_t>{64, 128, 256, 512});
  p.felts = c.pick(std::vector<uint32_t>{4, 5, 6, 7, 8});
  while (p.n % p.felts && c.flip()) p.felts = c.pick(std::vector<uint32_t>{4, 8});
  uint32_t lo = 80 / p.felts + (80 % p.felts != 0) + 1, hi = std::min<uint32_t>(128 / p.felts + 1, 25);
  p.bits = c.range(std::max(lo, 14u), std::max({hi, lo, 14u}));
  uint32_t per = p.n / p.felts;
  uint32_t mult = (96 + per - 1) / per + c.below(3);
  p.table = per * mult;
  p.hashes = c.pick(std::vector<uint32_t>{3, 3, 4, 2, 1});
  p.per_bin = c.range(1, 14);
  p.powers.insert(1);
  if (p.per_bin > 2 && c.chance(1, 3)) {
    p.low = c.range(2, std::min<uint32_t>(p.per_bin, 6));
    for (uint32_t k = 2; k <= p.low; ++k)
      if (c.flip()) p.powers.insert(k);
    for (uint32_t k = p.low + 1; k <= p.per_bin; k += p.low + 1)
      if (c.flip()) p.powers.insert(k);
    c.label("Paterson-Stockmeyer");
  } else {
    for (uint32_t k = 2; k <= p.per_bin; ++k)
      if (c.chance(1, 3)) p.powers.insert(k);
  }
  return p;
}

struct World {
  Params p;
  Table db, query;
  bool labelled = false;
  std::map<std::string, std::string> rows;
  std::map<std::string, std::string> want;  // queried and present
  tables::Spelling sp1, sp2;
};
// files are read in several blocks
void GenChunk(Ctx& c, size_t n) {
  arrow::shim::csv_rows_per_batch = c.flip() ? (int64_t)(1 + c.below(n + 2)) : (int64_t)1 << 20;
  if (arrow::shim::csv_rows_per_batch < (int64_t)n) c.label("several blocks");
}
std::string Label(Ctx& c, int style, size_t len) {
  std::string s;
  for (size_t i = 0; i < len; ++i) {
    static const char kPlain[] = "abcdefghijklmnopqrstuvwxyzABC0123456789 _-:;|{}[]=";
    if (style == 0) s += kPlain[c.below(sizeof kPlain - 1)];
    if (style == 1) s += "x,\"\n'y"[c.below(6)];
    if (style == 2) s += c.flip() ? "\xe7\x94\xa8" : "\xc3\xa9";
  }
  return s;
}
World Make(Ctx& c, size_t max_db, bool specials) {
  World w;
  w.p = MakeParams(c);
  w.labelled = c.chance(3, 4);
  int style;
  do style = c.below(tables::kStyles);
  while (style == 12 || style == 10 || style == 13 || (!specials && (style == 11 || style == tables::kCommaStyle)));
  int lstyle = specials ? c.below(3) : (c.flip() ? 0 : 2);
  size_t n = c.skewed(1, max_db);
  size_t universe = n + c.below(n + 2);
  std::vector<uint64_t> ids(universe);
  for (size_t i = 0; i < universe; ++i) ids[i] = i;
  for (size_t i = universe; i > 1; --i) std::swap(ids[i - 1], ids[c.below(i)]);
  size_t longest = c.chance(1, 5) ? c.range(1, 200) : c.range(1, 24);
  w.db.cols = w.labelled ? Row{"key", "value"} : Row{"key"};
  for (size_t i = 0; i < n; ++i) {
    std::string k = tables::KeyVal(style, ids[i]), v;
    if (w.labelled) v = Label(c, lstyle, c.range(1, longest));
    w.rows[k] = v;
    w.db.rows.push_back(w.labelled ? Row{k, v} : Row{k});
  }
  size_t most = w.p.hashes <= 2 ? 1 : std::min<size_t>(12, w.p.table / 8);
  size_t q = c.range(1, most);
  std::set<std::string> asked;
  w.query.cols = {"key"};
  for (size_t i = 0; i < q; ++i) {
    uint64_t id = c.flip() ? ids[c.below(n)] : c.below(2 * universe + 2);
    std::string k = tables::KeyVal(style, id);
    if (!asked.insert(k).second) continue;
    w.query.rows.push_back({k});
    if (w.rows.count(k)) w.want[k] = w.rows[k];
  }
  w.sp1.quote = c.below(3);
  w.sp2.quote = c.below(3);
  tables::WriteCsv("db.csv", w.db, w.sp1);
  GenChunk(c, n);
  tables::WriteCsv("query.csv", w.query, w.sp2);
  std::ofstream("params.json") << w.p.Json();
  c.label(w.labelled ? "labelled" : "keys only");
  c.label("hash functions " + std::to_string(w.p.hashes));
  c.label(w.want.empty() ? "no match" : w.want.size() == 1 ? "one match" : "several matches");
  c.label("key style " + std::to_string(style));
  c.note() << w.p.Json() << " db=" << n << " queries=" << w.query.rows.size() << " matches=" << w.want.size() << " style=" << style << "/"
           << lstyle << " longest=" << longest << "; ";
  c.metric("db rows", n);
  c.metric("queries", w.query.rows.size());
  c.nontrivial(n > 1 && !w.want.empty() && (w.want.size() < w.query.rows.size() || w.rows.size() > w.want.size()));
  return w;
}

std::string Strip(std::string s) {
  while (!s.empty() && s.back() == 0) s.pop_back();
  return s;
}
void CheckFile(const World& w, const std::string& file, const std::string& how) {
  auto t = tables::ReadCsv(file);
  REQUIRE(t.has_value(), how << ": no output file");
  Row cols = w.labelled && !w.want.empty() ? Row{"key", "value"} : Row{"key"};
  REQUIRE(t->cols == cols, how << ": the output's header has " << t->cols.size() << " columns, " << (t->cols.empty() ? "" : t->cols[0]) << "...");
  std::map<std::string, std::string> got;
  for (auto& r : t->rows) {
    REQUIRE(r.size() == cols.size(), how << ": an output row has " << r.size() << " fields for " << cols.size() << " columns; first is '" << r[0] << "'");
    REQUIRE(w.want.count(r[0]), how << ": '" << r[0] << "' is reported but was not both asked for and stored");
    REQUIRE(got.emplace(r[0], r.size() > 1 ? Strip(r[1]) : "").second, how << ": '" << r[0] << "' is reported twice");
  }
  for (auto& [k, v] : w.want) {
    REQUIRE(got.count(k), how << ": '" << k << "' is stored and was asked for but is not reported");
    REQUIRE(got[k] == v, how << ": '" << k << "' has label '" << v << "' but '" << got[k] << "' is reported");
  }
}

aw::cli::SenderOptions SenderOpt(Ctx& c) {
  aw::cli::SenderOptions o;
  o.threads = c.range(1, 4);
  o.log_level = "off";
  o.silent = true;
  o.channel = "yacl";
  o.nonce_byte_count = c.chance(1, 4) ? c.range(0, 16) : 16;
  o.compress = c.flip();
  o.params_file = "params.json";
  o.source_file = "db.csv";
  return o;
}

void Query(Ctx& c, const World& w, const aw::cli::SenderOptions& so, aw::cli::ReceiverOptions ro, const std::string& how) {
  ro.threads = c.range(1, 3);
  ro.log_level = "off";
  ro.silent = true;
  ro.channel = "yacl";
  ro.query_file = "query.csv";
  ro.output_file = "out.csv";
  ro.streaming_result = so.streaming_result;
  fs::remove("out.csv");
  int matches = -1, sret = -1, rret = -1;
  auto links = parties::World(2, 8000);
  auto res = parties::Run(links, {[&](parties::Link l) { sret = aw::cli::RunSender(so, l); },
                                  [&](parties::Link l) {
                                    rret = aw::cli::RunReceiver(ro, l, &matches);
                                    if (rret != 0) throw std::runtime_error("RunReceiver failed");
                                  }});
  REQUIRE(res.ok(), how << ": " << res.all());
  REQUIRE(sret == 0 && rret == 0, how << ": returned " << sret << "/" << rret);
  REQUIRE(matches == (int)w.want.size(), how << ": " << matches << " matches are counted, " << w.want.size() << " exist");
  CheckFile(w, "out.csv", how);
}
}  // namespace

// One database: generated, queried, saved, loaded and queried again.
PROP(apsi_single, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = Make(c, c.thorough ? 600 : 150, true);
  auto so = SenderOpt(c);
  so.streaming_result = c.flip();
  aw::cli::ReceiverOptions ro;
  if (c.flip()) ro.params_file = "params.json";  // otherwise asked of the sender
  bool save = c.chance(1, 3);
  if (save) so.sdb_out_file = "db.bin";
  c.label(save ? "saved and reloaded" : "in memory");
  Query(c, w, so, ro, "first query");
  if (save) {
    aw::cli::SenderOptions s2 = SenderOpt(c);
    s2.source_file = c.flip() ? "" : "db.csv";
    s2.db_file = "db.bin";
    s2.streaming_result = c.flip();
    fs::remove("db.csv");
    Query(c, w, s2, ro, "query of the saved database");
  }
}

// The database split into buckets, generated by worker processes.
PROP(apsi_bucket, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = Make(c, c.thorough ? 400 : 120, true);
  auto so = SenderOpt(c);
  so.experimental_enable_bucketize = true;
  so.experimental_bucket_cnt = c.skewed(1, 12);
  so.experimental_bucket_group_cnt = c.range(1, 5);
  so.experimental_db_generating_process_num = c.range(1, 4);
  so.experimental_bucket_folder = fs::absolute("bucket_db").string();
  so.save_db_only = true;
  c.note() << "buckets=" << so.experimental_bucket_cnt << " groups=" << so.experimental_bucket_group_cnt << " processes=" << so.experimental_db_generating_process_num << "; ";
  aw::cli::RunSender(so);
  so.save_db_only = false;
  so.streaming_result = c.flip();
  if (c.flip()) fs::remove("db.csv");
  aw::cli::ReceiverOptions ro;
  ro.params_file = "params.json";
  ro.experimental_enable_bucketize = true;
  ro.experimental_bucket_cnt = so.experimental_bucket_cnt;
  Query(c, w, so, ro, "query of the bucket database");
  c.metric("buckets", so.experimental_bucket_cnt);
}

// The offline API: every step's messages are strings.
PROP(apsi_api, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = Make(c, c.thorough ? 400 : 120, true);
  aw::api::Sender::Option o;
  o.source_file = "db.csv";
  o.db_path = fs::absolute("api_db").string();
  o.num_buckets = c.skewed(1, 12);
  o.group_cnt = c.range(1, std::min<size_t>(4, o.num_buckets));
  o.compress = c.flip();
  o.params_file = "params.json";
  c.note() << "buckets=" << o.num_buckets << " groups=" << o.group_cnt << "; ";
  auto sender = std::make_unique<aw::api::Sender>(o, c.range(1, 3));
  REQUIRE(sender->GenerateSenderDb(), "GenerateSenderDb failed");
  if (c.flip()) {
    c.label("reopened");
    fs::remove("db.csv");
    sender = std::make_unique<aw::api::Sender>(o.db_path, c.range(1, 3));
  }
  aw::api::Receiver receiver(o.num_buckets, c.range(1, 3));
  if (c.flip()) receiver.LoadParamsConfig("params.json");
  else receiver.LoadSenderParams(sender->GenerateParams());
  std::vector<std::string> keys;
  for (auto& r : w.query.rows) keys.push_back(r[0]);
  auto ctx = c.flip() ? receiver.BucketizeItems(keys) : receiver.BucketizeItems("query.csv");
  auto oprf = receiver.RequestOPRF(ctx);
  auto oprf_r = sender->RunOPRF(oprf);
  auto query = receiver.RequestQuery(ctx, oprf_r);
  auto resp = sender->RunQuery(query);
  auto sizes = receiver.ProcessResult(ctx, resp, "out.csv");
  size_t total = 0;
  for (auto s : sizes) total += s;
  REQUIRE(total == w.want.size(), total << " matches are counted, " << w.want.size() << " exist");
  CheckFile(w, "out.csv", "the API's result file");
  auto [k, v] = receiver.ProcessResult(ctx, resp);
  REQUIRE(std::set<std::string>(k.begin(), k.end()).size() == k.size() && k.size() == w.want.size(), "the API returns " << k.size() << " keys");
  REQUIRE(v.size() == (w.labelled ? k.size() : 0), "the API returns " << v.size() << " values for " << k.size() << " keys");
  for (size_t i = 0; i < k.size(); ++i) {
    REQUIRE(w.want.count(k[i]), "the API returns '" << k[i] << "'");
    if (w.labelled) REQUIRE(Strip(v[i]) == w.want[k[i]], "the API returns the wrong label of '" << k[i] << "'");
  }
  c.metric("buckets", o.num_buckets);
}

// The same through the C functions.
PROP(apsi_capi, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = Make(c, c.thorough ? 300 : 80, true);
  uint32_t buckets = c.skewed(1, 10), groups = c.range(1, std::min<uint32_t>(4, buckets)), nonce = c.chance(1, 4) ? c.range(0, 16) : 16;
  bool compress = c.flip();
  std::string path = fs::absolute("capi_db").string();
  c.note() << "buckets=" << buckets << " groups=" << groups << " nonce=" << nonce << "; ";
  ::Sender* sender = BucketSenderMake("db.csv", path.c_str(), groups, buckets, nonce, "params.json", compress);
  REQUIRE(sender != nullptr, "no sender is made");
  {
    aw::GroupDB g(path);
    REQUIRE(g.GetGroupNum() == groups && g.GetBucketNum() == buckets, "the database has " << g.GetGroupNum() << " groups and " << g.GetBucketNum() << " buckets, "
            << groups << " and " << buckets << " are asked for");
  }
  if (c.flip()) {
    c.label("reopened");
    BucketSenderFree(&sender);
    REQUIRE(sender == nullptr, "the freed sender is still referred to");
    fs::remove("db.csv");
    sender = BucketSenderLoad(path.c_str(), c.range(1, 3));
  }
  ::Receiver* receiver = BucketReceiverMake(buckets, c.range(1, 3));
  if (c.flip()) BucketReceiverSetThreadCount(receiver, c.range(1, 3));
  if (c.flip()) BucketReceiverLoadParamFile(receiver, "params.json");
  else {
    CString s = BucketSenderGenerateParams(sender);
    BucketReceiverLoadParamsStr(receiver, s);
    FreeCString(&s);
    REQUIRE(s.size == 0, "a freed string keeps its size");
  }
  std::vector<std::string> keys;
  for (auto& r : w.query.rows) keys.push_back(r[0]);
  CStringArray ks = aw::api::MakeCStringArray(keys);
  REQUIRE(aw::api::MakeStringArray(ks) == keys, "an array of strings does not survive its conversion");
  ::QueryCtx* ctx = c.flip() ? BucketReceiverMakeQueryCtxFromItems(receiver, ks) : BucketReceiverMakeQueryCtxFromFile(receiver, "query.csv");
  FreeCStringArray(&ks);
  bool one = c.flip();
  // a batch, or its parts one by one
  auto run = [&](CStringArray in, CString (*single)(::Sender*, CString), CStringArray (*batch)(::Sender*, CStringArray)) {
    if (!one) return batch(sender, in);
    std::vector<std::string> out;
    for (size_t i = 0; i < in.size; ++i) {
      CString s = single(sender, in.data[i]);
      out.push_back(aw::api::MakeString(s));
      REQUIRE(s.data[s.size] == 0, "a string is not terminated");
      FreeCString(&s);
    }
    return aw::api::MakeCStringArray(out);
  };
  auto oprf = BucketReceiverRequestOPRF(receiver, ctx);
  auto oprf_r = run(oprf, BucketSenderRunOPRFSingle, BucketSenderRunOPRFBatch);
  auto query = BucketReceiverRequestQuery(receiver, ctx, oprf_r);
  auto resp = run(query, BucketSenderRunQuerySingle, BucketSenderRunQueryBatch);
  REQUIRE(BucketReceiverProcessResultToFile(receiver, ctx, resp, "out.csv") == w.want.size(), "the number of matches differs from " << w.want.size());
  CheckFile(w, "out.csv", "the result file of the C functions");
  ::QueryResult* r = BucketReceiverProcessResult(receiver, ctx, resp);
  REQUIRE(r != nullptr && r->row_count == w.want.size() && r->keys.size == r->row_count, "the result has " << (r ? r->row_count : 0) << " rows, " << w.want.size() << " match");
  bool lab = w.labelled && !w.want.empty();
  REQUIRE(r->labeled == lab && r->values.size == (lab ? r->row_count : 0), "labels of the result: " << r->labeled << ", " << r->values.size);
  std::set<std::string> seen;
  for (size_t i = 0; i < r->row_count; ++i) {
    auto k = aw::api::MakeString(r->keys.data[i]);
    REQUIRE(w.want.count(k) && seen.insert(k).second, "'" << k << "' is returned, but is no match or was returned before");
    if (lab) REQUIRE(Strip(aw::api::MakeString(r->values.data[i])) == w.want[k], "the wrong label of '" << k << "' is returned");
  }
  FreeQueryResult(r);
  for (auto* a : {&oprf, &oprf_r, &query, &resp}) FreeCStringArray(a);
  BucketReceiverFreeQueryCtx(ctx);
  BucketReceiverFree(&receiver);
  BucketSenderFree(&sender);
  REQUIRE(receiver == nullptr && sender == nullptr, "freed objects are still referred to");
  c.metric("buckets", buckets);
}

// ---- double-keyed PIR ------------------------------------------------------
#include "psi/algorithm/dkpir/entry.h"
#include "psi/algorithm/dkpir/receiver.h"
#include "psi/algorithm/dkpir/sender.h"

namespace {
struct Dk {
  Params p;
  Table db, query;
  Row labels;
  std::vector<Row> want;  // key, labels...
  psi::dkpir::DkPirSenderOptions so;
  psi::dkpir::DkPirReceiverOptions ro;
  bool counted = false;
};
Dk MakeDk(Ctx& c) {
  Dk w;
  w.p = MakeParams(c);
  w.counted = c.chance(2, 3);
  int style;
  do style = c.below(tables::kStyles);
  while (style == 10 || style == 12 || style == 13);
  size_t nl = c.range(1, 3);
  for (size_t i = 0; i < nl; ++i) w.labels.push_back("label" + std::to_string(i + 1));
  Row order = w.labels;
  if (c.chance(1, 3)) order.push_back("unused");
  order.push_back("id");
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.below(i)]);
  w.db.cols = order;
  size_t n = c.skewed(1, 40), universe = n + c.below(6);
  int lstyle = c.below(3);
  std::vector<std::pair<uint64_t, Row>> all;
  for (size_t i = 0; i < n; ++i) {
    size_t times = c.chance(1, 3) ? c.range(2, 6) : 1;
    for (size_t t = 0; t < times; ++t) all.push_back({i, {}});
  }
  for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[c.below(i)]);
  for (auto& [id, row] : all) {
    row.push_back(tables::KeyVal(style, id));
    const Row* same = nullptr;
    if (c.chance(1, 3))
      for (auto& [id2, row2] : all)
        if (id2 == id && &row2 != &row && !row2.empty()) same = &row2;
    // some rows of a key repeat the labels of another one: a row each all the same
    for (size_t l = 0; l < nl; ++l) row.push_back(same && row.size() < same->size() ? (*same)[l + 1] : Label(c, lstyle, c.range(1, 16)));
    Row r;
    for (auto& col : order) {
      if (col == "id") r.push_back(row[0]);
      else if (col == "unused") r.push_back("u" + std::to_string(c.below(9)));
      else r.push_back(row[col.back() - '0']);
    }
    w.db.rows.push_back(r);
  }
  size_t most = w.p.hashes <= 2 ? 1 : std::min<size_t>(10, w.p.table / 8);
  std::set<uint64_t> asked;
  size_t q = c.range(1, most);
  // the count is checked against the number of queries: all of them are stored
  for (size_t i = 0; i < q; ++i) asked.insert(c.below(w.counted ? n : universe));
  w.query.cols = {"id"};
  for (auto id : asked) w.query.rows.push_back({tables::KeyVal(style, id)});
  for (size_t i = w.query.rows.size(); i > 1; --i) std::swap(w.query.rows[i - 1], w.query.rows[c.below(i)]);
  for (auto& [id, row] : all)
    if (asked.count(id)) w.want.push_back(row);
  tables::Spelling s1, s2;
  s1.quote = c.below(3), s2.quote = c.below(3);
  tables::WriteCsv("db.csv", w.db, s1);
  GenChunk(c, w.db.rows.size());
  tables::WriteCsv("query.csv", w.query, s2);
  std::ofstream("params.json") << w.p.Json();
  auto& so = w.so;
  so.threads = c.range(1, 4);
  so.compress = c.flip();
  so.streaming_result = c.flip();
  so.skip_count_check = !w.counted;
  so.curve_type = psi::CURVE_SM2;  // the stand-in for FourQ has no addition
  so.log_level = "off";
  so.silent = true;
  so.params_file = "params.json";
  so.source_file = "db.csv";
  so.value_sdb_out_file = "value.db";
  so.count_sdb_out_file = "count.db";
  so.secret_key_file = "secret.key";
  so.result_file = "count.csv";
  so.tmp_folder = fs::absolute("dk_tmp").string();
  so.key = "id";
  so.labels = w.labels;
  auto& ro = w.ro;
  ro.threads = c.range(1, 3);
  ro.streaming_result = so.streaming_result;
  ro.skip_count_check = so.skip_count_check;
  ro.curve_type = so.curve_type;
  ro.log_level = "off";
  ro.silent = true;
  ro.params_file = "params.json";
  ro.query_file = "query.csv";
  ro.result_file = "result.csv";
  ro.tmp_folder = fs::absolute("dk_tmp_r").string();
  ro.key = "id";
  ro.labels = w.labels;
  c.label(w.counted ? "rows are counted" : "no count");
  c.label(w.want.empty() ? "no match" : "matches");
  c.note() << w.p.Json() << " keys=" << n << " rows=" << all.size() << " labels=" << nl << " queries=" << w.query.rows.size() << " results=" << w.want.size()
           << " counted=" << w.counted << " style=" << style << "/" << lstyle << "; ";
  c.metric("rows", all.size());
  c.nontrivial(w.want.size() > w.query.rows.size() || (w.want.size() > 1 && n > 2));
  return w;
}
}  // namespace

PROP(dkpir, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = MakeDk(c);
  REQUIRE(psi::dkpir::SenderOffline(w.so) == 0, "SenderOffline failed");
  if (c.flip()) fs::remove("db.csv");
  int s = -1, r = -1;
  auto links = parties::World(2, 8000);
  auto res = parties::Run(links, {[&](parties::Link l) { s = psi::dkpir::SenderOnline(w.so, l); if (s) throw std::runtime_error("SenderOnline failed"); },
                                  [&](parties::Link l) { r = psi::dkpir::ReceiverOnline(w.ro, l); if (r) throw std::runtime_error("ReceiverOnline failed"); }});
  REQUIRE(res.ok(), res.all());
  auto t = tables::ReadCsv("result.csv");
  REQUIRE(t.has_value(), "no result file");
  Row cols = w.labels;
  cols.insert(cols.begin(), "id");
  REQUIRE(t->cols == cols, "the result's header has " << t->cols.size() << " columns, first is '" << (t->cols.empty() ? "" : t->cols[0]) << "'");
  auto got = t->rows, want = w.want;
  for (auto& row : got)
    for (auto& f : row) f = Strip(f);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  REQUIRE(got.size() == want.size(), got.size() << " rows are returned, the queried keys have " << want.size());
  for (size_t i = 0; i < got.size(); ++i)
    REQUIRE(got[i] == want[i], "a returned row of key '" << got[i][0] << "' differs from the stored one of '" << want[i][0] << "'");
  if (w.counted) {
    auto n = tables::ReadCsv("count.csv");
    REQUIRE(n && n->rows.size() == 1 && n->rows[0][0] == std::to_string(want.size()),
            "the sender's count is '" << (n && n->rows.size() ? n->rows[0][0] : "missing") << "' for " << want.size() << " rows");
  }
  for (auto d : {"dk_tmp", "dk_tmp_r"})
    REQUIRE(!fs::exists(d) || fs::is_empty(d), "temporary files are left in " << d);
}

// The receiver pays for the rows it gets: a false number of rows is refused.
namespace {
// A receiver that leaves some of the queried keys out of the count.
void OmittingReceiver(const psi::dkpir::DkPirReceiverOptions& o, parties::Link l, size_t omit, bool* got_seed, uint64_t* stated) {
  using psi::apsi_wrapper::YaclChannel;
  fs::create_directories(o.tmp_folder);
  auto params = aw::BuildPsiParams(o.params_file);
  psi::dkpir::DkPirReceiver r(*params, o);
  auto items = r.ExtractItems(o.tmp_folder + "/q.csv");
  l->ConnectToMesh();
  YaclChannel ch(l);
  ::apsi::ThreadPoolMgr::SetThreadCount(o.threads);
  auto sh = r.CreateShuffledOPRFReceiver(items);
  ch.send(r.CreateOPRFRequest(sh));
  auto resp = r.ReceiveOPRFResponse(ch);
  auto [hashed, keys] = r.ExtractHashes(resp, sh);
  ch.send(r.CreateQueryRequest(hashed));
  auto drop = [&](std::vector<::apsi::receiver::MatchRecord> v) {
    size_t left = omit;
    for (auto& m : v)
      if (m.found && left) m.found = false, --left;
    return v;
  };
  auto counts = drop(r.ReceiveQueryResponse(keys, ch));
  l->SendAsync(l->NextRank(), r.ComputeRowCountCt(counts).Serialize(true), "Send ct of total row count");
  auto data = drop(r.ReceiveQueryResponse(keys, ch));
  *stated = r.ComputeRowCount(data);
  l->SendAsync(l->NextRank(), yacl::ByteContainerView(stated, 8), "Send total row count");
  uint128_t seed;
  uint64_t counter;
  r.ReceiveShuffleSeed(l, seed, counter);
  *got_seed = true;
}
}  // namespace

// A receiver that does not count all of its keys is refused, and one that does is not.
PROP(dkpir_omit, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = MakeDk(c);
  if (!w.counted) throw Discard{};
  size_t q = w.query.rows.size(), omit = q > 1 && c.chance(5, 6) ? c.range(1, q - 1) : 0;
  c.note() << "omits " << omit << " of " << q << "; ";
  REQUIRE(psi::dkpir::SenderOffline(w.so) == 0, "SenderOffline failed");
  int s = -1;
  bool seed = false;
  uint64_t stated = 0;
  auto links = parties::World(2, 8000);
  auto res = parties::Run(links, {[&](parties::Link l) { s = psi::dkpir::SenderOnline(w.so, l); if (s) throw std::runtime_error("SenderOnline failed"); },
                                  [&](parties::Link l) { OmittingReceiver(w.ro, l, omit, &seed, &stated); }});
  c.nontrivial(omit > 0);
  c.label(omit ? "omits keys" : "counts all");
  if (omit) {
    REQUIRE(s != 0, "the sender accepts the count of " << q - omit << " keys for a query of " << q);
    REQUIRE(!fs::exists("count.csv"), "the sender stores a count that leaves keys out");
    REQUIRE(!seed, "the sender reveals its order to a receiver that left keys out");
  } else {
    REQUIRE(res.ok(), res.all());
    psi::dkpir::DkPirSender s1(w.so, false), s2(w.so, false);
    REQUIRE(s1.GetShuffleSeed() != s2.GetShuffleSeed(), "two senders shuffle with the same seed");
    REQUIRE(s == 0 && seed && stated == w.want.size(), "the count of " << w.want.size() << " rows is not accepted");
  }
}

PROP(dkpir_count, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = MakeDk(c);
  if (!w.counted) throw Discard{};
  REQUIRE(psi::dkpir::SenderOffline(w.so) == 0, "SenderOffline failed");
  int what = c.below(2);
  int64_t delta = c.flip() ? -1 - (int64_t)c.below(w.want.size()) : 1 + (int64_t)c.skewed(0, 1000000);
  bool changed = false;
  std::atomic<bool> revealed{false};
  auto links = parties::World(2, 8000);
  links[0]->ShimWorld().tamper = [&](size_t src, size_t, std::string& m) {
    if (src == 0 && changed && m.size() == 16) revealed = true;
    if (src != 1 || changed) return;
    if (what == 0 && m.size() == 8) {
      uint64_t v;
      memcpy(&v, m.data(), 8);
      if (v != w.want.size()) return;  // some other message of that size
      v += delta;
      memcpy(&m[0], &v, 8);
      changed = true;
    }
    if (what == 1 && m.size() == 8) {  // not the number of rows at all
      uint64_t v = c.u64();
      if (v == w.want.size()) return;
      memcpy(&m[0], &v, 8);
      changed = true;
    }
  };
  int s = -1;
  auto res = parties::Run(links, {[&](parties::Link l) { s = psi::dkpir::SenderOnline(w.so, l); if (s) throw std::runtime_error("SenderOnline failed"); },
                                  [&](parties::Link l) { if (psi::dkpir::ReceiverOnline(w.ro, l)) throw std::runtime_error("ReceiverOnline failed"); }});
  if (!changed) throw Discard{};
  c.label(what ? "random count" : delta < 0 ? "fewer rows" : "more rows");
  c.nontrivial(true);
  REQUIRE(s != 0, "the sender accepts a count that is off by " << (what ? 0 : delta) << " for " << w.want.size() << " rows");
  REQUIRE(!fs::exists("count.csv"), "the sender stores a count it has not been able to verify");
  REQUIRE(!revealed, "the sender reveals its order to a receiver whose count it has not been able to verify");
}

// ---- a database whose building was interrupted -----------------------------
#include <sys/wait.h>

#include "fsops.h"

PROP(apsi_resume, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = Make(c, 40, true);
  size_t buckets = c.range(1, 10), groups = c.range(1, 4);
  auto folder = fs::absolute("group_db").string();
  long at = c.skewed(0, 60), torn = c.below(101);
  auto build = [&] {
    aw::GroupDB db("db.csv", folder, groups, buckets, 16, "params.json", false);
    if (db.IsDBGenerated()) return;
    db.DivideGroup();
    for (size_t g = 0; g < groups; ++g) db.GenerateGroup(g);
    db.GenerateDone();
  };
  fs::create_directories(folder);
  pid_t pid = fork();
  if (pid == 0) {
    fsops::count = 0;
    fsops::exit_at = at;
    fsops::torn = torn;
    fsops::armed = true;
    try {
      build();
    } catch (...) {
      _exit(3);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  REQUIRE(code == 0 || code == 42, "building the database failed: " << code);
  c.label(code == 42 ? "interrupted" : "not interrupted");
  c.note() << "buckets=" << buckets << " groups=" << groups << " stop at " << at << "/" << torn << "% ";
  c.nontrivial(code == 42);
  aw::api::Sender::Option o;
  o.source_file = "db.csv";
  o.db_path = folder;
  o.num_buckets = buckets;
  o.group_cnt = groups;
  o.compress = false;
  o.params_file = "params.json";
  bool again = c.flip();
  try {
    if (again) build();
    else aw::api::Sender(o, c.range(1, 3)).GenerateSenderDb();
  } catch (const std::exception& e) {
    c.label("refused");
    c.nontrivial(false);
    REQUIRE(code == 42, "an uninterrupted database is refused: " << e.what());
    // Only an unreadable status file may stand in the way.
    REQUIRE(std::string(e.what()).find("json file") != std::string::npos, "the interrupted database cannot be completed: " << e.what());
    return;
  }
  size_t total = 0;
  aw::GroupDB db(folder);
  for (size_t b = 0; b < buckets; ++b) {
    auto item = db.GetBucketDB(b);
    if (item.sender_db) total += item.sender_db->get_item_count();
  }
  REQUIRE(total == w.rows.size(), "the database holds " << total << " of " << w.rows.size() << " rows after its building was interrupted and run again");
  aw::api::Sender sender(o.db_path, 2);
  aw::api::Receiver receiver(buckets, 2);
  receiver.LoadParamsConfig("params.json");
  auto ctx = receiver.BucketizeItems("query.csv");
  auto oprf = sender.RunOPRF(receiver.RequestOPRF(ctx));
  auto resp = sender.RunQuery(receiver.RequestQuery(ctx, oprf));
  receiver.ProcessResult(ctx, resp, "out.csv");
  CheckFile(w, "out.csv", "after the interruption");
}

// A table with a repeated key is refused before it is served.
PROP(apsi_dups, 60) {
  yacl::shim::SeedRand(c.u64());
  auto w = Make(c, 40, true);
  auto t = w.db;
  auto again = t.rows[c.below(t.rows.size())];
  if (w.labelled && c.flip()) again[1] = Label(c, 0, c.range(1, 9));
  t.rows.insert(t.rows.begin() + c.below(t.rows.size() + 1), again);
  tables::WriteCsv("db.csv", t, w.sp1);
  auto so = SenderOpt(c);
  so.save_db_only = true;
  so.sdb_out_file = "db.bin";
  if (c.chance(2, 3)) {
    so.experimental_enable_bucketize = true;
    so.experimental_bucket_cnt = c.range(1, 6);
    so.experimental_bucket_group_cnt = c.range(1, 3);
    so.experimental_db_generating_process_num = c.range(1, 3);
    so.experimental_bucket_folder = fs::absolute("bucket_db").string();
  }
  c.label(so.experimental_enable_bucketize ? "buckets" : "one database");
  c.nontrivial(true);
  bool refused = false;
  try {
    aw::cli::RunSender(so);
  } catch (const std::exception&) {
    refused = true;
  }
  REQUIRE(refused, "a database with the repeated key '" << again[0] << "' is built without an error");
}
