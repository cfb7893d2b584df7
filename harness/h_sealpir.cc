// SealPIR: every query is answered with exactly the row asked for.
#include <fcntl.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <set>

#include "parties.h"
#include "pbt.h"
#include "psi/algorithm/sealpir/seal_pir.h"
#include "psi/algorithm/sealpir/seal_pir_utils.h"
#include "yacl/crypto/rand/rand.h"

using namespace pbt;
using namespace psi::sealpir;
using Row = std::vector<uint8_t>;

namespace {
struct Init {
  Init() { parties::Quiet(); }
} init;

std::string Hex(const Row& v) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < v.size() && i < 24; ++i) snprintf(b, sizeof b, "%02x", v[i]), s += b;
  return s + (v.size() > 24 ? "..." : "") + "(" + std::to_string(v.size()) + ")";
}

std::vector<Row> MakeRows(Ctx& c, size_t rows, size_t len) {
  std::vector<Row> d(rows);
  int style = c.below(6);
  c.label(style == 0 ? "zero rows" : style == 1 ? "all ones" : style == 2 ? "sparse" : "random rows");
  for (size_t i = 0; i < rows; ++i) {
    d[i].assign(len, style == 1 ? 0xff : 0);
    if (style == 2) d[i][c.below(len)] = 1 + c.below(255);
    if (style >= 3) {
      auto b = c.bulk(len);
      d[i].assign(b.begin(), b.end());
    }
  }
  return d;
}

struct Shape {
  uint32_t n = 4096, logt = 20, dim = 2;
  size_t len = 1, rows = 1, per = 1;
};

Shape MakeShape(Ctx& c, size_t max_pts) {
  Shape s;
  if (c.chance(1, 40)) s.n = 8192;
  if (c.chance(1, 3)) s.logt = c.range(16, 21);
  try {
    seal::PlainModulus::Batching(s.n, s.logt + 1);
  } catch (const std::exception&) {
    s.logt = 20;  // no suitable prime of that size
  }
  s.dim = c.chance(1, 4) ? (c.flip() ? 1 : 3) : 2;
  size_t full = (size_t)s.logt * s.n / 8;  // bytes of one plaintext
  switch (c.below(7)) {
    case 0: s.len = 1 + c.below(8); break;
    case 1: s.len = 1 + c.below(300); break;
    case 2: s.len = full / (1 + c.below(6)); break;
    case 3: s.len = full - c.below(3); break;
    case 4: s.len = full + 1 + c.below(full); break;
    case 5: s.len = full * (1 + c.below(2)) + c.below(3); break;
    default: s.len = 1 + c.below(full);
  }
  size_t coeffs = (s.len * 8 + s.logt - 1) / s.logt;
  s.per = s.len > full ? 1 : s.n / coeffs;
  size_t parts = (s.len + full - 1) / full;
  size_t pts = std::max<size_t>(1, c.skewed(1, max_pts) / parts);
  if (parts == 1 && c.chance(1, s.dim == 3 ? 2 : 6)) {  // whole hypercubes and their neighbours
    size_t side = s.dim == 3 ? c.range(2, 4) : c.range(2, 6);
    pts = 1;
    for (uint32_t i = 0; i < s.dim; ++i) pts *= side;
    pts += c.below(3);
    pts -= 1;
  }
  s.rows = s.per * pts;
  if (s.per > 1 && c.flip()) s.rows -= c.below(s.per);
  if (s.rows == 0) s.rows = 1;
  return s;
}

template <typename T>
std::string Same(const T& a, const T& b) {
  return a == b ? "" : "differ";
}
}  // namespace

static void sealpir_queries(Ctx& c) {
  Shape s = MakeShape(c, c.thorough && c.chance(1, 6) ? 150 : c.chance(1, 8) ? 70 : 14);
  SealPirOptions o{s.n, s.rows, s.len, s.dim, s.logt};
  yacl::shim::SeedRand(c.u64());
  auto rows = MakeRows(c, s.rows, s.len);
  c.note() << "N=" << s.n << " logt=" << s.logt << " d=" << s.dim << " rows=" << s.rows << " bytes=" << s.len
           << " rows per plaintext=" << s.per;
  SealPirServer direct(o);
  SealPirClient a(o), b(o);
  REQUIRE(direct.GetPirParams().elements_per_plaintext == s.per,
          "elements per plaintext " << direct.GetPirParams().elements_per_plaintext);
  REQUIRE(!direct.DbSeted(), "a server without a database says it has one");
  int gen = c.below(4);
  if (gen == 3 && s.dim != 2) gen = 0;
  psi::pir::RawDatabase db(rows);
  c.note() << " load=" << gen;
  if (gen == 0) direct.GenerateFromRawData(db);
  if (gen == 1) direct.GenerateFromRawData(rows);
  if (gen == 2) {
    std::vector<yacl::ByteContainerView> v(rows.begin(), rows.end());
    direct.GenerateFromRawData(v);
  }
  if (gen == 3) direct.GenerateFromSimpleHashTable(db);
  REQUIRE(direct.DbSeted(), "the database is not marked as set");
  const auto& dv = direct.GetPirParams().dimension_vec;
  uint64_t prod = 1;
  for (auto x : dv) prod *= x;
  REQUIRE(dv.size() == s.dim && prod >= direct.GetPirParams().num_of_plaintexts, "dimensions do not cover the database");
  std::unique_ptr<SealPirServer> loaded;
  SealPirServer* server = &direct;
  if (c.flip()) {
    c.label("dumped and loaded");
    std::string f = c.scratch + "/db.bin";
    {
      std::ofstream out(f, std::ios::binary);
      direct.Dump(out);
    }
    int fd = open(f.c_str(), O_RDONLY);
    google::protobuf::io::FileInputStream in(fd);
    in.SetCloseOnDelete(true);
    loaded = SealPirServer::Load(in);
    server = loaded.get();
    REQUIRE(server->DbSeted() && server->GetPirType() == psi::pir::PirType::SEAL_PIR, "loaded database is not usable");
  }
  auto pks_a = a.GeneratePksString();
  auto pks_b = b.GeneratePksBuffer();
  auto gk = a.GenerateGaloisKeys();
  std::set<std::string> seen;
  size_t qsize = 0;
  size_t nq = c.range(1, 3);
  bool later = false;
  for (size_t q = 0; q < nq; ++q) {
    size_t i = c.below(4) == 0 ? s.rows - 1 : c.below(4) == 0 ? (c.below((s.rows + s.per - 1) / s.per)) * s.per : c.below(s.rows);
    later |= i > 0;
    REQUIRE(a.GetPtIndex(i) * s.per + a.GetPtOffset(i) == i && a.GetPtOffset(i) < s.per, "row " << i << " has plaintext "
            << a.GetPtIndex(i) << " offset " << a.GetPtOffset(i));
    Row got;
    int route = c.below(4);
    c.note() << " q" << i << "/" << route;
    std::string sent;
    if (route == 0) {
      auto query = a.GenerateQuery(a.GetPtIndex(i));
      sent = a.SerializeQueryToStr(query);
      auto r = server->GenerateResponse(query, gk);
      got = a.DecodeResponse(r, i);
    } else if (route == 1) {
      auto query = b.GenerateIndexQuery(i);
      sent.assign(query.data<char>(), query.size());
      auto r = server->Response(query, pks_b);
      got = b.DecodeIndexResponse(r, i);
    } else if (route == 2) {
      sent = a.GenerateIndexQueryStr(i);
      auto r = server->Response(sent, pks_a);
      got = a.DecodeIndexResponse(r, i);
    } else {
      auto query = a.GenerateSeededQuery(a.GetPtIndex(i));
      auto buf = a.SerializeSeededQuery(query);
      sent.assign(buf.data<char>(), buf.size());
      REQUIRE(a.SerializeSeededQueryToStr(query) == sent, "the two forms of the query differ");
      auto back = server->DeSerializeQuery(buf, c.flip());
      REQUIRE(back.size() == query.size(), "query of " << query.size() << " dimensions read as " << back.size());
      auto r = server->GenerateResponse(back, gk);
      auto rb = server->SerializeResponse(r);
      auto rr = a.DeSerializeResponse(yacl::ByteContainerView(rb), c.flip());
      REQUIRE(rr.size() == r.size(), "response of " << r.size() << " partitions read as " << rr.size());
      got = a.DecodeResponse(rr, i);
    }
    REQUIRE(got == rows[i], "row " << i << ": got " << Hex(got) << " expected " << Hex(rows[i]));
    REQUIRE(qsize == 0 || qsize == sent.size(), "a query takes " << qsize << " bytes, another " << sent.size());
    qsize = sent.size();
    // every ciphertext of every query is fresh
    SealPirQueryProto p;
    REQUIRE(p.ParseFromString(sent), "query does not parse");
    for (auto& d : p.query_cipher())
      for (auto& ct : d.ciphers()) REQUIRE(seen.insert(ct).second, "a ciphertext was sent twice");
  }
  c.nontrivial(s.rows > 1 && later);
}
static pbt::Reg reg_queries("sealpir", sealpir_queries, 60);

// Lists of plaintexts and ciphertexts survive their encodings.
static void sealpir_lists(Ctx& c) {
  SealPirOptions o{4096, 1 + c.below(50), 1 + c.below(50), 2, 20};
  yacl::shim::SeedRand(c.u64());
  SealPirClient a(o);
  size_t n = c.below(6);
  c.note() << n << " objects";
  c.nontrivial(n > 1);
  std::vector<seal::Plaintext> pts;
  for (size_t i = 0; i < n; ++i) {
    seal::Plaintext p(1 + c.below(64));
    for (size_t j = 0; j < p.coeff_count(); ++j) p[j] = c.below(1 << 20);
    pts.push_back(p);
  }
  auto s = a.SerializePlaintexts(pts);
  auto back = a.DeSerializePlaintexts(s, c.flip());
  REQUIRE(back.size() == n, n << " plaintexts read as " << back.size());
  for (size_t i = 0; i < n; ++i) REQUIRE(back[i].v_ == pts[i].v_, "plaintext " << i << " changed");
  std::vector<seal::Ciphertext> cts;
  for (size_t i = 0; i < n; ++i) {
    auto q = a.GenerateQuery(0);
    cts.push_back(q[c.below(q.size())][0]);
  }
  auto cb = a.SerializeCiphertexts(cts);
  auto cs = a.SerializeCiphertextsToStr(cts);
  REQUIRE(std::string(cb.data<char>(), cb.size()) == cs, "the two encodings of ciphertexts differ");
  auto cback = a.DeSerializeCiphertexts(yacl::ByteContainerView(cs), c.flip());
  REQUIRE(cback.size() == n, n << " ciphertexts read as " << cback.size());
  for (size_t i = 0; i < n; ++i) REQUIRE(cback[i].v_ == cts[i].v_, "ciphertext " << i << " changed");
}
static pbt::Reg reg_lists("sealpir_lists", sealpir_lists, 30);

// Messages with parts missing or repeated are refused or give some row, and
// never make a party read outside what it received.
static void sealpir_damaged(Ctx& c) {
  SealPirOptions o{4096, 1, 1, 1 + (uint32_t)c.below(3), 20};
  o.element_size = c.flip() ? 1 + c.below(3000) : 10241 + c.below(9000);
  size_t per = o.element_size > 10240 ? 1 : 4096 / ((o.element_size * 8 + 19) / 20);
  o.element_number = 1 + c.below(per * 5);
  yacl::shim::SeedRand(c.u64());
  std::vector<Row> rows(o.element_number, Row(o.element_size, 7));
  SealPirServer server(o);
  SealPirClient client(o);
  server.GenerateFromRawData(psi::pir::RawDatabase(rows));
  size_t i = c.below(o.element_number);
  auto query = client.GenerateIndexQueryStr(i);
  auto pks = client.GeneratePksString();
  int what = c.below(2);
  auto lists = [&](auto* outer, auto add) {
    for (size_t k = c.range(1, 2); k > 0; --k) switch (c.below(5)) {
      case 0: if (outer->size()) outer->RemoveLast(); break;
      case 1: *add() = outer->size() ? outer->Get(c.below(outer->size())) : CiphertextsProto(); break;
      case 2: outer->Clear(); break;
      case 3: if (outer->size()) { auto* m = outer->Mutable(c.below(outer->size())); if (m->ciphers_size()) m->mutable_ciphers()->RemoveLast(); } break;
      default: if (outer->size()) { auto* m = outer->Mutable(c.below(outer->size())); if (m->ciphers_size()) m->add_ciphers(m->ciphers(0)); else m->add_ciphers(""); }
    }
  };
  c.note() << "rows=" << rows.size() << " bytes=" << o.element_size << " d=" << o.dimension << " damaged: " << (what ? "response" : "query");
  c.label(what ? "response" : "query");
  c.nontrivial(true);
  std::string how = "some result";
  try {
    if (what == 0) {
      SealPirQueryProto p;
      p.ParseFromString(query);
      lists(p.mutable_query_cipher(), [&] { return p.add_query_cipher(); });
      query = p.SerializeAsString();
    }
    auto r = server.Response(query, pks);
    if (what == 1) {
      SealPirResponseProto p;
      p.ParseFromString(r);
      lists(p.mutable_response_cipher(), [&] { return p.add_response_cipher(); });
      r = p.SerializeAsString();
    }
    client.DecodeIndexResponse(r, i);
  } catch (const std::exception& e) {
    how = std::string("refused: ") + e.what();
  }
  c.note() << ": " << how.substr(0, 200);
  c.label(how.substr(0, 7));
}
static pbt::Reg reg_damaged_sealpir("sealpir_damaged", sealpir_damaged, 60, /*slow_ok=*/true);
