// Curve-based building blocks: ECDH-OPRF and its PSI steps, ECC cryptors,
// and hashing to Curve25519 against an independent RFC 9380 reference.
#include <future>
#include <openssl/bn.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <numeric>
#include <set>
#include "parties.h"
#include "wire.h"
#include "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h"
#include "psi/algorithm/ecdh/ub_psi/ecdh_oprf_selector.h"
#include "psi/algorithm/ecdh/ub_psi/ub_psi_cache.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/cryptor/hash_to_curve_elligator2.h"
#include "tables.h"
using namespace pbt;
using namespace psi::ecdh;

namespace {
struct Init { Init() { parties::Quiet(); } } init;
template <class F>
bool Throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
std::string Item(Ctx& c) {
  switch (c.below(4)) {
    case 0: return "item" + std::to_string(c.below(30));
    case 1: return c.bytes(c.below(5));
    case 2: return c.bulk(c.below(200));
    default: return std::to_string(c.u64());
  }
}
psi::CurveType Curve(Ctx& c) {
  return c.pick(std::vector<psi::CurveType>{psi::CURVE_FOURQ, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1});
}
std::string Hex(const std::string& s) {
  std::string r;
  char b[3];
  for (unsigned char x : s) { snprintf(b, 3, "%02x", x); r += b; }
  return r;
}
std::vector<uint8_t> Key(Ctx& c) {
  auto s = c.bulk(32);
  if (c.chance(1, 8)) s[31] = 0, s[0] = 1;   // short scalar
  std::vector<uint8_t> k(s.begin(), s.end());
  return k;
}
}  // namespace

// The OPRF identities over every curve, key, item and batch.
PROP(oprf_laws, 20) {
  auto curve = Curve(c);
  auto key = Key(c);
  auto server = c.chance(1, 3) ? CreateEcdhOprfServer(OprfType::Basic, curve) : CreateEcdhOprfServer(key, OprfType::Basic, curve);
  auto pk = server->GetPrivateKey();
  auto twin = CreateEcdhOprfServer(pk, OprfType::Basic, curve);
  REQUIRE(twin->GetPrivateKey() == pk, "the private key does not round-trip");
  size_t n = 1 + c.below(6);
  std::vector<std::string> items;
  for (size_t i = 0; i < n; ++i) items.push_back(Item(c));
  size_t cl = server->GetCompareLength(), el = server->GetEcPointLength();
  bool fixed = c.flip();
  auto ck = Key(c);
  std::vector<std::unique_ptr<IEcdhOprfClient>> cs;
  for (size_t i = 0; i < n; ++i)
    cs.push_back(fixed ? CreateEcdhOprfClient(ck, OprfType::Basic, curve) : CreateEcdhOprfClient(OprfType::Basic, curve));
  REQUIRE(cs[0]->GetCompareLength() == cl && cs[0]->GetEcPointLength() == el, "client and server lengths differ");
  if (c.chance(1, 3)) {
    size_t want = 1 + c.below(32);
    server->SetCompareLength(want); twin->SetCompareLength(want);
    for (auto& x : cs) x->SetCompareLength(want);
    cl = want;
    REQUIRE(server->GetCompareLength() == want, "compare length is not the one set");
  }
  c.label(psi::CurveType_Name(curve));
  c.nontrivial(n > 1);
  c.note() << psi::CurveType_Name(curve) << " " << n << " items";
  std::vector<std::string> blinded, evaluated, simple, full;
  for (size_t i = 0; i < n; ++i) {
    blinded.push_back(cs[i]->Blind(items[i]));
    REQUIRE(blinded[i].size() == el, "blinded length " << blinded[i].size() << ", expected " << el);
    evaluated.push_back(server->Evaluate(blinded[i]));
    REQUIRE(evaluated[i].size() == el, "evaluated length");
    simple.push_back(server->SimpleEvaluate(items[i]));
    full.push_back(server->FullEvaluate(items[i]));
    REQUIRE(simple[i].size() == cl && full[i].size() == cl, "result length");
    REQUIRE(twin->SimpleEvaluate(items[i]) == simple[i] && twin->FullEvaluate(items[i]) == full[i], "two servers with one key differ on " << Hex(items[i]));
    REQUIRE(twin->Evaluate(blinded[i]) == evaluated[i], "two servers with one key evaluate differently");
    REQUIRE(cs[i]->Finalize(evaluated[i]) == simple[i], "Finalize(Evaluate(Blind(x))) != SimpleEvaluate(x) for x=" << Hex(items[i]));
    REQUIRE(cs[i]->Finalize(items[i], evaluated[i]) == full[i], "Finalize(x,Evaluate(Blind(x))) != FullEvaluate(x) for x=" << Hex(items[i]));
    if (cl >= 12) REQUIRE(items[i].empty() || simple[i] != full[i], "the item is not bound into the full evaluation");
    // Unblinding removes exactly the blinding: it gives the server's own mask.
    auto other = CreateEcdhOprfClient(OprfType::Basic, curve);
    REQUIRE(other->Unblind(server->Evaluate(other->Blind(items[i]))) == cs[i]->Unblind(evaluated[i]), "two clients unblind one item to different points");
    REQUIRE(other->Blind(items[i]) != blinded[i], "two fresh clients blind an item equally");
    REQUIRE(cs[i]->Blind(items[i]) == blinded[i], "blinding with a fixed key is not a function");
  }
  if (cl >= 12)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < i; ++j) {
        REQUIRE((simple[i] == simple[j]) == (items[i] == items[j]) && (full[i] == full[j]) == (items[i] == items[j]),
                "equality of results does not follow equality of items " << Hex(items[i]) << " and " << Hex(items[j]));
        if (fixed) REQUIRE((blinded[i] == blinded[j]) == (items[i] == items[j]), "blinding with one key is not injective");
      }
  REQUIRE(server->FullEvaluate(absl::MakeSpan(items)) == full, "batched FullEvaluate differs");
  REQUIRE(server->Evaluate(absl::MakeSpan(blinded)) == evaluated, "batched Evaluate differs");
  if (fixed) {
    REQUIRE(cs[0]->Blind(absl::MakeSpan(items)) == blinded, "batched Blind differs");
    REQUIRE(cs[0]->Finalize(absl::MakeSpan(evaluated)) == simple, "batched Finalize differs");
    REQUIRE(cs[0]->Finalize(absl::MakeSpan(items), absl::MakeSpan(evaluated)) == full, "batched Finalize with items differs");
  }
  auto fresh = CreateEcdhOprfServer(OprfType::Basic, curve);
  if (cl >= 12) REQUIRE(fresh->SimpleEvaluate(items[0]).substr(0, 12) != simple[0].substr(0, 12), "a fresh server has the same key");
}

namespace {
struct X { std::string item; uint32_t dup; };
struct Provider : psi::IBasicBatchProvider {
  std::vector<X> v;
  std::vector<size_t> sizes;
  size_t pos = 0, k = 0;
  bool b64 = false;
  [[nodiscard]] size_t batch_size() const override { return 7; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::vector<std::string> r;
    std::unordered_map<uint32_t, uint32_t> d;
    size_t e = std::min(v.size(), pos + (k < sizes.size() ? sizes[k] : 3));
    ++k;
    for (; pos < e; ++pos) {
      if (v[pos].dup) d[r.size()] = v[pos].dup;
      r.push_back(v[pos].item);
    }
    return {r, d};
  }
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
};
struct Shuffled : psi::IShuffledBatchProvider {
  std::vector<X> v;
  std::vector<size_t> order, sizes;  // order[j] = original index at shuffled position j
  size_t pos = 0, k = 0;
  [[nodiscard]] size_t batch_size() const override { return 7; }
  ShuffledBatch ReadNextShuffledBatch() override {
    ShuffledBatch b;
    size_t e = std::min(v.size(), pos + (k < sizes.size() ? sizes[k] : 3));
    ++k;
    for (; pos < e; ++pos) {
      b.batch_items.push_back(v[order[pos]].item);
      b.batch_indices.push_back(order[pos]);
      b.shuffled_indices.push_back(pos);
      b.dup_cnts.push_back(v[order[pos]].dup);
    }
    return b;
  }
};
struct RecCache : psi::IUbPsiCache {
  struct E { std::string d; size_t i, s; uint32_t dup; };
  std::vector<E> v;
  void SaveData(yacl::ByteContainerView d, size_t i, size_t s) override { SaveData(d, i, s, 0); }
  void SaveData(yacl::ByteContainerView d, size_t i, size_t s, uint32_t dup) override { v.push_back({std::string((const char*)d.data(), d.size()), i, s, dup}); }
};
std::string B64(const std::string& s) {
  std::string r((s.size() + 2) / 3 * 4 + 1, 0);
  r.resize(EVP_EncodeBlock((unsigned char*)r.data(), (const unsigned char*)s.data(), s.size()));
  return r;
}
std::vector<X> GenSet(Ctx& c, size_t n, const std::string& own, size_t common) {
  std::set<std::string> s;
  std::vector<X> v;
  for (size_t i = 0; i < n; ++i) {
    auto x = i < common ? "common" + std::to_string(i) : own + std::to_string(i);
    if (c.chance(1, 10)) x += c.bytes(2);
    if (s.insert(x).second) v.push_back({x, c.chance(1, 3) ? (uint32_t)c.below(6) : 0});
  }
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.below(i)]);
  return v;
}
std::vector<size_t> Sizes(Ctx& c) {
  std::vector<size_t> s;
  for (int i = 0; i < 60; ++i) s.push_back(1 + c.skewed(0, 12));
  return s;
}
}  // namespace

// The PSI steps built from the OPRF, over two linked parties: what the client
// stores meets what the server evaluated exactly on equal items, with the
// counts of duplicates, for every batching and for shuffled answers.
static void OprfPsi(pbt::Ctx& c, bool fail) {
  auto w = parties::World(2, fail ? 2000 : 8000);
  auto w2 = parties::World(2, fail ? 2000 : 8000);
  // The links of one side break down at an operation of their own.
  std::atomic<size_t> ops{0};
  std::atomic<bool> broken{false};
  size_t side = fail ? c.below(2) : 0, at = fail ? c.skewed(0, 60) : 0;
  if (fail)
    for (auto* x : {&w, &w2})
      (*x)[0]->ShimWorld().hook = [&](size_t r, const char*) {
        if (r != side || ops++ < at) return;
        if (!broken.exchange(true))
          for (auto* y : {&w, &w2}) (*y)[0]->ShimWorld().Kill(side);
        YACL_THROW_IO_ERROR("link broken");
      };
  auto curve = c.chance(1, 6) ? Curve(c) : psi::CURVE_FOURQ;
  size_t common = c.skewed(0, 15);
  auto sv = GenSet(c, common + c.skewed(0, 25), "s", common), cv = GenSet(c, common + c.skewed(0, 25), "c", common);
  bool shuffle = c.flip(), server_gets = shuffle || c.flip(), to_cache = c.flip(), send = !to_cache || c.flip();
  size_t bs = 1 + c.below(20), win = 1 + c.below(4);
  auto sp = std::make_shared<Shuffled>();
  sp->v = sv; sp->sizes = Sizes(c);
  sp->order.resize(sv.size());
  std::iota(sp->order.begin(), sp->order.end(), 0);
  for (size_t i = sv.size(); i > 1; --i) std::swap(sp->order[i - 1], sp->order[c.below(i)]);
  auto cp = std::make_shared<Provider>();
  cp->v = cv; cp->sizes = Sizes(c);
  auto skey = Key(c), ckey = Key(c);
  bool own_key = c.flip();
  c.note() << psi::CurveType_Name(curve) << " server " << sv.size() << " client " << cv.size() << " common " << common << (shuffle ? " shuffled" : "") << " batch " << bs << " window " << win;
  c.label(shuffle ? "shuffled" : "plain");
  c.nontrivial(sv.size() > 3 && cv.size() > 3 && common > 0);
  yacl::shim::SeedRand(c.u64());
  auto opt = [&](size_t r) { EcdhOprfPsiOptions o; o.cache_transfer_link = w[r]; o.online_link = w2[r]; o.curve_type = curve; o.batch_size = bs; o.window_size = win; return o; };
  auto cache = std::make_shared<RecCache>();
  auto peer = std::make_shared<psi::MemoryEcPointStore>(), self = std::make_shared<psi::MemoryEcPointStore>();
  EcdhOprfPsiServer::PeerCntInfo info;
  EcdhOprfPsiServer::IndexInfo idx;
  std::pair<std::vector<uint64_t>, size_t> hit;
  std::vector<uint32_t> pi, si;
  std::array<uint8_t, 32> used{};
  std::vector<X> chosen;
  std::vector<size_t> c_sizes = Sizes(c), s_sizes = Sizes(c), t_sizes = Sizes(c);
  size_t n_full = 0, n_sent = 0, n_blind = 0, clen = 0;
  std::vector<bool> choose;
  for (size_t i = 0; i < 80; ++i) choose.push_back(c.flip());
  auto r = parties::Run(w, {[&](parties::Link) {
    auto s = own_key ? std::make_unique<EcdhOprfPsiServer>(opt(0), skey) : std::make_unique<EcdhOprfPsiServer>(opt(0));
    used = s->GetPrivateKey();
    clen = s->GetCompareLength();
    if (to_cache) {
      n_full = send ? s->FullEvaluateAndSend(sp, cache) : s->FullEvaluate(sp, cache, false);
      if (!send) {
        auto p = std::make_shared<Provider>();
        p->sizes = t_sizes;
        for (auto& e : cache->v) p->v.push_back({e.d, e.dup});
        n_sent = s->SendFinalEvaluatedItems(p);
      } else n_sent = n_full;
    } else {
      n_sent = n_full = s->FullEvaluateAndSend(sp);
    }
    info = shuffle ? s->RecvBlindAndShuffleSendEvaluate() : s->RecvBlindAndSendEvaluate();
    idx = s->RecvCacheIndexes();
    if (to_cache) {
      auto p = std::make_shared<Shuffled>();
      p->sizes = s_sizes;
      for (auto& e : cache->v) p->v.push_back({e.d, e.dup});
      p->order.resize(p->v.size());
      std::iota(p->order.begin(), p->order.end(), 0);
      hit = s->RecvIntersectionMaskedItems(p);
    }
  }, [&](parties::Link) {
    auto cl = shuffle ? std::make_unique<EcdhOprfPsiClient>(opt(1), ckey) : std::make_unique<EcdhOprfPsiClient>(opt(1));
    cl->RecvFinalEvaluatedItems(peer);
    // As the unbalanced PSI client does: nobody but the two sides themselves wakes the other up.
    auto sending = std::async(std::launch::async, [&] { n_blind = cl->SendBlindedItems(cp, server_gets); });
    cl->RecvEvaluatedItems(self);
    sending.get();
    for (size_t i = 0; i < self->content().size(); ++i)
      for (size_t j = 0; j < peer->content().size(); ++j)
        if (self->content()[i] == peer->content()[j]) { pi.push_back(j); si.push_back(i); }
    cl->SendServerCacheIndexes(pi, si);
    if (to_cache) {
      auto p = std::make_shared<Provider>();
      p->sizes = c_sizes;
      for (size_t i = 0; i < si.size(); ++i) if (choose[i % 80]) { chosen.push_back({self->content()[si[i]], 0}); p->v.push_back({B64(self->content()[si[i]]), 0}); }
      cl->SendIntersectionMaskedItems(p);
    }
  }});
  if (fail) {
    c.note() << " links of side " << side << " break at operation " << at << (broken ? "" : " (not reached)") << ": " << r.all();
    c.label(broken ? side ? "client broken" : "server broken" : "not reached");
    c.nontrivial(broken);
    // The other side may have had all it needs; whoever finished has it all.
    if (broken) {
      if (r.err[1].empty()) REQUIRE(peer->content().size() == sv.size() && self->content().size() == cv.size(), "the client reports success with " << peer->content().size() << " of " << sv.size() << " and " << self->content().size() << " of " << cv.size() << " values");
      if (r.err[0].empty()) REQUIRE(info.peer_unique_cnt == cv.size(), "the server reports success with " << info.peer_unique_cnt << " of " << cv.size() << " client items");
      REQUIRE(!r.err[side].empty(), "the side whose links broke reports success");
      return;
    }
  }
  REQUIRE(r.ok(), r.all());
  if (own_key) REQUIRE(std::equal(used.begin(), used.end(), skey.begin()), "the server's key is not the given one");
  REQUIRE(n_full == sv.size() && n_sent == sv.size() && n_blind == cv.size(), "counts " << n_full << " " << n_sent << " " << n_blind << " for " << sv.size() << " server and " << cv.size() << " client items");
  auto& pc = peer->content();
  auto& sc = self->content();
  REQUIRE(pc.size() == sv.size() && sc.size() == cv.size(), "stored " << pc.size() << " and " << sc.size());
  // Server side: position j holds item order[j] under the server's key.
  auto ref = CreateEcdhOprfServer(used, OprfType::Basic, curve);
  for (size_t j = 0; j < pc.size(); ++j) {
    auto& x = sv[sp->order[j]];
    REQUIRE(pc[j] == ref->SimpleEvaluate(x.item), "server position " << j << " is not the value of its item");
    auto it = peer->GetDupMap().find(j);
    uint32_t d = it == peer->GetDupMap().end() ? 0 : it->second;
    REQUIRE(d == x.dup, "server position " << j << " has duplicate count " << d << ", expected " << x.dup);
  }
  if (to_cache) {
    REQUIRE(cache->v.size() == sv.size(), "cache has " << cache->v.size() << " items");
    for (size_t j = 0; j < sv.size(); ++j)
      REQUIRE(cache->v[j].d == pc[j] && cache->v[j].i == sp->order[j] && cache->v[j].s == j && cache->v[j].dup == sv[sp->order[j]].dup, "cache entry " << j);
  }
  std::map<std::string, size_t> by;
  for (size_t i = 0; i < cv.size(); ++i) by[ref->SimpleEvaluate(cv[i].item)] = i;
  std::set<size_t> seen;
  for (size_t j = 0; j < sc.size(); ++j) {
    REQUIRE(by.count(sc[j]), "client position " << j << " is no value of a client item");
    size_t i = by[sc[j]];
    REQUIRE(seen.insert(i).second, "client item " << i << " was answered twice");
    if (!shuffle) REQUIRE(i == j, "client position " << j << " holds the value of item " << i);
    auto it = info.peer_dup_cnt.find(j);
    uint32_t d = it == info.peer_dup_cnt.end() ? 0 : it->second, want = server_gets ? cv[i].dup : 0;
    REQUIRE(d == want, "the server has duplicate count " << d << " for position " << j << ", expected " << want);
  }
  uint64_t total = cv.size();
  if (server_gets) for (auto& x : cv) total += x.dup;
  REQUIRE(info.peer_unique_cnt == cv.size() && info.peer_total_cnt == total, "peer counts " << info.peer_unique_cnt << "/" << info.peer_total_cnt << ", expected " << cv.size() << "/" << total);
  std::set<std::string> a, b, want, got;
  for (auto& x : sv) a.insert(x.item);
  for (auto& x : cv) if (a.count(x.item)) want.insert(x.item);
  REQUIRE(idx.cache_index == pi && idx.client_index == si, "indexes changed on the way");
  for (size_t k = 0; k < pi.size(); ++k) {
    got.insert(sv[sp->order[pi[k]]].item);
    REQUIRE(cv[by[sc[si[k]]]].item == sv[sp->order[pi[k]]].item, "matched positions hold different items");
  }
  REQUIRE(got == want && pi.size() == want.size(), "matched " << pi.size() << " items, expected " << want.size());
  if (to_cache) {
    REQUIRE(hit.second == sv.size(), "cache items read: " << hit.second);
    std::multiset<uint64_t> g(hit.first.begin(), hit.first.end()), e;
    for (auto& x : chosen) for (size_t j = 0; j < pc.size(); ++j) if (pc[j] == x.item) e.insert(j);
    REQUIRE(g == e, "the server found " << g.size() << " sent items, expected " << e.size());
  }
}

// Masks of the pluggable curve cryptors commute, are functions of the key,
// and do not depend on how items are batched.
PROP(oprf_psi, 30) { OprfPsi(c, false); }
PROP(oprf_failure, 25) { OprfPsi(c, true); }

PROP(ecc_cryptor, 20) {
  auto curve = c.pick(std::vector<psi::CurveType>{psi::CURVE_25519, psi::CURVE_25519_ELLIGATOR2, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1});
  auto a = psi::CreateEccCryptor(curve), b = psi::CreateEccCryptor(curve), a2 = psi::CreateEccCryptor(curve);
  if (c.flip()) { auto k = Key(c); a->SetPrivateKey(k); auto g = a->GetPrivateKey(); REQUIRE(std::equal(g.begin(), g.end(), k.begin()), "private key does not round-trip"); }
  a2->SetPrivateKey(a->GetPrivateKey());
  bool slow = curve == psi::CURVE_25519_ELLIGATOR2;
  size_t n = c.skewed(0, slow ? 6 : 30);
  std::vector<std::string> items;
  for (size_t i = 0; i < n; ++i) items.push_back(Item(c));
  c.label(psi::CurveType_Name(curve));
  c.nontrivial(n > 1);
  c.note() << psi::CurveType_Name(curve) << " " << n << " items";
  if (curve != psi::CURVE_25519_ELLIGATOR2) REQUIRE(a->GetCurveType() == curve, "curve type is " << a->GetCurveType());
  auto h = a->HashInputs(items);
  REQUIRE(h.size() == n, "HashInputs gave " << h.size() << " points for " << n);
  auto ha = a->SerializeEcPoints(h), hb = b->SerializeEcPoints(b->HashInputs(items));
  REQUIRE(ha == hb, "two cryptors hash items to different points");
  auto ma = a->EccMask(h), mb = b->EccMask(h);
  auto sa = a->SerializeEcPoints(ma), sb = b->SerializeEcPoints(mb);
  REQUIRE(sa.size() == n && sb.size() == n, "sizes");
  REQUIRE(a2->SerializeEcPoints(a2->EccMask(h)) == sa, "one key gives two masks");
  auto ab = b->SerializeEcPoints(b->EccMask(b->DeserializeEcPoints(sa)));
  auto ba = a->SerializeEcPoints(a->EccMask(a->DeserializeEcPoints(sb)));
  for (size_t i = 0; i < n; ++i) {
    REQUIRE(sa[i].size() == a->GetMaskLength(), "mask length " << sa[i].size() << ", stated " << a->GetMaskLength());
    REQUIRE(ab[i] == ba[i], "masking by a then b differs from b then a for item " << Hex(items[i]));
    REQUIRE(sa[i] != sb[i], "two fresh keys mask item " << Hex(items[i]) << " equally");
    REQUIRE(sa[i] != ha[i], "masking does not change the point");
    // one by one and in pieces
    auto one = a->SerializeEcPoints(a->EccMask(a->HashInputs({items[i]})));
    REQUIRE(one.size() == 1 && one[0] == sa[i], "item " << i << " masked alone differs");
    for (size_t j = 0; j < i; ++j)
      REQUIRE((sa[i] == sa[j]) == (items[i] == items[j]) && (ab[i] == ab[j]) == (items[i] == items[j]), "equality of masks does not follow equality of items " << Hex(items[i]) << " and " << Hex(items[j]));
  }
  auto rt = a->SerializeEcPoints(a->DeserializeEcPoints(ab));
  REQUIRE(rt == ab, "points do not survive serialization");
}

// Cryptors of different curves put one item at different points (fails today
// for secp256k1, see known_findings.txt).
PROP(probe_secp256k1, 20) {
  auto a = psi::CreateEccCryptor(psi::CURVE_SM2), b = psi::CreateEccCryptor(psi::CURVE_SECP256K1);
  std::string x = Item(c);
  REQUIRE(a->SerializeEcPoints(a->HashInputs({x})) != b->SerializeEcPoints(b->HashInputs({x})), "CURVE_SECP256K1 and CURVE_SM2 use one curve");
}

// ---------------------------------------------------------------- RFC 9380
namespace {
struct Bn {
  BIGNUM* b;
  Bn() : b(BN_new()) {}
  Bn(uint64_t v) : b(BN_new()) { BN_set_word(b, v); }
  Bn(const Bn& o) : b(BN_dup(o.b)) {}
  Bn& operator=(const Bn& o) { BN_copy(b, o.b); return *this; }
  ~Bn() { BN_free(b); }
  bool operator==(const Bn& o) const { return BN_cmp(b, o.b) == 0; }
};
BN_CTX* Cx() { static BN_CTX* x = BN_CTX_new(); return x; }
const Bn& Pm() { static Bn p = [] { Bn x(1); BN_lshift(x.b, x.b, 255); BN_sub_word(x.b, 19); return x; }(); return p; }
Bn operator+(const Bn& a, const Bn& b) { Bn r; BN_mod_add(r.b, a.b, b.b, Pm().b, Cx()); return r; }
Bn operator-(const Bn& a, const Bn& b) { Bn r; BN_mod_sub(r.b, a.b, b.b, Pm().b, Cx()); return r; }
Bn operator*(const Bn& a, const Bn& b) { Bn r; BN_mod_mul(r.b, a.b, b.b, Pm().b, Cx()); return r; }
Bn Inv(const Bn& a) { Bn r; BN_mod_inverse(r.b, a.b, Pm().b, Cx()); return r; }
bool Sqrt(const Bn& a, Bn& r) { if (BN_is_zero(a.b)) { r = Bn(0); return true; } return BN_mod_sqrt(r.b, a.b, Pm().b, Cx()) != nullptr; }
std::string Sha512(const std::string& s) {
  unsigned char d[64]; unsigned n = 0;
  EVP_Digest(s.data(), s.size(), d, &n, EVP_sha512(), nullptr);
  return std::string((char*)d, 64);
}
std::string Expand(const std::string& msg, const std::string& dst, size_t len) {
  std::string dp = dst + char(dst.size()), out, b0, bi;
  b0 = Sha512(std::string(128, 0) + msg + char(len >> 8) + char(len & 255) + char(0) + dp);
  bi = Sha512(b0 + char(1) + dp);
  out = bi;
  for (int i = 2; out.size() < len; ++i) {
    std::string x = b0;
    for (size_t j = 0; j < 64; ++j) x[j] ^= bi[j];
    bi = Sha512(x + char(i) + dp);
    out += bi;
  }
  return out.substr(0, len);
}
struct Pt { Bn x, y; };
Pt Map(const Bn& u) {
  Bn J(486662), one(1);
  Bn x1 = (Bn(0) - J) * Inv(one + Bn(2) * u * u), y;
  auto g = [&](const Bn& x) { return x * x * x + J * x * x + x; };
  ERR_set_mark();
  bool sq = Sqrt(g(x1), y);
  ERR_pop_to_mark();
  Bn x = x1;
  if (!sq) { x = Bn(0) - x1 - J; if (!Sqrt(g(x), y)) throw std::logic_error("reference: no square root"); }
  if (BN_is_odd(y.b) != (sq ? 1 : 0)) y = Bn(0) - y;
  return {x, y};
}
Pt Add(const Pt& p, const Pt& q) {
  Bn J(486662), l;
  if (p.x == q.x) l = (Bn(3) * p.x * p.x + Bn(2) * J * p.x + Bn(1)) * Inv(Bn(2) * p.y);
  else l = (q.y - p.y) * Inv(q.x - p.x);
  Bn x = l * l - J - p.x - q.x;
  return {x, l * (p.x - x) - p.y};
}
std::string Ref(const std::string& msg, const std::string& dst) {
  auto e = Expand(msg, dst, 96);
  Pt q[2];
  for (int i = 0; i < 2; ++i) {
    Bn t, u;
    BN_bin2bn((const unsigned char*)e.data() + 48 * i, 48, t.b);
    BN_nnmod(u.b, t.b, Pm().b, Cx());
    q[i] = Map(u);
  }
  auto r = Add(q[0], q[1]);
  for (int i = 0; i < 3; ++i) r = Add(r, r);
  std::string o(32, 0);
  BN_bn2binpad(r.x.b, (unsigned char*)o.data(), 32);
  return o;
}
}  // namespace

PROP(elligator2, 20) {
  std::string msg = Item(c), dst;
  if (c.chance(1, 40)) msg = c.bulk(c.below(70000));
  bool dflt = c.chance(1, 3);
  size_t dl = c.chance(1, 4) ? c.pick(std::vector<size_t>{0, 1, 15, 16, 17, 254, 255, 256, 300}) : 16 + c.below(240);
  dst = dflt ? "SECRETFLOW-V01-CS02-with-curve25519_XMD:SHA-512_ELL2_RO_" : c.bulk(dl);
  c.note() << "message of " << msg.size() << " bytes " << Hex(msg.substr(0, 20)) << ", tag of " << dst.size() << " bytes";
  if (dst.size() < 16 || dst.size() > 255) {
    REQUIRE(Throws([&] { psi::HashToCurveElligator2(msg, dst); }), "a tag of " << dst.size() << " bytes was accepted");
    return;
  }
  c.nontrivial(!msg.empty());
  auto p = dflt ? psi::HashToCurveElligator2(msg) : psi::HashToCurveElligator2(msg, dst);
  std::string got((const char*)p.data(), p.size()), want = Ref(msg, dst);
  REQUIRE(got == want, "got " << Hex(got) << ", RFC 9380 gives " << Hex(want));
}

DAMAGED(oprf_psi, 8)
