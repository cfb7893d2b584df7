// Test double for HEU's exponential ElGamal over an EC group.
#pragma once
#include <memory>
#include "yacl/base/buffer.h"
#include "yacl/crypto/ecc/ecc_spi.h"
#include "yacl/math/mpint/mp_int.h"
namespace heu::lib::algorithms::elgamal {
using Plaintext = yacl::math::MPInt;
class PublicKey {
 public:
  PublicKey() = default;
  PublicKey(std::shared_ptr<yacl::crypto::EcGroup> c, const yacl::crypto::EcPoint& h) : curve_(std::move(c)), h_(h) {}
  const std::shared_ptr<yacl::crypto::EcGroup>& GetCurve() const { return curve_; }
  const yacl::crypto::EcPoint& GetH() const { return h_; }

 private:
  std::shared_ptr<yacl::crypto::EcGroup> curve_;
  yacl::crypto::EcPoint h_;
};
class SecretKey {
 public:
  SecretKey() = default;
  SecretKey(const yacl::math::MPInt& x, std::shared_ptr<yacl::crypto::EcGroup> c) : x_(x), curve_(std::move(c)) {}
  const yacl::math::MPInt& GetX() const { return x_; }
  const std::shared_ptr<yacl::crypto::EcGroup>& GetCurve() const { return curve_; }

 private:
  yacl::math::MPInt x_;
  std::shared_ptr<yacl::crypto::EcGroup> curve_;
};
class Ciphertext {
 public:
  Ciphertext() = default;
  Ciphertext(std::shared_ptr<yacl::crypto::EcGroup> c, yacl::crypto::EcPoint a, yacl::crypto::EcPoint b)
      : c1(std::move(a)), c2(std::move(b)), ec(std::move(c)) {}
  static void EnableEcGroup(const std::shared_ptr<yacl::crypto::EcGroup>& c) { Current() = c; }
  yacl::Buffer Serialize(bool = false) const {
    auto a = ec->SerializePoint(c1), b = ec->SerializePoint(c2);
    yacl::Buffer r(a.size() + b.size());
    std::memcpy(r.data<uint8_t>(), a.data(), a.size());
    std::memcpy(r.data<uint8_t>() + a.size(), b.data(), b.size());
    return r;
  }
  void Deserialize(yacl::ByteContainerView in) {
    ec = Current();
    size_t h = in.size() / 2;
    c1 = ec->DeserializePoint(yacl::ByteContainerView(in.data(), h));
    c2 = ec->DeserializePoint(yacl::ByteContainerView(in.data() + h, in.size() - h));
  }
  yacl::crypto::EcPoint c1, c2;
  std::shared_ptr<yacl::crypto::EcGroup> ec;

 private:
  static std::shared_ptr<yacl::crypto::EcGroup>& Current() { static std::shared_ptr<yacl::crypto::EcGroup> g; return g; }
};
class Evaluator {
 public:
  explicit Evaluator(const PublicKey& pk) : pk_(pk) { Ciphertext::EnableEcGroup(pk.GetCurve()); }
  Ciphertext Add(const Ciphertext& a, const Ciphertext& b) const {
    auto& c = pk_.GetCurve();
    return Ciphertext(c, c->Add(a.c1, b.c1), c->Add(a.c2, b.c2));
  }
  void AddInplace(Ciphertext* a, const Ciphertext& b) const { *a = Add(*a, b); }

 private:
  PublicKey pk_;
};
class KeyGenerator {
 public:
  static void Generate(const std::string& curve, SecretKey* sk, PublicKey* pk) {
    std::shared_ptr<yacl::crypto::EcGroup> c = yacl::crypto::EcGroupFactory::Instance().Create(curve);
    yacl::math::MPInt x;
    yacl::math::MPInt::RandomLtN(c->GetOrder(), &x);
    *sk = SecretKey(x, c);
    *pk = PublicKey(c, c->MulBase(x));
  }
};
}  // namespace heu::lib::algorithms::elgamal
