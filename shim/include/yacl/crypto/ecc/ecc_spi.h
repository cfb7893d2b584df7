#pragma once
#include <memory>
#include <string>
#include "yacl/crypto/ecc/ec_point.h"
#include "yacl/utils/spi/spi_factory.h"
namespace yacl::crypto {
enum class HashToCurveStrategy {
  SHA256_SSWU_RO_, SHA256_SSWU_NU_, SHA384_SSWU_RO_, SHA384_SSWU_NU_, SHA512_SSWU_RO_, SHA512_SSWU_NU_,
  SHA512_ELL2_RO_, SHA512_ELL2_NU_,
  TryAndIncrement_SHA2, TryAndIncrement_SHA3, TryAndIncrement_SM, TryAndIncrement_BLAKE3,
  TryAndRehash_SHA2, TryAndRehash_SHA3, TryAndRehash_SM, TryAndRehash_BLAKE3,
  HashAsPointX_SHA2, HashAsPointX_SHA3, HashAsPointX_SM, HashAsPointX_BLAKE3,
  Autonomous
};
enum class PointOctetFormat { Autonomous, X962Uncompressed, X962Compressed, X962Hybrid, ZCash_BLS12_381, Uncompressed };
class EcGroup {
 public:
  virtual ~EcGroup() = default;
  virtual std::string GetCurveName() const = 0;
  virtual std::string GetLibraryName() const = 0;
  virtual math::MPInt GetOrder() const = 0;
  virtual EcPoint GetGenerator() const = 0;
  virtual EcPoint MulBase(const math::MPInt& s) const = 0;
  virtual EcPoint Mul(const EcPoint& p, const math::MPInt& s) const = 0;
  // s1 * G + s2 * p
  EcPoint MulDoubleBase(const math::MPInt& s1, const math::MPInt& s2, const EcPoint& p) const { return Add(MulBase(s1), Mul(p, s2)); }
  virtual EcPoint Add(const EcPoint& a, const EcPoint& b) const = 0;
  virtual EcPoint Negate(const EcPoint& a) const = 0;
  virtual EcPoint Sub(const EcPoint& a, const EcPoint& b) const { return Add(a, Negate(b)); }
  virtual EcPoint HashToCurve(HashToCurveStrategy s, std::string_view in) const = 0;
  virtual EcPoint HashToCurve(std::string_view in) const { return HashToCurve(HashToCurveStrategy::Autonomous, in); }
  virtual Buffer SerializePoint(const EcPoint& p, PointOctetFormat f = PointOctetFormat::Autonomous) const = 0;
  virtual EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat f = PointOctetFormat::Autonomous) const = 0;
  virtual uint64_t GetSerializeLength(PointOctetFormat f = PointOctetFormat::Autonomous) const = 0;
  virtual bool PointEqual(const EcPoint& a, const EcPoint& b) const = 0;
  virtual bool IsInfinity(const EcPoint& p) const = 0;
  virtual bool IsInCurveGroup(const EcPoint& p) const = 0;
  virtual EcPoint CopyPoint(const EcPoint& p) const { return p; }
};
class EcGroupFactory {
 public:
  static EcGroupFactory& Instance();
  std::unique_ptr<EcGroup> Create(const std::string& name);
  template <typename... A>
  std::unique_ptr<EcGroup> Create(const std::string& name, const A&...) { return Create(name); }
};
}  // namespace yacl::crypto
