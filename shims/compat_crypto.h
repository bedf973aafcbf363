#ifndef VERIF_COMPAT_CRYPTO_H_
#define VERIF_COMPAT_CRYPTO_H_
#include "openssl/ec.h"
#include "openssl/nid.h"
inline const EC_GROUP* EC_group_p256() {
  static const EC_GROUP* group =
      EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
  return group;
}
#endif
