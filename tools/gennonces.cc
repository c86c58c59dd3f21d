// Finds ECDSA nonces whose r has leading zero bytes; prints lib/nonces.inc.
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/nid.h>
#include <stdio.h>
int main() {
  int nids[] = {NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1};
  int curves[] = {256, 384, 521};
  printf("// Generated by tools/gennonces.cc.\nstatic const struct { int curve; int zeros; unsigned nonce; } kNonces[] = {\n");
  for (int c = 0; c < 3; ++c) {
    static BN_CTX* ctx = BN_CTX_new();
    EC_GROUP* g = EC_GROUP_new_by_curve_name(nids[c]);
    EC_POINT* P = EC_POINT_new(g);
    BIGNUM *k = BN_new(), *x = BN_new();
    int len = (curves[c] + 7) / 8, got1 = 0, got2 = 0;
    for (unsigned i = 1000; got1 < 3 || got2 < 2; ++i) {
      BN_set_word(k, i);
      EC_POINT_mul(g, P, k, 0, 0, 0);
      EC_POINT_get_affine_coordinates_GFp(g, P, x, 0, 0);
      BN_nnmod(x, x, EC_GROUP_get0_order(g), ctx);
      int z = len - (int)BN_num_bytes(x);
      if (z >= 2 && got2 < 2) got2++, printf("{%d,%d,%uu},\n", curves[c], z, i);
      else if (z == 1 && got1 < 3) got1++, printf("{%d,%d,%uu},\n", curves[c], z, i);
      if (i > 1000 + 130000u / (c + 1) ) break;
    }
  }
  printf("};\n");
}
