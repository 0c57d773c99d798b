#ifndef VF_SODIUM_H
#define VF_SODIUM_H
#include <stddef.h>
#include <stdint.h>
#define randombytes_SEEDBYTES 32U
#define crypto_stream_chacha20_ietf_NONCEBYTES 12U
#define crypto_stream_chacha20_ietf_KEYBYTES 32U
extern "C" {
int sodium_init(void);
void randombytes_buf(void* const buf, const size_t size);
void randombytes_buf_deterministic(void* const buf, const size_t size, const unsigned char seed[32]);
int crypto_stream_chacha20_ietf_xor_ic(unsigned char* c, const unsigned char* m, unsigned long long mlen,
                                       const unsigned char* n, uint32_t ic, const unsigned char* k);
}
#endif
