#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
size_t s_md5_size(void) { return sizeof(md5_ctx); }
size_t s_sha_size(void) { return sizeof(sha512_ctx); }
size_t s_crc_size(void) { return sizeof(CRC32_CTX); }
size_t s_crcc_size(void) { return sizeof(CRC32C_CTX); }
int s_md5_hash_size(void) { return MD5_HASH_SIZE; }
int s_sha_hash_size(void) { return SHA512_HASH_SIZE; }
