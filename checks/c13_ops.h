extern "C" {
size_t s_md5_size(void); size_t s_sha_size(void); size_t s_crc_size(void); size_t s_crcc_size(void); int s_md5_hash_size(void); int s_sha_hash_size(void);
void md5_init(void *); void md5_update(void *, const void *, size_t); void md5_end(const void *, void *); void md5str(char *, const unsigned char *, size_t);
void sha512_init(void *); void sha512_update(void *, const unsigned char *, size_t); unsigned char *sha512_end(void *);
void CRC32_InitTables(void); int CRC32_Init(void *); void CRC32_Update(void *, const uint8_t *, size_t); void CRC32_Final(uint8_t *, void *);
void CRC32C_InitTables(void); int CRC32C_Init(void *); void CRC32C_Update(void *, const uint8_t *, size_t); void CRC32C_Final(uint8_t *, void *);
}
