/* Stand-in for noscrypt (not installed here): the part of its interface that libnostr-c uses, over OpenSSL and libsecp256k1. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define NC_SUCCESS 0
#define NC_SEC_KEY_SIZE 32
#define NC_PUBKEY_SIZE 32
#define NC_CONTEXT_ENTROPY_SIZE 32
#define NC_SHARED_SEC_SIZE 32
#define NC_HMAC_KEY_SIZE 32
#define NC_ENCRYPTION_MAC_SIZE 32
#define NC_ENC_VERSION_NIP04 0x00000004
#define NC_ENC_VERSION_NIP44 0x00002c00
#define NC_ENC_SET_VERSION 0x01
#define NC_ENC_SET_IV 0x02
#define NC_ENC_SET_NIP44_MAC_KEY 0x03
#define NC_ENC_SET_NIP04_KEY 0x04
typedef int64_t NCResult;
typedef struct nc_ctx_struct NCContext;
typedef struct { uint8_t key[NC_SEC_KEY_SIZE]; } NCSecretKey;
typedef struct { uint8_t key[NC_PUBKEY_SIZE]; } NCPublicKey;
typedef struct { uint32_t version; void* ivData; void* keyData; const uint8_t* inputData; uint8_t* outputData; uint32_t dataSize; } NCEncryptionArgs;
typedef struct { const uint8_t* mac32; const uint8_t* nonce32; const uint8_t* payload; uint32_t payloadSize; } NCMacVerifyArgs;
NCContext* NCGetSharedContext(void);
NCResult NCInitContext(NCContext* ctx, const uint8_t entropy[NC_CONTEXT_ENTROPY_SIZE]);
NCResult NCDestroyContext(NCContext* ctx);
NCResult NCGetPublicKey(const NCContext* ctx, const NCSecretKey* sk, NCPublicKey* pk);
NCResult NCValidateSecretKey(const NCContext* ctx, const NCSecretKey* sk);
NCResult NCSignDigest(const NCContext* ctx, const NCSecretKey* sk, const uint8_t random32[32], const uint8_t digest32[32], uint8_t sig64[64]);
NCResult NCVerifyDigest(const NCContext* ctx, const NCPublicKey* pk, const uint8_t digest32[32], const uint8_t sig64[64]);
NCResult NCGetSharedSecret(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* other, uint8_t sharedPoint[NC_SHARED_SEC_SIZE]);
uint32_t NCEncryptionGetIvSize(uint32_t version);
NCResult NCEncryptionSetProperty(NCEncryptionArgs* args, uint32_t property, uint32_t value);
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs* args, uint32_t property, uint8_t* value, uint32_t valueLen);
NCResult NCEncryptionSetData(NCEncryptionArgs* args, const uint8_t* input, uint8_t* output, uint32_t dataSize);
NCResult NCEncrypt(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* args);
NCResult NCDecrypt(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* args);
NCResult NCComputeMac(const NCContext* ctx, const uint8_t hmacKey[NC_HMAC_KEY_SIZE], const uint8_t* payload, uint32_t payloadSize, uint8_t hmacOut[NC_ENCRYPTION_MAC_SIZE]);
NCResult NCVerifyMac(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, NCMacVerifyArgs* args);
#ifdef __cplusplus
}
#endif
