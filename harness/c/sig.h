/* Keys and an independent signer */
#ifndef SIG_H
#define SIG_H
#include "lk.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

struct key { EVP_PKEY* k; char* pub; size_t publen; char* priv; size_t privlen; };

static inline char* sig_bio(BIO* b, size_t* length) {
	char* p;
	*length = BIO_get_mem_data(b, &p);
	char* r = malloc(*length + 1);
	memcpy(r, p, *length);
	r[*length] = 0;
	BIO_free(b);
	return r;
}
static inline void sig_key(struct key* key, const char* type, const char* curve, size_t bits) {
	key->k = curve ? EVP_PKEY_Q_keygen(NULL, NULL, type, curve) : EVP_PKEY_Q_keygen(NULL, NULL, type, bits);
	if (!key->k)
		mc_abort("could not generate a key");
	BIO* b = BIO_new(BIO_s_mem());
	PEM_write_bio_PUBKEY(b, key->k);
	key->pub = sig_bio(b, &key->publen);
	b = BIO_new(BIO_s_mem());
	PEM_write_bio_PrivateKey(b, key->k, NULL, NULL, 0, NULL, NULL);
	key->priv = sig_bio(b, &key->privlen);
}
static inline FILE* sig_file(const char* pem, size_t length) {
	// (fmemopen() does not like empty buffers)
	FILE* f = length ? fmemopen((void*)pem, length, "r") : fopen("/dev/null", "r");
	if (!f)
		mc_abort("fmemopen");
	return f;
}
// What is signed: the file with an empty signature area
static inline size_t sig_sign(struct key* key, const unsigned char* file, size_t length, unsigned char* sig) {
	unsigned char* c = malloc(length);
	memcpy(c, file, length);
	memset(c + OFF_SIG1_LEN, 0, OFF_PAD - OFF_SIG1_LEN);
	EVP_MD_CTX* ctx = EVP_MD_CTX_new();
	size_t l = 2048;
	if (EVP_DigestSignInit(ctx, NULL, NULL, NULL, key->k) != 1 || EVP_DigestSign(ctx, sig, &l, c, length) != 1)
		mc_abort("could not sign");
	EVP_MD_CTX_free(ctx);
	free(c);
	return l;
}
// Is this a genuine signature?
static inline int sig_verify(EVP_PKEY* k, const unsigned char* file, size_t length, const unsigned char* sig, size_t l) {
	unsigned char* c = malloc(length);
	memcpy(c, file, length);
	memset(c + OFF_SIG1_LEN, 0, OFF_PAD - OFF_SIG1_LEN);
	EVP_MD_CTX* ctx = EVP_MD_CTX_new();
	int r = EVP_DigestVerifyInit(ctx, NULL, NULL, NULL, k) == 1 && EVP_DigestVerify(ctx, sig, l, c, length) == 1;
	EVP_MD_CTX_free(ctx);
	free(c);
	return r;
}
static inline void sig_put(unsigned char* file, int slot, const unsigned char* sig, size_t length) {
	put16(file + (slot ? OFF_SIG2_LEN : OFF_SIG1_LEN), length);
	memcpy(file + (slot ? OFF_SIG2 : OFF_SIG1), sig, length > 2048 ? 2048 : length);
}
#endif
