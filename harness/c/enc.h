/*
	An independent encoder of the database format (version 1), written from the
	format description: every offset is spelled out here, nothing of libloc is used.
*/
#ifndef ENC_H
#define ENC_H

#include "model.h"

#define ENC_HEADER_SIZE 4200
#define ENC_PAGE 4096

enum { OFF_MAGIC = 0, OFF_VERSION = 7, OFF_CREATED = 8, OFF_VENDOR = 16, OFF_DESCRIPTION = 20,
	OFF_LICENSE = 24, OFF_AS_OFF = 28, OFF_AS_LEN = 32, OFF_ND_OFF = 36, OFF_ND_LEN = 40,
	OFF_NT_OFF = 44, OFF_NT_LEN = 48, OFF_C_OFF = 52, OFF_C_LEN = 56, OFF_P_OFF = 60, OFF_P_LEN = 64,
	OFF_SIG1_LEN = 68, OFF_SIG2_LEN = 70, OFF_SIG1 = 72, OFF_SIG2 = 72 + 2048, OFF_PAD = 72 + 4096 };

struct enc_as { uint32_t number; const char* name; };
struct enc_country { const char* code; const char* continent; const char* name; };

struct enc {
	const net_t* nets; int nnets;
	const struct enc_as* as; int nas;
	const struct enc_country* countries; int ncountries;
	const char* vendor; const char* description; const char* license;
	uint64_t created_at;
	int order;		// numbering of the tree's nodes: 0 breadth first, 1 depth first, 2 depth first, ones first
	int compact;	// no page alignment between sections
};

struct enc_buf { unsigned char* p; size_t len, cap; };

static inline void eb_put(struct enc_buf* b, const void* data, size_t len) {
	if (b->len + len > b->cap) {
		b->cap = (b->len + len) * 2 + 8192;
		b->p = realloc(b->p, b->cap);
	}
	if (data)
		memcpy(b->p + b->len, data, len);
	else
		memset(b->p + b->len, 0, len);
	b->len += len;
}
static inline void eb_u32(struct enc_buf* b, uint32_t v) {
	unsigned char t[4] = { v >> 24, v >> 16, v >> 8, v };
	eb_put(b, t, 4);
}
static inline void put16(unsigned char* p, uint16_t v) { p[0] = v >> 8; p[1] = v; }
static inline void put32(unsigned char* p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static inline uint32_t get32(const unsigned char* p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static inline uint16_t get16(const unsigned char* p) { return p[0] << 8 | p[1]; }
static inline void put64(unsigned char* p, uint64_t v) { put32(p, v >> 32); put32(p + 4, v); }

struct enc_node { uint32_t child[2]; int32_t net; uint32_t number; };

static uint32_t enc_pool(struct enc_buf* pool, const char* s) {
	if (!s)
		return 0;	// the empty string
	uint32_t o = 0;
	while (o < pool->len) {
		if (!strcmp((char*)pool->p + o, s))
			return o;
		o += strlen((char*)pool->p + o) + 1;
	}
	o = pool->len;
	eb_put(pool, s, strlen(s) + 1);
	return o;
}

static void enc_dfs(struct enc_node* nodes, uint32_t* orderv, uint32_t* count, uint32_t i, int ones) {
	orderv[*count] = i;
	nodes[i].number = (*count)++;
	for (int k = 0; k < 2; k++) {
		uint32_t c = nodes[i].child[ones ? 1 - k : k];
		if (c)
			enc_dfs(nodes, orderv, count, c, ones);
	}
}

// Returns a malloc()ed file image
static unsigned char* encode(const struct enc* e, size_t* length) {
	struct enc_buf out = { 0 }, pool = { 0 };
	eb_put(&out, NULL, ENC_HEADER_SIZE);
	memcpy(out.p, "LOCDBXX\001", 8);
	eb_put(&pool, "", 1);
	put64(out.p + OFF_CREATED, e->created_at);
	uint32_t v;
	v = enc_pool(&pool, e->vendor); put32(out.p + OFF_VENDOR, v);
	v = enc_pool(&pool, e->description); put32(out.p + OFF_DESCRIPTION, v);
	v = enc_pool(&pool, e->license); put32(out.p + OFF_LICENSE, v);
#define ENC_ALIGN() do { if (!e->compact && out.len % ENC_PAGE) eb_put(&out, NULL, ENC_PAGE - out.len % ENC_PAGE); } while (0)
	ENC_ALIGN();
	put32(out.p + OFF_AS_OFF, out.len);
	for (int i = 0; i < e->nas; i++) {
		eb_u32(&out, e->as[i].number);
		eb_u32(&out, enc_pool(&pool, e->as[i].name));
	}
	put32(out.p + OFF_AS_LEN, e->nas * 8);
	ENC_ALIGN();

	// The tree
	size_t cap = 1024, n = 1;
	struct enc_node* nodes = calloc(cap, sizeof(*nodes));
	nodes[0].net = -1;
	for (int i = 0; i < e->nnets; i++) {
		uint32_t at = 0;
		u128 a = m_first(&e->nets[i]);
		for (int d = 0; d < e->nets[i].plen; d++) {
			int bit = (a >> (127 - d)) & 1;
			if (!nodes[at].child[bit]) {
				if (n == cap) {
					cap *= 2;
					nodes = realloc(nodes, cap * sizeof(*nodes));
				}
				memset(&nodes[n], 0, sizeof(*nodes));
				nodes[n].net = -1;
				nodes[at].child[bit] = n++;
			}
			at = nodes[at].child[bit];
		}
		nodes[at].net = i;
	}
	uint32_t* order = malloc(n * sizeof(*order));
	uint32_t count = 0;
	if (e->order == 0) {
		order[count++] = 0;
		nodes[0].number = 0;
		for (uint32_t h = 0; h < count; h++)
			for (int k = 0; k < 2; k++) {
				uint32_t c = nodes[order[h]].child[k];
				if (c) {
					nodes[c].number = count;
					order[count++] = c;
				}
			}
	} else
		enc_dfs(nodes, order, &count, 0, e->order == 2);
	put32(out.p + OFF_NT_OFF, out.len);
	for (uint32_t i = 0; i < count; i++) {
		struct enc_node* x = &nodes[order[i]];
		eb_u32(&out, x->child[0] ? nodes[x->child[0]].number : 0);
		eb_u32(&out, x->child[1] ? nodes[x->child[1]].number : 0);
		eb_u32(&out, x->net < 0 ? 0xffffffff : (uint32_t)x->net);
	}
	put32(out.p + OFF_NT_LEN, count * 12);
	ENC_ALIGN();
	put32(out.p + OFF_ND_OFF, out.len);
	for (int i = 0; i < e->nnets; i++) {
		unsigned char t[12] = { e->nets[i].cc[0], e->nets[i].cc[0] ? e->nets[i].cc[1] : 0 };
		put32(t + 4, e->nets[i].asn);
		put16(t + 8, e->nets[i].flags);
		eb_put(&out, t, 12);
	}
	put32(out.p + OFF_ND_LEN, e->nnets * 12);
	ENC_ALIGN();
	put32(out.p + OFF_C_OFF, out.len);
	for (int i = 0; i < e->ncountries; i++) {
		const struct enc_country* c = &e->countries[i];
		unsigned char t[4] = { c->code[0], c->code[1], 0, 0 };
		if (c->continent) {
			t[2] = c->continent[0];
			t[3] = c->continent[1];
		}
		eb_put(&out, t, 4);
		eb_u32(&out, enc_pool(&pool, c->name));
	}
	put32(out.p + OFF_C_LEN, e->ncountries * 8);
	ENC_ALIGN();
	put32(out.p + OFF_P_OFF, out.len);
	put32(out.p + OFF_P_LEN, pool.len);
	eb_put(&out, pool.p, pool.len);
	free(pool.p);
	free(nodes);
	free(order);
	*length = out.len;
	return out.p;
}

#endif
