/*
	C16: reverse pointers name exactly the network's zone
*/
#include "lk.h"

const char* mc_property = "C16";
void (*mc_worker_init)(void) = lk_init;

static char long1[300], long2[3000];
static const char* suffixes[9] = { NULL, "in-addr.arpa.", "ip6.arpa.", "example.org.", "a",
	"a.very.long.suffix.0123456789012345678901234567890123456789.0123456789012345678901234567890123456789.0123456789012345678901234567890123456789.0123456789." };

static void reference(const net_t* n, const char* suffix, char* out) {
	int v4 = m_net_v4(n);
	int plen = v4 ? n->plen - 96 : n->plen;
	*out = 0;
	if (n->plen < 128)
		strcat(out, "*.");
	if (v4) {
		for (int i = plen / 8 - 1; i >= 0; i--)
			sprintf(out + strlen(out), "%u.", (unsigned)((n->addr >> (24 - 8 * i)) & 255));
	} else {
		for (int i = plen / 4 - 1; i >= 0; i--)
			sprintf(out + strlen(out), "%x.", (unsigned)((n->addr >> (124 - 4 * i)) & 15));
	}
	strcat(out, suffix ? suffix : v4 ? "in-addr.arpa." : "ip6.arpa.");
}

static void check(const net_t* m, const char* suffix) {
	struct loc_network* n = NULL;
	int v4 = m_net_v4(m);
	struct in6_addr in = m_in6(m_first(m));
	if (loc_network_new(lk_ctx, &n, &in, m->plen - (v4 ? 96 : 0)))
		mc_fail("%s could not be created", m_net_str(m));
	static char want[4096];
	for (int again = 0; again < 2; again++) {
		mc_ops(1);
		char* got = loc_network_reverse_pointer(n, suffix);
		if (m->plen % (v4 ? 8 : 4)) {
			mc_assert(!got, "%s has reverse pointer %s", m_net_str(m), got);
			continue;
		}
		reference(m, suffix, want);
		mc_assert(got && !strcmp(got, want), "%s has reverse pointer %s instead of %s", m_net_str(m), got ? got : "(none)", want);
		mc_state(mc_hash(MC_HASH_INIT, got, strlen(got)));
		free(got);
	}
	loc_network_unref(n);
}

// Every prefix, every value of every nibble or octet
static void mode_values(void) {
	int plen = mc_choose(129 + 33), suffix = mc_choose(6), rest = mc_choose(mc_thorough ? 16 : 3);
	mc_shard();
	int v4 = plen > 128;
	if (v4)
		plen -= 129;
	u128 fill = 0;
	int f = mc_thorough ? rest : rest * 15 / 2;
	for (int i = 0; i < 32; i++)
		fill = fill << 4 | f;
	for (int pos = 0; pos < (v4 ? 4 : 32); pos++)
		for (int value = 0; value < (v4 ? 256 : 16); value++) {
			net_t m = { };
			if (v4) {
				uint32_t a = (uint32_t)fill;
				a &= ~(255u << (24 - 8 * pos));
				a |= (uint32_t)value << (24 - 8 * pos);
				m.addr = V4BASE | a;
				m.plen = 96 + plen;
			} else {
				m.addr = fill;
				m.addr &= ~((u128)15 << (124 - 4 * pos));
				m.addr |= (u128)value << (124 - 4 * pos);
				m.plen = plen;
			}
			m.addr = m_first(&m);
			if (!v4 && m_is_v4(m.addr))
				continue;
			check(&m, suffixes[suffix]);
		}
}

// All different digits
static void mode_digits(void) {
	int plen = mc_choose(129 + 33), rot = mc_choose(32);
	mc_shard();
	int v4 = plen > 128;
	net_t m = { };
	for (int i = 0; i < 32; i++)
		m.addr = m.addr << 4 | (((i + rot) * (i + rot < 16 ? 7 : 5) + 3) & 15);
	m.plen = plen;
	if (v4) {
		m.addr = V4BASE | (uint32_t)m.addr;
		m.plen = 96 + plen - 129;
	}
	m.addr = m_first(&m);
	memset(long1, 'x', sizeof(long1) - 1);
	memset(long2, 'y', sizeof(long2) - 1);
	suffixes[6] = long1;
	suffixes[7] = long2;
	suffixes[8] = "";
	for (int s = 0; s < 9; s++)
		check(&m, suffixes[s]);
}

void mc_run(void) {
	if (mc_choose(2))
		mode_digits();
	else
		mode_values();
}
