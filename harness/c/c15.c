/*
	C15: addresses, networks and country codes are parsed and printed exactly
*/
#include "lk.h"

const char* mc_property = "C15";

static struct loc_database* db;

static void init(void) {
	lk_init();
	// Every address is found in this database
	struct loc_writer* w = NULL;
	if (loc_writer_new(lk_ctx, &w, NULL, NULL))
		mc_abort("no writer");
	static const struct { const char* a; int plen; const char* cc; } t[] = {
		{ "::", 1, "AA" }, { "8000::", 1, "AB" }, { "2001:db8::", 32, "AC" }, { "0.0.0.0", 96, "BA" }, { "10.0.0.0", 104, "BB" },
	};
	for (unsigned i = 0; i < sizeof(t) / sizeof(*t); i++) {
		net_t n = { .addr = m_parse(t[i].a), .plen = t[i].plen };
		strcpy(n.cc, t[i].cc);
		n.asn = i + 1;
		if (lk_add(w, &n))
			mc_abort("could not fill the database");
	}
	db = lk_open_writer(w);
	loc_writer_unref(w);
}
void (*mc_worker_init)(void) = init;

// The reference: 0 invalid, 1 valid, 2 may be either
static int ref_parse(const char* s, u128* addr, int* plen, int* has_prefix, int* family) {
	char buf[256];
	const char* slash = strchr(s, '/');
	size_t l = slash ? (size_t)(slash - s) : strlen(s);
	if (l >= sizeof(buf))
		return 0;
	memcpy(buf, s, l);
	buf[l] = 0;
	struct in6_addr in6;
	struct in_addr in4;
	int max, either = 0;
	if (inet_pton(AF_INET6, buf, &in6) == 1) {
		*addr = m_u128(&in6);
		*family = AF_INET6;
		max = 128;
		if (m_is_v4(*addr))
			either = 1;		// mapped notation
	} else if (inet_pton(AF_INET, buf, &in4) == 1) {
		*addr = V4BASE | ntohl(in4.s_addr);
		*family = AF_INET;
		max = 32;
	} else
		return 0;
	*has_prefix = !!slash;
	*plen = max;
	if (slash) {
		const char* p = slash + 1;
		if (!*p || strspn(p, "0123456789") != strlen(p))
			return 0;
		if (*p == '0' && p[1])
			either = 1;		// leading zeros
		long v = 0;
		for (; *p; p++) {
			v = v * 10 + *p - '0';
			if (v > 1000)
				return 0;
		}
		if (v > max)
			return 0;
		*plen = v;
	}
	if (*family == AF_INET)
		*plen += 96;
	return either ? 2 : 1;
}

static char* quote(const char* s) {
	static char buf[600];
	char* o = buf;
	for (; *s && o < buf + 590; s++) {
		unsigned char c = *s;
		if (c >= 0x20 && c < 0x7f)
			*o++ = c;
		else
			o += sprintf(o, "\\x%02x", c);
	}
	*o = 0;
	return buf;
}

static void check_string(const char* text) {
	// A copy of exactly the right size, so that reading behind it is noticed
	size_t len = strlen(text);
	char* s = malloc(len + 1);
	memcpy(s, text, len + 1);
	u128 addr = 0;
	int plen = 0, has_prefix = 0, family = 0;
	int want = ref_parse(s, &addr, &plen, &has_prefix, &family);
	struct loc_network* n = NULL;
	mc_ops(2);
	int r = loc_network_new_from_string(lk_ctx, &n, s);
	mc_assert(r == 0 || want != 1, "the network '%s' was refused", quote(s));
	mc_assert(r != 0 || want != 0, "'%s' was accepted as network %s", quote(s), n ? loc_network_str(n) : "(nothing)");
	mc_assert((r == 0) == !!n, "'%s': %d and %p", quote(s), r, (void*)n);
	if (n) {
		net_t m = { .addr = addr, .plen = plen };
		if (m_is_v4(addr) && family == AF_INET6)
			goto MAPPED;
		mc_assert(m_u128(loc_network_get_first_address(n)) == m_first(&m) && m_u128(loc_network_get_last_address(n)) == m_last(&m),
			"'%s' was understood as %s", quote(s), loc_network_str(n));
		mc_assert((int)loc_network_prefix(n) == plen - (family == AF_INET ? 96 : 0), "'%s' has prefix %u", quote(s), loc_network_prefix(n));
		mc_assert(loc_network_address_family(n) == family, "'%s' has family %d", quote(s), loc_network_address_family(n));
		mc_state(lk_hash_net(MC_HASH_INIT, &m));
MAPPED:
		loc_network_unref(n);
	}

	// The same text as an address
	n = NULL;
	r = loc_database_lookup_from_string(db, s, &n);
	if (!want)
		mc_assert(r != 0 && !n, "'%s' was accepted as an address", quote(s));
	else if (!has_prefix)
		mc_assert(r == 0 && n, "the address '%s' was refused", quote(s));
	if (n) {
		struct in6_addr in = m_in6(addr);
		mc_assert(r == 0, "'%s' was refused and found", quote(s));
		mc_assert(loc_network_matches_address(n, &in), "'%s' was found in %s", quote(s), loc_network_str(n));
		const char* cc = m_is_v4(addr) ? ((addr & 0xff000000u) == 0x0a000000u ? "BB" : "BA")
			: (addr >> 96) == 0x20010db8 ? "AC" : (addr >> 127) ? "AB" : "AA";
		mc_assert(!strcmp(loc_network_get_country_code(n), cc), "'%s' was found in %s", quote(s), loc_network_str(n));
		loc_network_unref(n);
	}
	free(s);
}

static const char* tokens[] = { "1", "255", "256", ".", ":", "::", "/", "0", "32", "33", "128", "129", "ffff", "g", "-", "+", " ", "\n", "x", "%1", "10.1.2.3",
	"2001:db8::", "10000", "\xc3\xa4", "e", "00", "010" };
#define NTOKENS ((int)(sizeof(tokens) / sizeof(*tokens)))

// All short sequences of tokens
static void mode_tokens(void) {
	int a = mc_choose(NTOKENS), b = mc_choose(NTOKENS + 1);
	mc_shard();
	char s[256];
	if (b == NTOKENS) {
		check_string(tokens[a]);
		return;
	}
	int idx[4];
	int max = mc_thorough ? 4 : 3;
	// [a, b] followed by up to `max` others
	long total = 1;
	for (int i = 0; i < max; i++)
		total *= NTOKENS + 1;
	for (long v = 0; v < total; v++) {
		long x = v;
		int ok = 1, ended = 0;
		strcpy(s, tokens[a]);
		strcat(s, tokens[b]);
		for (int i = 0; i < max && ok; i++) {
			int t = x % (NTOKENS + 1);
			x /= NTOKENS + 1;
			if (t == NTOKENS)
				ended = 1;
			else if (ended)
				ok = 0;
			else
				strcat(s, tokens[t]);
		}
		if (ok)
			check_string(s);
	}
}

// Every prefix text
static void mode_prefix(void) {
	static const char* addrs[] = { "10.1.2.3", "2001:db8::1", "::", "255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255",
		"abcd:ef01:2345:6789:abcd:ef01:2345:6789" };
	static const char alphabet[] = "0123456789+- x/\t.\n";
	const int n = sizeof(alphabet);	// with the end
	int a = mc_choose(6), c1 = mc_choose(n), c2 = mc_choose(n);
	mc_shard();
	if (c1 == n - 1 && c2 != n - 1)
		return;
	char s[128];
	for (int c3 = 0; c3 < n; c3++)
		for (int c4 = 0; c4 < n; c4++) {
			if ((c2 == n - 1 && c3 != n - 1) || (c3 == n - 1 && c4 != n - 1))
				continue;
			snprintf(s, sizeof(s), "%s/%c%c%c%c", addrs[a], alphabet[c1], alphabet[c2], alphabet[c3], alphabet[c4]);
			check_string(s);
		}
	// Very large numbers
	if (c1 < 10 && c2 < 10)
		for (int z = 0; z < 40; z++) {
			int l = snprintf(s, sizeof(s), "%s/%d%d", addrs[a], c1, c2);
			for (int i = 0; i < z; i++)
				s[l++] = i == z - 1 ? alphabet[c2] : '0';
			s[l] = 0;
			check_string(s);
			// Wrapping around
			snprintf(s, sizeof(s), "%s/%llu", addrs[a], (1ULL << (24 + z)) + c1 * 10 + c2);
			check_string(s);
			snprintf(s, sizeof(s), "%s/-%llu", addrs[a], (1ULL << (24 + z)) - c1 * 10 - c2);
			check_string(s);
		}
}

// All small edits of valid texts
static const char* valid[] = {
	"10.1.2.3", "10.1.2.3/8", "0.0.0.0/0", "255.255.255.255/32", "192.168.100.200/24", "::", "::/0", "::1/128", "2001:db8::/32",
	"fe80::1:2:3:4/64", "2001:db8:1:2:3:4:5:6/127", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128", "64:ff9b::192.0.2.33/96", "::10.0.0.1/120",
	"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255/128", "1::/16", "0:0:0:0:0:0:0:0/1", "1:2:3:4:5:6:7::/112", "::2:3:4:5:6:7:8/100", "::ffff:10.0.0.1", "::fffe:10.0.0.1/96",
};
static const char edits[] = "0129afgAFGx:./%-+ \t\n\\e\x01\x7f\xff";
#define NEDITS ((int)sizeof(edits) - 1)

static int edit(char* out, const char* in, int pos, int what) {
	int l = strlen(in);
	if (what < NEDITS) {			// insert
		memcpy(out, in, pos);
		out[pos] = edits[what];
		strcpy(out + pos + 1, in + pos);
	} else if (what < 2 * NEDITS) {	// replace
		if (pos >= l)
			return 0;
		strcpy(out, in);
		out[pos] = edits[what - NEDITS];
	} else {						// delete
		if (pos >= l)
			return 0;
		memcpy(out, in, pos);
		strcpy(out + pos, in + pos + 1);
	}
	return 1;
}

static void mode_edits(void) {
	int v = mc_choose(sizeof(valid) / sizeof(*valid));
	int l = strlen(valid[v]);
	int pos = mc_choose(l + 1);
	mc_shard();
	char s[200], t[200];
	check_string(valid[v]);
	for (int what = 0; what <= 2 * NEDITS; what++) {
		if (!edit(s, valid[v], pos, what))
			continue;
		check_string(s);
		// A second one
		int from = mc_thorough ? 0 : pos;
		int to = mc_thorough ? (int)strlen(s) : pos + 2;
		for (int pos2 = from; pos2 <= to && pos2 <= (int)strlen(s); pos2++)
			for (int what2 = 0; what2 <= 2 * NEDITS; what2++)
				if (edit(t, s, pos2, what2))
					check_string(t);
	}
}

// Printing and parsing gives the same network
static void same(const char* s, const net_t* m, const char* what) {
	struct loc_network* n = NULL;
	mc_assert(s, "%s: could not be printed as %s", m_net_str(m), what);
	mc_ops(1);
	int r = loc_network_new_from_string(lk_ctx, &n, s);
	mc_assert(r == 0 && n, "%s was printed as '%s', which cannot be parsed", m_net_str(m), s);
	mc_assert(m_u128(loc_network_get_first_address(n)) == m_first(m) && m_u128(loc_network_get_last_address(n)) == m_last(m)
		&& (int)loc_network_prefix(n) == m->plen - (m_net_v4(m) ? 96 : 0), "%s was printed as '%s'", m_net_str(m), s);
	loc_network_unref(n);
}

static void mode_print(void) {
	int plen = mc_choose(129 + 33), group = mc_choose(8);
	int v4 = plen >= 129;
	mc_shard();
	// Groups of zeros, ones and others in all combinations, and single bits
	for (int p = 0; p < 256 + 128; p++) {
		u128 a = 0;
		if (p < 256) {
			static const uint16_t w[8] = { 0xffff, 0x1, 0xabcd, 0x8000, 0x10, 0x100, 0xa0b, 0xf };
			for (int i = 0; i < 8; i++)
				a = a << 16 | ((p >> i) & 1 ? w[(i + group) % 8] : 0);
		} else if (group == 0)
			a = (u128)1 << (p - 256);
		else if (group == 1)
			a = ~((u128)1 << (p - 256));
		else if (group == 2)
			a = V4BASE ^ ((u128)1 << (p - 256));
		else
			break;
		net_t m = { .addr = a, .plen = plen };
		if (v4) {
			m.addr = V4BASE | (uint32_t)(a ^ (a >> 32) ^ (a >> 64) ^ (a >> 96));
			m.plen = 96 + plen - 129;
		}
		m.addr = m_first(&m);
		if (!v4 && m_is_v4(m.addr))
			continue;
		struct loc_network* n = NULL;
		struct in6_addr in = m_in6(m.addr);
		if (loc_network_new(lk_ctx, &n, &in, m.plen - (v4 ? 96 : 0)))
			mc_fail("%s could not be created", m_net_str(&m));
		same(loc_network_str(n), &m, "text");
		same(loc_network_str(n), &m, "text");
		// Both ends can be printed side by side
		const char* both[2] = { loc_network_format_first_address(n), loc_network_format_last_address(n) };
		mc_assert(both[0] && both[1], "%s: no text", m_net_str(&m));
		char texts[2][64];
		for (int last = 0; last < 2; last++)
			snprintf(texts[last], 64, "%s", both[last]);
		for (int last = 0; last < 2; last++) {
			const char* s = texts[last];
			net_t h = { .addr = last ? m_last(&m) : m.addr, .plen = 128 };
			struct in6_addr in6;
			struct in_addr in4;
			u128 got = 0;
			if (inet_pton(AF_INET6, s, &in6) == 1)
				got = m_u128(&in6);
			else if (inet_pton(AF_INET, s, &in4) == 1)
				got = V4BASE | ntohl(in4.s_addr);
			else
				mc_fail("%s: the %s address is printed as '%s'", m_net_str(&m), last ? "last" : "first", s);
			mc_assert(got == h.addr, "%s: the %s address is printed as '%s'", m_net_str(&m), last ? "last" : "first", s);
			same(s, &h, "address");
		}
		loc_network_unref(n);
		mc_state(lk_hash_net(MC_HASH_INIT, &m));
	}
}

// All country codes
static const char* special[] = { "A1", "A2", "A3", "XD" };

static void check_code(const char* text) {
	size_t len = strlen(text);
	char* s = malloc(len + 1);
	memcpy(s, text, len + 1);
	int want = len == 2 && s[0] >= 'A' && s[0] <= 'Z' && s[1] >= 'A' && s[1] <= 'Z' && s[0] != 'X';
	mc_ops(4);
	int r = loc_country_code_is_valid(s);
	mc_assert(!!r == want, "the code '%s' is %s", quote(s), r ? "accepted" : "refused");
	// Countries
	struct loc_country* c = NULL;
	r = loc_country_new(lk_ctx, &c, s);
	mc_assert((r == 0) == want && !!c == want, "the country '%s' is %s", quote(s), c ? "accepted" : "refused");
	if (c) {
		mc_assert(!strcmp(loc_country_get_code(c), s), "the country '%s' has code '%s'", s, loc_country_get_code(c));
		loc_country_unref(c);
	}
	// Networks
	struct loc_network* n = NULL;
	struct in6_addr in = m_in6(m_parse("10.0.0.0"));
	if (loc_network_new(lk_ctx, &n, &in, 8))
		mc_fail("no network");
	for (int before = 0; before < 2; before++) {
		if (before && loc_network_set_country_code(n, "DE"))
			mc_fail("DE was refused");
		r = loc_network_set_country_code(n, s);
		const char* now = loc_network_get_country_code(n);
		if (!*s) {
			mc_assert(r == 0 && !*now, "the country code could not be removed");
		} else if (want)
			mc_assert(r == 0 && !strcmp(now, s), "the code '%s' was set as '%s' (%d)", s, now, r);
		else
			mc_assert(r != 0 && !strcmp(now, before ? "DE" : ""), "the code '%s' was set as '%s' (%d)", quote(s), quote(now), r);
	}
	loc_network_unref(n);
	free(s);
}

static void check_match(const char* s) {
	// Which networks match a code
	int f = 0;
	for (int i = 0; i < 4; i++)
		if (!strcmp(s, special[i]))
			f = 1 << i;
	int valid = strlen(s) == 2 && s[0] >= 'A' && s[0] <= 'Z' && s[1] >= 'A' && s[1] <= 'Z' && s[0] != 'X';
	int flag = loc_country_special_code_to_flag(s);
	mc_assert(f ? flag == f : flag <= 0, "the code '%s' stands for flag %d", quote(s), flag);
	for (int flags = 0; flags < 16; flags++)
		for (int i = 0; i < 4; i++) {
			const char* cc = i == 0 ? "" : i == 1 ? "DE" : i == 2 ? (valid ? s : "AA") : "ED";
			struct loc_network* n = NULL;
			struct in6_addr in = m_in6(m_parse("2001:db8::"));
			if (loc_network_new(lk_ctx, &n, &in, 32))
				mc_fail("no network");
			loc_network_set_country_code(n, cc);
			if (flags)
				loc_network_set_flag(n, flags);
			mc_ops(1);
			int r = loc_network_matches_country_code(n, s);
			int want = f ? !!(flags & f) : valid && !strcmp(cc, s);
			mc_assert((r > 0) == want, "a network with country '%s' and flags %x %s '%s' (%d)", cc, flags,
				r > 0 ? "claims to match" : "does not match", quote(s), r);
			loc_network_unref(n);
		}
}

static void mode_codes(void) {
	int c1 = mc_choose(256);
	mc_shard();
	char s[8];
	if (c1 == 0) {
		check_code("");
		check_match("");
		return;
	}
	for (int c2 = 0; c2 < 256; c2++) {
		s[0] = c1; s[1] = c2; s[2] = 0;
		check_code(s);
		if ((c1 >= 'A' && c1 <= 'Z') && ((c2 >= 'A' && c2 <= 'Z') || (c2 >= '0' && c2 <= '9')))
			check_match(s);
		// Longer ones
		static const char third[] = "AZ1 x\xff";
		for (int i = 0; i < 6 && c2; i++) {
			s[2] = third[i]; s[3] = 0;
			check_code(s);
			s[3] = 'A'; s[4] = 0;
			check_code(s);
		}
	}
	check_match("A1A");
	check_match("XDD");
	check_match("A");
}

// Changing the country code of a network again leaves no trace of the previous one
static void mode_recode(void) {
	static const char* codes[] = { "", "DE", "DK", "AT", NULL, "??" };
	int path[4];
	for (int i = 0; i < 4; i++)
		path[i] = mc_choose(6);
	mc_shard();
	struct loc_network* n = NULL;
	struct in6_addr in = m_in6(m_parse("10.0.0.0"));
	if (loc_network_new(lk_ctx, &n, &in, 8))
		mc_fail("no network");
	const char* now = "";
	for (int i = 0; i < 4; i++) {
		const char* c = codes[path[i]];
		int r = loc_network_set_country_code(n, c);
		if (path[i] == 5) {
			mc_assert(r, "?? was accepted");
		} else {
			mc_assert(!r, "'%s' was refused", c ? c : "NULL");
			now = c ? c : "";
		}
		mc_assert(!strcmp(loc_network_get_country_code(n), now), "the code is '%s' instead of '%s'", loc_network_get_country_code(n), now);
		for (int k = 1; k < 4; k++)
			mc_assert((loc_network_matches_country_code(n, codes[k]) > 0) == !strcmp(now, codes[k]), "a network with code '%s' matches %s incorrectly", now, codes[k]);
		mc_state(mc_hash(MC_HASH_INIT, now, strlen(now)));
	}
	loc_network_unref(n);
}

void mc_run(void) {
	switch (mc_choose(6)) {
		case 0: mode_tokens(); break;
		case 1: mode_prefix(); break;
		case 2: mode_edits(); break;
		case 3: mode_print(); break;
		case 4: mode_codes(); break;
		case 5: mode_recode(); break;
	}
}
