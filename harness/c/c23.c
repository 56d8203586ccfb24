/*
	C23: version discovery understands every DNS answer or reports an error

	The resolver is replaced by one that answers with every reply of a bounded
	space of replies (or fails). What is returned is compared with an independent
	reading of the reply.
*/
#include "lk.h"
#include <ctype.h>
#include <resolv.h>
#include <time.h>
#include <libloc/resolv.h>

const char* mc_property = "C23";

#define MAXREPLY 1600

static struct {
	int init_result;
	int result;			// < 0: the query fails
	unsigned char data[MAXREPLY];
	int len;
	int filler;
	char domain[256];
	int calls;
} net;

static int answer(const char* domain, int class, int type, unsigned char* buffer, int size) {
	net.calls++;
	if (strcmp(domain, net.domain))
		mc_fail("%s is queried instead of %s", domain, net.domain);
	if (class != 1 || type != 16)
		mc_fail("a query of class %d and type %d is sent", class, type);
	if (size < 0)
		mc_fail("the buffer for the reply has %d bytes", size);
	for (int i = 0; i < size; i++)
		buffer[i] = net.filler >= 0 ? net.filler : (unsigned char)"Tue, 01 Jan 2030 00:00:00 GMT"[i % 30];
	if (net.result < 0)
		return -1;
	memcpy(buffer, net.data, net.len < size ? net.len : size);
	// This is how the resolver treats replies without any answers
	if (net.len >= 12 && ((net.data[3] & 15) || !(net.data[6] | net.data[7])))
		return -1;
	return net.len;
}

int __wrap_res_init(void) { return net.init_result; }
int __wrap___res_init(void) { return net.init_result; }
int __wrap_res_ninit(res_state s) { return net.init_result; }
int __wrap___res_ninit(res_state s) { return net.init_result; }
int __wrap_res_query(const char* d, int c, int t, unsigned char* a, int l) { return answer(d, c, t, a, l); }
int __wrap___res_query(const char* d, int c, int t, unsigned char* a, int l) { return answer(d, c, t, a, l); }
int __wrap_res_nquery(res_state s, const char* d, int c, int t, unsigned char* a, int l) { return answer(d, c, t, a, l); }
int __wrap___res_nquery(res_state s, const char* d, int c, int t, unsigned char* a, int l) { return answer(d, c, t, a, l); }
int __wrap_res_search(const char* d, int c, int t, unsigned char* a, int l) { return answer(d, c, t, a, l); }
int __wrap___res_search(const char* d, int c, int t, unsigned char* a, int l) { return answer(d, c, t, a, l); }

/* Dates */

static const char* wdays[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
static const char* months[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static const int mdays[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };

static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }

// Days since 1970-01-01 of a day of a month (0..11)
static long long days(long long y, int mon, long long day) {
	long long d = 0;
	for (int m = 0; m < mon; m++)
		d += mdays[m] + (m == 1 && leap(y));
	long long p = y - 1;
	d += p * 365 + p / 4 - p / 100 + p / 400 - (1969LL * 365 + 1969 / 4 - 1969 / 100 + 1969 / 400);
	return d + day - 1;
}

static void render(long long t, char* out) {
	long long d = t / 86400, s = t % 86400;
	int wday = (d + 4) % 7, y = 1970, m = 0;
	while (d >= 365 + leap(y))
		d -= 365 + leap(y++);
	while (d >= mdays[m] + (m == 1 && leap(y))) {
		d -= mdays[m] + (m == 1 && leap(y));
		m++;
	}
	sprintf(out, "%s, %02d %s %04d %02d:%02d:%02d GMT", wdays[wday], (int)d + 1, months[m], y, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
}

enum { REFUSE, EITHER, ACCEPT };

// What a text means
static int read_date(const char* text, int len, long long* t) {
	char s[256], canon[64];
	memcpy(s, text, len);
	s[len] = 0;
	int nul = memchr(text, 0, len) != NULL;
	struct tm tm = { };
	const char* p = strptime(s, "%a, %d %b %Y %H:%M:%S GMT", &tm);
	if (!p || *p || tm.tm_year < -1899)
		return REFUSE;
	*t = days(tm.tm_year + 1900LL, tm.tm_mon, tm.tm_mday) * 86400 + tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec;
	if (nul || *t < 0)
		return EITHER;
	render(*t, canon);
	return strcmp(canon, s) ? EITHER : ACCEPT;
}

/* An independent reading of a reply */

// Returns the position behind the name, -1 if it does not fit; clears *fine for unusual ones
static int skip_name(const unsigned char* d, int n, int pos, int* fine) {
	int start = pos, end = -1, total = 0, hops = 0;
	for (;;) {
		if (pos >= n)
			return -1;
		int c = d[pos];
		if (!c) {
			if (end < 0)
				end = pos + 1;
			break;
		}
		if ((c & 0xc0) == 0xc0) {
			if (pos + 1 >= n)
				return -1;
			if (end < 0)
				end = pos + 2;
			int to = (c & 0x3f) << 8 | d[pos + 1];
			// Pointers have to lead to an earlier name
			if (to >= start || to < 12 || ++hops > 20) {
				*fine = 0;
				break;
			}
			pos = start = to;
			continue;
		}
		if (c & 0xc0) {
			// No such kind of label
			*fine = 0;
			return -1;
		}
		if (pos + 1 + c > n) {
			if (end < 0)
				return -1;
			*fine = 0;
			break;
		}
		total += c + 1;
		for (int i = 0; i < c; i++)
			if (!isalnum(d[pos + 1 + i]) && d[pos + 1 + i] != '_' && d[pos + 1 + i] != '-')
				*fine = 0;
		pos += c + 1;
	}
	if (total > 250)
		*fine = 0;
	return end;
}

static int expect(const unsigned char* d, int n, long long* t) {
	int fine = 1;
	if (n < 12)
		return REFUSE;
	if ((d[3] & 15) || !(d[6] | d[7]))
		return REFUSE;
	if (d[4] || d[5] != 1 || !(d[2] & 0x80) || (d[2] & 0x7a))
		fine = 0;
	int ancount = d[6] << 8 | d[7];
	int pos = skip_name(d, n, 12, &fine);
	if (pos < 0 || pos + 4 > n)
		return REFUSE;
	if ((d[pos] << 8 | d[pos + 1]) != 16 || (d[pos + 2] << 8 | d[pos + 3]) != 1)
		fine = 0;
	pos += 4;
	for (;;) {
		if (--ancount < 0)
			fine = 0;
		pos = skip_name(d, n, pos, &fine);
		if (pos < 0 || pos + 10 > n)
			return REFUSE;
		int type = d[pos] << 8 | d[pos + 1], size = d[pos + 8] << 8 | d[pos + 9];
		if ((d[pos + 2] << 8 | d[pos + 3]) != 1 || (d[pos + 4] & 0x80))
			fine = 0;
		pos += 10;
		if (pos + size > n)
			return REFUSE;
		if (type == 5) {
			pos += size;
			continue;
		}
		if (type != 16)
			return REFUSE;
		if (!size || !d[pos] || d[pos] + 1 > size)
			return REFUSE;
		// All strings have to fit
		for (int p = 0; p < size; p += d[pos + p] + 1)
			if (p + d[pos + p] + 1 > size)
				fine = 0;
		int r = read_date((const char*)d + pos + 1, d[pos], t);
		return r == ACCEPT && (!fine || n > 512) ? EITHER : r;
	}
}

static const char* hex(const unsigned char* d, int n) {
	static char s[2 * MAXREPLY + 1];
	for (int i = 0; i < n; i++)
		sprintf(s + 2 * i, "%02x", d[i]);
	return s;
}

static const int fillers[] = { 0, -1, 0xff, 16, 'G' };

static void ask(unsigned version, int nfillers) {
	long long want = 0;
	int e = net.init_result || net.result < 0 ? REFUSE : expect(net.data, net.len, &want);
	int first = 0;
	sprintf(net.domain, "_v%u._db.location.ipfire.org", version);
	for (int i = 0; i < nfillers; i++) {
		net.filler = fillers[i];
		net.calls = 0;
		time_t t = 0x7ead;
		mc_ops(1);
		int r = loc_discover_latest_version(lk_ctx, version, &t);
		if (r == 0) {
			mc_assert(e != REFUSE, "a reply of %d bytes without a usable date is taken for %lld: %s", net.len, (long long)t, hex(net.data, net.len));
			mc_assert(t == want, "%lld is returned instead of %lld for %s", (long long)t, want, hex(net.data, net.len));
		} else
			mc_assert(e != ACCEPT, "a good reply of %d bytes announcing %lld is refused: %s", net.len, want, hex(net.data, net.len));
		if (!i)
			first = r;
		else
			mc_assert(!first == !r, "what is returned depends on what is behind the reply (%d bytes): %s", net.len, hex(net.data, net.len));
	}
	uint64_t h = mc_hash(MC_HASH_INIT, &e, sizeof(e));
	h = mc_hash(h, &want, sizeof(want));
	mc_state(mc_hash(h, &net.len, sizeof(net.len)));
}

/* Composing replies */

static unsigned char* w;

static void p16(int v) { *w++ = v >> 8; *w++ = v; }
static void put_label(const char* s, int n) { *w++ = n; memcpy(w, s, n); w += n; }
static int put_name(const char* s) {
	int at = w - net.data;
	while (*s) {
		int n = strcspn(s, ".");
		put_label(s, n);
		s += n;
		if (*s)
			s++;
	}
	*w++ = 0;
	return at;
}
static void put_ptr(int to) { p16(0xc000 | to); }
static unsigned char* put_rr(int type) {
	p16(type);
	p16(1);
	p16(0);
	p16(300);
	p16(0);
	return w;
}
static void end_rr(unsigned char* from) {
	from[-2] = (w - from) >> 8;
	from[-1] = w - from;
}
static void put_string(const char* s, int n) { *w++ = n; memcpy(w, s, n); w += n; }

struct shape {
	int cnames;		// before the TXT
	int compress;
	int longname;	// length of the names CNAMEs lead to (0: short)
	int strings;	// strings in the TXT
	int before;		// another type of record ahead of the TXT (0: none)
	int after;		// records behind
	int pad;		// pad the record to end at this size (0: not)
	int where;		// padding: 0 in the TXT record (as a further string), 1 in a CNAME's data, 2 in TXT's rdata only
};

static void compose(const struct shape* s, const char* text, int textlen) {
	memset(net.data, 0, sizeof(net.data));
	w = net.data;
	p16(0x1234);
	p16(0x8180);
	p16(1);
	p16(0);
	p16(0);
	p16(0);
	char q[100];
	sprintf(q, "_v1._db.location.ipfire.org");
	int owner = put_name(q);
	p16(16);
	p16(1);
	int answers = 0;
	char target[300];
	strcpy(target, q);
	for (int i = 0; i < s->cnames; i++) {
		if (s->compress)
			put_ptr(owner);
		else
			put_name(target);
		unsigned char* from = put_rr(5);
		if (s->longname) {
			memset(target, 0, sizeof(target));
			for (int k = 0; k < s->longname; k++)
				target[k] = k % 60 == 59 && k < s->longname - 1 ? '.' : 'a' + i;
		} else
			sprintf(target, "c%d.example.com", i);
		owner = put_name(target);
		end_rr(from);
		answers++;
	}
	if (s->before) {
		if (s->compress)
			put_ptr(owner);
		else
			put_name(target);
		unsigned char* from = put_rr(s->before);
		for (int i = 0; i < 16; i++)
			*w++ = i;
		end_rr(from);
		answers++;
	}
	if (s->compress)
		put_ptr(owner);
	else
		put_name(target);
	unsigned char* from = put_rr(16);
	put_string(text, textlen);
	for (int i = 1; i < s->strings; i++)
		put_string("Wed, 02 Jan 2030 00:00:00 GMT", 29);
	if (s->pad) {
		int n = s->pad - (w - net.data);
		while (n > 0) {
			int k = n > 256 ? 200 : n;
			*w++ = k - 1;
			memset(w, 'p', k - 1);
			w += k - 1;
			n -= k;
		}
	}
	end_rr(from);
	answers++;
	for (int i = 0; i < s->after; i++) {
		put_ptr(12);
		from = put_rr(i ? 1 : 16);
		put_string("Thu, 03 Jan 2030 00:00:00 GMT", 29);
		end_rr(from);
		if (!i)
			answers++;
	}
	if (s->after > 1) {
		net.data[9] = s->after - 1;
	}
	net.data[7] = answers;
	net.len = w - net.data;
	if (net.len > MAXREPLY)
		mc_abort("reply too long");
}

static const char good[] = "Fri, 28 Feb 2025 07:48:59 GMT";

static const struct shape shapes[] = {
	{ 0, 1, 0, 1 }, { 0, 0, 0, 1 }, { 1, 1, 0, 1 }, { 1, 0, 0, 1 }, { 2, 1, 0, 1 }, { 3, 0, 0, 1 },
	{ 0, 1, 0, 2 }, { 0, 1, 0, 3 }, { 0, 1, 0, 1, 0, 1 }, { 0, 1, 0, 1, 0, 2 }, { 1, 1, 0, 2, 0, 3 },
	{ 0, 1, 0, 1, 1 }, { 1, 1, 0, 1, 1 }, { 0, 1, 0, 1, 46 },
	{ 1, 1, 120, 1 }, { 1, 1, 126, 1 }, { 1, 1, 127, 1 }, { 1, 0, 128, 1 }, { 1, 0, 150, 1 }, { 1, 0, 200, 1 },
};
#define NSHAPES ((int)(sizeof(shapes) / sizeof(*shapes)))
#define NFILL 5

static void mode_shapes(void) {
	int which = mc_choose(NSHAPES), version = mc_choose(4);
	mc_shard();
	static const unsigned versions[] = { 1, 0, 2, 4294967295u };
	compose(&shapes[which], good, 29);
	mc_note("version %u, shape %d (%d bytes)", versions[version], which, net.len);
	ask(versions[version], NFILL);
}

// A TXT record that ends anywhere up to (and beyond) the end of the largest reply
static void mode_sizes(void) {
	int which = mc_choose(4), version = 1;
	struct shape s = { which & 1, 1, 0, 1 };
	int text = which & 2;
	int size = mc_choose(620);
	mc_shard();
	mc_note("records ending at byte %d", size + 80);
	if (!text) {
		s.pad = size + 80;
		compose(&s, good, 29);
	} else {
		// The date itself is last, behind a name that is long
		static char name[400];
		s.cnames = 1;
		s.longname = 1 + size % 240;
		s.strings = 1;
		if (size >= 240)
			s.cnames = 2;
		s.compress = !(which & 1);
		compose(&s, good, 29);
	}
	ask(version, NFILL);
}

// The date is the last thing in replies of every size up to 512 bytes, and is cut off at
// 512 bytes in longer ones
static void mode_last(void) {
	int size = 120 + mc_choose(393 + 80), kind = mc_choose(2);
	mc_shard();
	struct shape s = { 0, 1, 0, 1 };
	compose(&s, good, 29);
	// Enlarge the reply with CNAMEs whose data may be longer than their names
	int fill = size - net.len;
	if (fill < 2 + 10 + 1)
		mc_prune();
	memset(net.data, 0, sizeof(net.data));
	w = net.data;
	p16(0x1234); p16(0x8180); p16(1); p16(0); p16(0); p16(0);
	put_name("_v1._db.location.ipfire.org");
	p16(16); p16(1);
	int answers = 0;
	while (fill) {
		int n = fill > 300 ? 200 : fill;
		put_ptr(12);
		unsigned char* from = put_rr(5);
		put_label("x", 1);
		*w++ = 0;
		while (w - from < n - 12)
			*w++ = kind ? 0xc0 : 'p';
		w = from + n - 12;
		end_rr(from);
		fill -= n;
		answers++;
	}
	put_ptr(12);
	unsigned char* from = put_rr(16);
	put_string(good, 29);
	end_rr(from);
	net.data[7] = answers + 1;
	net.len = w - net.data;
	if (net.len != size)
		mc_abort("composed %d instead of %d bytes", net.len, size);
	if (size > 512) {
		net.len = 512;
		memset(net.data + 512, 0, sizeof(net.data) - 512);
	}
	mc_note("the date ends at byte %d", size);
	ask(1, NFILL);
}

static void mode_truncate(void) {
	int which = mc_choose(NSHAPES), n;
	compose(&shapes[which], good, 29);
	n = mc_choose(net.len);
	mc_shard();
	mc_note("shape %d cut off after %d bytes", which, n);
	net.len = n;
	ask(1, NFILL);
}

static void mode_bytes(void) {
	int which = mc_choose(NSHAPES);
	compose(&shapes[which], good, 29);
	int pos = mc_choose(net.len);
	mc_shard();
	unsigned char was = net.data[pos];
	for (int v = 0; v < 256; v++) {
		net.data[pos] = v;
		ask(1, 2);
	}
	net.data[pos] = was;
	mc_note("all values of byte %d of shape %d", pos, which);
}

static void mode_pairs(void) {
	int which = mc_choose(mc_thorough ? 14 : 3);
	compose(&shapes[which], good, 29);
	int a = mc_choose(net.len);
	mc_shard();
	mc_note("all pairs of byte %d with another of shape %d", a, which);
	static const int values[] = { 0, 1, 5, 16, 0x3f, 0x40, 0xc0, 0xff, -1, -2 };
	unsigned char wa = net.data[a];
	for (int b = a + 1; b < net.len; b++) {
		unsigned char wb = net.data[b];
		for (int i = 0; i < 10; i++)
			for (int k = 0; k < 10; k++) {
				net.data[a] = values[i] == -1 ? wa + 1 : values[i] == -2 ? wa - 1 : values[i];
				net.data[b] = values[k] == -1 ? wb + 1 : values[k] == -2 ? wb - 1 : values[k];
				ask(1, 2);
			}
		net.data[b] = wb;
	}
	net.data[a] = wa;
}

// Every day of these years, and every second of a few days
static void mode_dates(void) {
	static const char* zones[] = { "UTC0", "ABC5DEF", "XYZ-14" };
	int zone = mc_choose(3), part = mc_choose(24 + 131);
	mc_shard();
	setenv("TZ", zones[zone], 1);
	tzset();
	mc_note("all %s %d in time zone %s", part < 24 ? "seconds of hour" : "days of year", part < 24 ? part : part - 24 + 1970, zones[zone]);
	struct shape s = { 0, 1, 0, 1 };
	char text[64];
	if (part < 24) {
		for (int i = 0; i < 3600; i++) {
			render(days(2024, 1, 29) * 86400 + part * 3600 + i, text);
			compose(&s, text, 29);
			ask(1, 1);
		}
	} else {
		int y = 1970 + part - 24;
		for (long long d = days(y, 0, 1); d < days(y + 1, 0, 1); d++)
			for (int k = 0; k < 3; k++) {
				render(d * 86400 + (k == 0 ? 0 : k == 1 ? 86399 : (d * 7919) % 86400), text);
				compose(&s, text, 29);
				ask(1, 1);
			}
	}
	setenv("TZ", "UTC", 1);
	tzset();
}

// Texts that are no dates
static void mode_texts(void) {
	int op = mc_choose(4), pos = mc_choose(30);
	mc_shard();
	struct shape s = { 0, 1, 0, 1 };
	char text[300];
	for (int c = 0; c < 256; c++) {
		int len = 29;
		memset(text, 0, sizeof(text));
		strcpy(text, good);
		if (op == 0) {
			if (pos == 29)
				break;
			text[pos] = c;
		} else if (op == 1) {
			memmove(text + pos + 1, text + pos, 30 - pos);
			text[pos] = c;
			len++;
		} else if (op == 2) {
			if (pos == 29 || c > 28)
				break;
			len -= c + 1;
			if (pos + c + 1 > 29)
				break;
			memmove(text + pos, text + pos + c + 1, 30 - pos - c - 1);
		} else {
			// As long as a string can be
			if (c < 30)
				continue;
			len = c;
			memset(text + 29, "xG 0\tGMT,:\n\r#Z."[pos % 15], c - 29);
		}
		for (s.strings = 1; s.strings < 3; s.strings++) {
			compose(&s, text, len);
			ask(1, 2);
		}
	}
	mc_note("texts: change %d at %d", op, pos);
}

static void mode_faults(void) {
	int fault = mc_choose(4);
	mc_shard();
	compose(&shapes[0], good, 29);
	if (fault == 0)
		net.init_result = -1;
	else if (fault == 1)
		net.init_result = 1;
	else if (fault == 2)
		net.result = -1;
	mc_note("fault %d", fault);
	ask(1, NFILL);
}

// CNAMEs, as many as there is space for
static void mode_chain(void) {
	int n = mc_choose(14), strings = 1 + mc_choose(2);
	mc_shard();
	struct shape s = { n, 1, 0, strings };
	compose(&s, good, 29);
	mc_note("%d CNAMEs (%d bytes)", n, net.len);
	ask(1, NFILL);
	// ... with the shortest data
	int max = (512 - 12 - 31 - 12 - 30) / 15;
	for (int k = 2 * n; k <= max && k < 2 * n + 2; k++) {
		memset(net.data, 0, sizeof(net.data));
		w = net.data;
		p16(0x1234); p16(0x8180); p16(1); p16(k + 1); p16(0); p16(0);
		put_name("_v1._db.location.ipfire.org");
		p16(16); p16(1);
		for (int i = 0; i <= k; i++) {
			put_ptr(12);
			unsigned char* from = put_rr(i < k ? 5 : 16);
			if (i < k)
				put_ptr(12 + (i & 1) * 4);
			else
				put_string(good, 29);
			end_rr(from);
		}
		net.len = w - net.data;
		mc_note("; %d CNAMEs (%d bytes)", k, net.len);
		ask(1, NFILL);
	}
}

void mc_run(void) {
	memset(&net, 0, sizeof(net));
	switch (mc_choose(10)) {
		case 9: mode_chain(); break;
		case 0: mode_shapes(); break;
		case 1: mode_truncate(); break;
		case 2: mode_bytes(); break;
		case 3: mode_dates(); break;
		case 4: mode_texts(); break;
		case 5: mode_faults(); break;
		case 6: mode_sizes(); break;
		case 7: mode_last(); break;
		case 8: mode_pairs(); break;
	}
}
void (*mc_worker_init)(void) = lk_init;
