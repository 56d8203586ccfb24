"""C25: the importer takes over exactly what the records state, and only plausible networks"""
import gzip, ipaddress, itertools, json, os
import pymc, cli, importer, fakepg, minipg
from minipg import Inet

AFRINIC = "https://ftp.afrinic.net/pub/pub/dbase/afrinic.db.gz"
LACNIC = ("https://ftp.lacnic.net/lacnic/dbase/lacnic.db.gz", "https://ftp.lacnic.net/pub/stats/lacnic/delegated-lacnic-extended-latest")
ARIN = ("https://ftp.arin.net/pub/stats/arin/delegated-arin-extended-latest", "https://ftp.arin.net/pub/resource_registry_service/asns.csv")
AWS = "https://ip-ranges.amazonaws.com/ip-ranges.json"
DROP, DROPV6, ASNDROP = ("https://www.spamhaus.org/drop/" + x for x in ("drop.txt", "dropv6.txt", "asndrop.json"))

COUNTRIES = ("DE", "FR", "GB", "US", "BR", "ZA")

def init(mc):
	global EMPTY
	importer.setup(mc)
	logging.getLogger("location").addHandler(Keep())
	EMPTY = importer.database()
	for c in COUNTRIES:
		EMPTY.put("countries", country_code=c, name=c + " name", continent_code="EU")
	global scratch
	scratch = pymc.scratch()

def start(mc, *argv, pages=None, db=None, fails=False):
	"""Runs the importer, which has to succeed"""
	mc.ops()
	server = fakepg.start(db or EMPTY.clone())
	r = importer.run(server, argv, pages)
	what = "location-importer %s" % " ".join(argv)
	mc.check(r.exception is None, lambda : "%s fails: %s" % (what, cli.traceback_of(r.exception)))
	if not fails:
		mc.check(r.code == 0, lambda : "%s exits with %s: %s" % (what, r.code, [l for l in LOG[-3:]]))
	return server.db, r

# The log says why a source has failed
import logging
LOG = []
class Keep(logging.Handler):
	def emit(self, record):
		LOG.append(self.format(record)[-1500:])
		del LOG[:-5]

def nets(*ranges):
	"""The networks that cover a range"""
	a, b = (ipaddress.ip_address(r) for r in ranges)
	return [str(n) for n in ipaddress.summarize_address_range(a, b)]

class Model(object):
	def __init__(self):
		self.nets = {}		# network -> [countries that it may have], [original countries]
		self.feeds = set()	# (network, url)
		self.orgs = {}		# handle -> names
		self.ases = {}		# number -> [(organisation, description)]
		self.maybe = set()	# networks which may be there or not

	def net(self, networks, cc=None, feed=None, original=None):
		for n in networks:
			self.nets.setdefault(n, []).append((cc, tuple(original if original is not None else [cc] if cc else ())))
			if feed:
				self.feeds.add((n, feed))

	def org(self, handle, name):
		self.orgs.setdefault(handle, set()).add(name)

	def asn(self, number, org=None, descr=None):
		self.ases.setdefault(number, []).append((org, descr))

	def names(self):
		"""number -> names that it may have (None: may be absent)"""
		out = {}
		for n, l in self.ases.items():
			names = set()
			for org, descr in l:
				if org:
					names |= self.orgs.get(org) or { None, descr }
				else:
					names.add(descr)
			out[n] = names
		return out

def inets(table):
	out = {}
	for r in table:
		out[str(r["network"])] = r
	return out

def norm(n):
	return repr(Inet.parse(n))

def check_networks(mc, what, m, rows):
	got = { repr(r["network"]) : r for r in rows }
	want = { norm(n) : v for n, v in m.nets.items() }
	for n, r in got.items():
		mc.check(n in want, lambda : "%s: %s has been imported" % (what, n))
		mc.check(r["country"] in [c for c, _ in want[n]], lambda : "%s: %s has the country %s instead of %s" % (what, n, r["country"], want[n]))
		mc.check(tuple(r["original_countries"] or ()) in [o for _, o in want[n]], lambda : "%s: %s has the countries %s instead of %s" % (what, n, r["original_countries"], want[n]))
	# Whatever is left out must be implied
	parsed = [(Inet.parse(n), v) for n, v in want.items()]
	table = [(r["network"], r["country"]) for r in got.values()]
	cuts = set()
	for n, _ in parsed:
		last = n.address | ((1 << (n.bits - n.plen)) - 1)
		for a in (n.address - 1, n.address, last, last + 1):
			if 0 <= a < 1 << n.bits:
				cuts.add((n.version, a))
	for version, a in sorted(cuts):
		host = Inet(version, a, 32 if version == 4 else 128)
		covering = sorted([x for x in parsed if x[0].contains(host, False)], key=lambda x : -x[0].plen)
		allowed = { None } if not covering else set()
		for n, v in covering:
			c = { c for c, _ in v }
			allowed |= c - { None }
			if None not in c:
				break
		else:
			allowed.add(None)
		if covering and { c for c, _ in covering[0][1] } == { None } and None not in allowed:
			pass
		have = [x for x in table if x[0].contains(host, False)]
		mc.check(bool(have) == bool(covering), lambda : "%s: %r is %s" % (what, host, "covered" if have else "not covered"))
		best = max(have, key=lambda x : x[0].plen)[1] if have else None
		mc.check(best in allowed, lambda : "%s: the country of %r is %s instead of %s" % (what, host, best, allowed))

def check_names(mc, what, m, rows):
	got = { r["number"] : r["name"] for r in rows }
	want = m.names()
	for n, name in got.items():
		mc.check(n in want and name in want[n], lambda : "%s: AS%s has the name %r instead of %s" % (what, n, name, want.get(n)))
	for n, names in want.items():
		mc.check(n in got or None in names, lambda : "%s: AS%s %s has not been imported" % (what, n, names))

# ---- records in RPSL ----

def R(text, *effects, either=False):
	"""A record: its text, what it says, and if it may also be left out"""
	return (text if isinstance(text, bytes) else text.encode(), effects, either)

def net(networks, cc=None, feed=None, original=None):
	return lambda m : m.net(networks, cc, feed, original)

def org(handle, name):
	return lambda m : m.org(handle, name)

def asn(number, org=None, descr=None):
	return lambda m : m.asn(number, org, descr)

SKIPPED = ("ERX-NETBLOCK", "AFRINIC-CIDR-BLOCK", "ARIN-CIDR-BLOCK", "LACNIC-CIDR-BLOCK", "RIPE-CIDR-BLOCK", "IANA-NETBLOCK-8", "IANA-NETBLOCK-255", "NON-RIPE-NCC-MANAGED-ADDRESS-BLOCK",
	"STUB-41-0SLASH16", "STUB-103-1SLASH9")

RPSL = [
	R("inetnum: 41.0.0.0 - 41.0.255.255\nnetname: X\ncountry: DE\nsource: T\n", net(["41.0.0.0/16"], "DE")),
	R("inetnum:        41.0.0.5 - 41.0.3.17\ncountry:        FR\n", net(nets("41.0.0.5", "41.0.3.17"), "FR")),
	R("inetnum:\t41.0.16.0-41.0.16.255\ncountry:\tgb\n", net(["41.0.16.0/24"], "GB")),
	R("inetnum: 41.0.16.0/25\ncountry: UK\n", net(["41.0.16.0/25"], "GB")),
	R("inetnum: 41.0.16.7/25\ncountry: Uk # or is it?\n", net(["41.0.16.0/25"], "GB")),
	R("inetnum: 41.0.16.9\ncountry: US\n", net(["41.0.16.9/32"], "US")),
	R("inetnum: 41.0.16.9 - 41.0.16.9\ncountry: US\n", net(["41.0.16.9/32"], "US")),
	R("inetnum: 41.128/9\ncountry: BR\n", net(["41.128.0.0/9"], "BR")),
	R("inetnum: 41.128.8/22\ncountry: DE\n", net(["41.128.8.0/22"], "DE")),
	R("inetnum: 41.128.8/22\nstatus: x\n", net(["41.128.8.0/22"])),
	R("inetnum: 41.0.0.0 - 41.255.255.255\n", net(["41.0.0.0/8"])),
	R("inetnum: 40.0.0.0 - 41.255.255.255\ncountry: ZA\n", net(["40.0.0.0/7"], "ZA")),
	# Parts of a range may not be plausible
	R("inetnum: 9.255.254.0 - 11.0.0.255\ncountry: DE\n", net(["9.255.254.0/23", "11.0.0.0/24"], "DE")),
	R("inetnum: 172.15.255.7 - 172.32.0.0\ncountry: FR\ngeofeed: https://d.example/\n", net(nets("172.15.255.7", "172.15.255.255") + ["172.32.0.0/32"], "FR", "https://d.example/")),
	R("inetnum: 41.0.32.0/24\ncountry: DE\ncountry: FR\n", net(["41.0.32.0/24"], "DE", original=["DE", "FR"])),
	R("inetnum: 41.0.32.0/24\ncountry: ZZ\ncountry: QQ\ncountry: yu\ncountry: fr\n", net(["41.0.32.0/24"], "FR")),
	R("inetnum: 41.0.48.0/24\ncountry: QQ\n", net(["41.0.48.0/24"])),
	R("inetnum: 41.0.48.0/24\ncountry: ZZ\ncountry: \ncountry: 12\ncountry: DEU\n", net(["41.0.48.0/24"])),
	R("% a comment\ninetnum: 41.0.64.0/24 # with a comment\n# in between\n%\nremarks:\nremarks: no colon here\nunknown\nunknown: a: b: c\n # x\ncountry: FR # c\n", net(["41.0.64.0/24"], "FR")),
	R("country: DE\ninetnum: 41.0.80.0/24\n", net(["41.0.80.0/24"], "DE"), either=True),
	R("inetnum: 41.0.64.0/24\r\ncountry: DE\r\n", net(["41.0.64.0/24"], "DE")),
	R(b"inetnum: 41.0.65.0/24\ndescr: \xc3\xa4\xc3\xb6\ndescr: \xe4\xf6\xff\ncountry: DE\nremarks: \xe2\x80\xa8 x\n", net(["41.0.65.0/24"], "DE")),
	R("inetnum: 41.0.66.0/24\ngeofeed: https://a.example/feed.csv\ncountry: DE\n", net(["41.0.66.0/24"], "DE", "https://a.example/feed.csv")),
	R("inetnum: 41.0.67.0 - 41.0.69.255\nremarks: Geofeed https://b.example/x?y=1\n", net(nets("41.0.67.0", "41.0.69.255"), None, "https://b.example/x?y=1")),
	R("inetnum: 41.0.70.0/24\ncountry: DE\ngeofeed: http://a.example/feed.csv\n", net(["41.0.70.0/24"], "DE")),
	R("inetnum: 41.0.70.0/24\ncountry: DE\ngeofeed: nonsense\nremarks: Geofeed is not here\nremarks: See Geofeed https://c.example/\n", net(["41.0.70.0/24"], "DE")),
	R("inetnum: 41.0.71.0/24\ncountry: DE\ngeofeed: https://[broken/\n", net(["41.0.71.0/24"], "DE")),
	R("inet6num: 2c00::/12\ncountry: ZA\n", net(["2c00::/12"], "ZA")),
	R("inet6num: 2c0f:1::/32\ncountry: FR\nnetname: STUB\n", net(["2c0f:1::/32"], "FR")),
	R("inet6num: 2C0F:1:0:0:1::5/64\ncountry: DE\ngeofeed: https://a.example/feed.csv\n", net(["2c0f:1::/64"], "DE", "https://a.example/feed.csv")),
	R("inet6num: 2c0f:1::/64\n", net(["2c0f:1::/64"])),
	R("inet6num: 2c0f:1::7/128\ncountry: US\n", net(["2c0f:1::7/128"], "US")),
	R("aut-num: AS5\nas-name: X\norg: ORG-1\ndescr: Not used\n", asn(5, "ORG-1", "Not used")),
	R("aut-num: as6 # lower case\norg: org-1\n", asn(6, "ORG-1")),
	R("aut-num: AS7\ndescr: First: line\ndescr: Second line\n", asn(7, None, "First: line")),
	R("aut-num: AS7\ndescr: ---\ndescr: Third line\n", asn(7, None, "---")),
	R("aut-num: AS8\nas-name: NOTHING\n"),
	R("aut-num: AS9\norg: ORG-MISSING\n", asn(9, "ORG-MISSING")),
	R(b"aut-num: AS327680\norg: ORG-2\ndescr: \xe4\n", asn(327680, "ORG-2", "ä")),
	R("aut-num: AS2147483647\ndescr: Max\n", asn(2147483647, None, "Max")),
	R("aut-num: AS2147483648\ndescr: More\n", asn(2147483648, None, "More")),
	R("aut-num: AS4199999999\ndescr: Last\n", asn(4199999999, None, "Last")),
	R("organisation: ORG-1\norg-name: One, Inc. # (US)\norg-type: LIR\n", org("ORG-1", "One, Inc.")),
	R("organisation: org-2\norg-name: Zw\u00f6i: 2\n", org("ORG-2", "Zwöi: 2")),
	R("organisation: ORG-LONG\norg-name: " + "n" * 3000 + "\n", org("ORG-LONG", "n" * 3000)),
	# Nothing can be learned from these
	R("person: Somebody\ncountry: DE\n"), R("route: 41.99.0.0/16\norigin: AS5\n"), R("% 41.99.0.0/16\n"), R("\n"), R("#\n\n\n"), R("nonsense\n"), R(": x\n"),
	R("inetnum:\ncountry: DE\n"), R("inetnum: \n"), R("inetnum: x\ncountry: DE\n"), R("inetnum: 41.99.0.0 -\n"), R("inetnum: - 41.99.0.0\n"), R("inetnum: 41.99.0.0 - x\n"),
	R("inetnum: 41.99.0.255 - 41.99.0.0\ncountry: DE\n"), R("inetnum: 41.99.0.0 - 2c0f:99::\ncountry: DE\n"), R("inetnum: 41.99.0.0/33\ncountry: DE\n"),
	R("inetnum: 41.99.0\ncountry: DE\n"), R("inetnum: 41.99\ncountry: DE\n"), R("inetnum: 41.99.0/x\ncountry: DE\n"), R("inetnum: 41.99/40\n"), R("inetnum: 41/\ncountry: DE\n"), R("inetnum: 41.999.0/24\n"),
	R("inetnum: 41.99.0.256 - 41.99.1.255\n"), R("inetnum: a.b/c\n"), R("inetnum: a.b.c\n"), R("inetnum: 41.99.0.0 - 41.99.0.255 - 41.99.1.255\n"),
	R("inet6num: x\ncountry: DE\n"), R("inet6num:\ncountry: DE\n"), R("inet6num: 2c0f::/129\ncountry: DE\n"), R("inet6num: 2c0f::/x\n"), R("inet6num: 2c0f::1::/64\n"),
	R("inet6num: 2c0f:99:: - 2c0f:99::ffff\n"), R("inet6num: 2c0f:99::/64/64\ncountry: DE\n"),
	R("aut-num: x\norg: ORG-1\n"), R("aut-num:\ndescr: x\n"), R("aut-num: AS\ndescr: x\n"), R("aut-num: 5000\ndescr: x\n"), R("aut-num: AS99999999999\ndescr: x\n"), R("aut-num: AS99999999999999999999\ndescr: x\n"),
	R("aut-num: AS4294967296\norg: ORG-1\n"), R("aut-num: AS0\norg: ORG-1\n"),
	R("organisation: ORG-3\norg-type: LIR\n"), R("organisation:\norg-name: x\n"), R("org-name: x\norganisation: ORG-1\n"), R("organisation: ORG-4\n"), R("organisation:\n"),
	# Not to be imported
	R("inetnum: 0.0.0.0 - 255.255.255.255\ncountry: DE\n"), R("inet6num: ::/0\ncountry: DE\n"), R("inetnum: 10.0.0.0 - 10.255.255.255\ncountry: DE\n"), R("inet6num: fc00::/7\ncountry: DE\n"),
	R("inetnum: 41.99.0.0/16\nnetname: STUB-41-99SLASH16\ncountry: DE\n"),
] + [R("inetnum: 41.99.0.0/16\nnetname: %s\ncountry: DE\n" % n) for n in SKIPPED] + [
	R("inetnum: 41.0.90.0/24\nnetname: %s\ncountry: DE\n" % n, net(["41.0.90.0/24"], "DE")) for n in ("MY-ERX-NETBLOCK", "RIPE-CIDR", "STUB-X", "APNIC-CIDR-BLOCK", "IANA-NETBLOCK-", "STUB-41SLASH8")]

def case_rpsl(mc, arg):
	first, depth = arg
	n = len(RPSL)
	for rest in itertools.product(range(n), repeat=depth - 1):
		records = [RPSL[i] for i in (first,) + rest]
		for gz in (False, "application/x-gzip", "application/gzip", "application/octet-stream", "text/plain", None) if depth == 1 else (False,):
			for sep in (b"\n", b"\n\n# x\n\n", b"\r\n", b"  \n") if depth < 3 and (depth == 1 or first < 8) else (b"\n",):
				if sep != b"\n" and gz not in (False, "application/x-gzip"):
					continue
				text = sep.join(t for t, _, _ in records)
				if depth == 1 and gz is False:
					# The last line may not be terminated
					rpsl(mc, text.rstrip(b"\n"), records, False)
				rpsl(mc, text, records, gz)
	mc.note("records starting with %r, %d records" % (RPSL[first][0], depth))

def rpsl(mc, text, records, gz):
	# Whatever type the server says it is
	page = importer.Page(gzip.compress(text), type=gz) if gz is not False else text
	db, r = start(mc, "update-whois", "AFRINIC", pages={ AFRINIC : page })
	what = "%r" % text
	must = Model()
	for _, effects, either in records:
		for e in effects:
			e(must)
	optional = [x for x in records if x[2]]
	networks = db.rows("networks")
	if optional and not any(repr(x["network"]) == "41.0.80.0/24" for x in networks):
		must.nets.pop("41.0.80.0/24", None)
	mc.check(all(x["source"] == "AFRINIC" for x in networks + db.rows("autnums")), "%s: wrong source" % what)
	check_networks(mc, what, must, networks)
	check_names(mc, what, must, db.rows("autnums"))
	mc.equal(sorted((repr(x["network"]), x["url"], x["source"]) for x in db.rows("network_geofeeds")), sorted((norm(n), u, "AFRINIC") for n, u in must.feeds), "%s: geofeeds" % what)
	mc.state(sorted(map(repr, networks)), sorted(map(repr, db.rows("autnums"))))

# Networks inside of each other
def case_nested(mc, arg):
	v, first, reverse = arg
	prefixes = ("41.0.0.0/8", "41.0.0.0/16", "41.0.0.0/24", "41.0.0.0/32") if v == 4 else ("2c0f::/16", "2c0f::/32", "2c0f::/48", "2c0f::/128")
	for rest in itertools.product((False, None, "DE", "FR"), repeat=3):
		records = []
		for n, cc in zip(prefixes, (first,) + rest):
			if cc is not False:
				records.append(R("%s: %s\n%s" % ("inetnum" if v == 4 else "inet6num", n, "country: %s\n" % cc if cc else ""), net([n], cc)))
		if not records:
			continue
		if reverse:
			records.reverse()
		rpsl(mc, b"\n".join(t for t, _, _ in records), records, False)
	mc.note("networks inside of each other, IPv%d, %s, %s" % arg)

# ---- plausibility ----

# Never to be imported
BOGUS = ["0.0.0.0/0", "0.0.0.0/1", "0.0.0.0/6", "0.0.0.0/7", "0.0.0.0/8", "0.0.0.0/24", "0.0.0.0/32", "4.0.0.0/6", "8.0.0.0/5", "128.0.0.0/1", "64.0.0.0/3", "40.0.0.0/6",
	"10.0.0.0/8", "10.0.0.0/9", "10.255.255.0/24", "10.1.2.3/32", "127.0.0.0/8", "127.0.0.1/32", "169.254.0.0/16", "169.254.9.0/24", "172.16.0.0/12", "172.31.255.255/32", "192.168.0.0/16", "192.168.255.0/24",
	"100.64.0.0/10", "100.127.255.0/24", "192.0.2.0/24", "198.51.100.0/24", "203.0.113.0/24", "198.18.0.0/15", "198.19.255.0/24", "240.0.0.0/7", "240.0.0.0/8", "255.255.255.255/32", "255.255.255.0/24",
	"::/0", "::/1", "::/9", "::/10", "::/32", "::/128", "::1/128", "8000::/1", "2000::/3", "2000::/9", "2a00::/9", "fc00::/7", "fc00::/10", "fd00::/10", "fdff::/16", "fe80::/10", "fe80::1/128", "2001:db8::/32", "2001:db8:ffff::/48",
	"::ffff:0:0/96", "::ffff:41.0.0.0/104"]
# Always to be imported
GOOD = ["1.0.0.0/8", "9.0.0.0/8", "11.0.0.0/8", "40.0.0.0/7", "41.0.0.0/8", "41.0.0.0/32", "126.0.0.0/8", "128.0.0.0/8", "169.253.0.0/16", "169.255.0.0/16", "172.15.0.0/16", "172.32.0.0/11", "192.167.0.0/16", "192.169.0.0/16",
	"100.63.0.0/16", "100.128.0.0/9", "192.0.3.0/24", "198.51.101.0/24", "198.51.99.0/24", "203.0.112.0/24", "203.0.114.0/24", "198.17.0.0/16", "198.20.0.0/14", "223.255.255.0/24", "223.255.255.255/32",
	"2400::/12", "2600::/12", "2800::/12", "2a00::/12", "2c00::/12", "2a00::/10", "2400::/10", "2001:200::/23", "2001:db7::/32", "2001:db9::/32", "2a00:1::/32", "2a00::1/128", "2c0f:ffff::/32"]
# These may be imported or not (multicast and parts of the address space which is not yet assigned, tunnels, ...)

def boundary():
	for p in range(33):
		yield str(ipaddress.ip_network((41 << 24, p), strict=False) if p else ipaddress.ip_network("0.0.0.0/0")), p >= 7
	for p in range(129):
		n = ipaddress.ip_network(((0x2a00 << 112) | (0x1 << 96), p), strict=False)
		yield str(n), p >= 10

def case_plausible(mc, arg):
	n, ok, how = arg
	text = ipaddress.ip_network(n)
	pages, argv, table, extra = {}, None, "networks", {}
	good = "41.200.0.0/16" if text.version == 4 else "2c0f:200::/32"
	v6 = text.version == 6
	if how in ("cidr", "range"):
		f = lambda x : "inet6num: %s" % x if v6 else "inetnum: %s" % x if how == "cidr" else "inetnum: %s - %s" % (ipaddress.ip_network(x)[0], ipaddress.ip_network(x)[-1])
		argv, pages = ["update-whois", "AFRINIC"], { AFRINIC : "\n\n".join("%s\ncountry: %s" % (f(x), c) for x, c in ((n, "DE"), (good, "FR"))).encode() }
	elif how == "extended":
		f = lambda x : str(ipaddress.ip_network(x).prefixlen if v6 else ipaddress.ip_network(x).num_addresses)
		argv = ["update-whois", "ARIN"]
		pages = { ARIN[0] : "\n".join("arin|%s|%s|%s|%s|20200101|allocated|x" % (c, "ipv6" if v6 else "ipv4", x.split("/")[0], f(x)) for x, c in ((n, "DE"), (good, "FR"))).encode() + b"\n", ARIN[1] : CSV }
	elif how == "aws":
		k, p = ("ipv6_prefixes", "ipv6_prefix") if v6 else ("prefixes", "ip_prefix")
		argv, table = ["update-feeds", "AWS-IP-RANGES"], "network_feeds"
		pages = { AWS : json.dumps({ k : [{ p : x, "region" : r } for x, r in ((n, "eu-central-1"), (good, "eu-west-3"))] }).encode() }
	else:
		argv, table = ["update-feeds", "SPAMHAUS-DROPV6" if v6 else "SPAMHAUS-DROP"], "network_feeds"
		pages = { DROPV6 if v6 else DROP : ("; comment\n%s ; SBL1\n%s ; SBL2\n" % (n, good)).encode() }
	db, r = start(mc, *argv, pages=pages)
	got = sorted(repr(x["network"]) for x in db.rows(table))
	mc.equal(got, sorted([norm(good)] + ([norm(n)] if ok and n != good else [])), "networks imported from %r" % (list(pages.values())[0],))
	mc.state(got)
	mc.note("%s as %s" % (n, how))

# ---- extended format ----

CSV = b'"Org ID","Org Name","Start AS Number","End AS Number","Status","Registration Date"\n'

def E(text, *effects):
	return (text.encode() if isinstance(text, str) else text, effects)

def e4(first, count, cc="US"):
	a = ipaddress.ip_address(first)
	return net(nets(first, str(a + count - 1)), cc)

EXTENDED = [E("arin|US|ipv4|41.0.0.0|%d|20200101|allocated|x" % (1 << i), e4("41.0.0.0", 1 << i)) for i in range(25)] + [
	E("arin|US|ipv4|41.0.0.0|%d|20200101|%s|x" % (c, s), e4("41.0.0.0", c)) for c, s in ((3, "assigned"), (768, "allocated"), (1000, "assigned"), (1536, "allocated"), (65535, "allocated"), (65537, "assigned"))] + [
	E("arin|US|ipv4|9.255.255.0|%d|20200101|allocated|x" % (512 + (1 << 24)), net(["9.255.255.0/24", "11.0.0.0/24"], "US")),
	E("arin|DE|ipv4|41.0.1.0|512|20200101|allocated|x", e4("41.0.1.0", 512, "DE")), E("arin|DE|ipv4|41.0.0.255|2|20200101|allocated|x", e4("41.0.0.255", 2, "DE")),
	E("lacnic|BR|ipv6|2c0f:1::|32|20200101|allocated|x", net(["2c0f:1::/32"], "BR")), E("lacnic|FR|ipv6|2C0F:1:2::|128|20200101|assigned", net(["2c0f:1:2::/128"], "FR")), E("lacnic|DE|ipv6|2c0f:1::|48|20200101|assigned", net(["2c0f:1::/48"], "DE")),
	E("arin|US|ipv4|41.0.0.0|256||assigned", e4("41.0.0.0", 256)), E("arin|US|ipv4|41.0.0.0|256||assigned|", e4("41.0.0.0", 256)),
	E("2|arin|20200101|1234|19700101|20200101|-0400"), E("2.3|arin|20200101"), E("arin|*|ipv4|*|1234|summary"), E("# comment"), E(""), E("   "), E("nonsense"), E("a|b|c"), E("|||"), E("|||||||"), E("arin|US|ipv4|41.99.0.0|256|20200101|allocated|x|y|z|z"),
	E("arin|US|asn|5|1|20200101|assigned|x"), E("arin||ipv4|41.99.0.0|256|20200101|available|"), E("arin||ipv4|41.99.0.0|256||reserved|"), E("arin|US|ipv4|41.99.0.0|256||reserved|x"), E("arin|US|ipv4|41.99.0.0|256||available|x"),
	E("arin|US|ipv4|41.99.0.0|256||unknown|x"), E("arin|US|ipv4|41.99.0.0|256|20200101||x"), E("arin|US|ipv6|2c0f:99::|32|20200101|legacy"),
	E("arin|QQ|ipv4|41.99.0.0|256|20200101|allocated|x"), E("arin|*|ipv4|41.99.0.0|256|20200101|allocated|x"), E("arin|US|ipv5|41.99.0.0|256|20200101|allocated|x"), E("arin|US|ipv5|2c0f:99::|32|20200101|allocated|x"), E("arin|US||2c0f:99::|32|20200101|allocated|x"), E("arin|US|asn|2c0f:99::|32|20200101|allocated|x"),
	E("arin|US|ipv4|41.99.0.0|0|20200101|allocated|x"), E("arin|US|ipv4|41.99.0.0|-1|20200101|allocated|x"), E("arin|US|ipv4|41.99.0.0|x|20200101|allocated|x"), E("arin|US|ipv4|41.99.0.0||20200101|allocated|x"),
	E("arin|US|ipv4|41.99.0.x|256|20200101|allocated|x"), E("arin|US|ipv4||256|20200101|allocated|x"), E("arin|US|ipv4|2c0f:99::|256|20200101|allocated|x"), E("arin|US|ipv6|2c0f:99::|129|20200101|allocated|x"), E("arin|US|ipv6|2c0f:99::|-1|20200101|allocated|x"),
	E("arin|US|ipv6|2c0f:99::|x|20200101|allocated|x"), E("arin|US|ipv6|41.99.0.0|48|20200101|allocated|x"), E("arin|US|ipv6|x|32|20200101|allocated|x"),
	E("arin|US|ipv4|10.0.0.0|256|20200101|allocated|x"), E("arin|US|ipv6|fc00::|16|20200101|allocated|x"), E("arin|US|ipv4|0.0.0.0|4294967296|20200101|allocated|x"),
	E("arin|US|ipv4|255.255.255.0|512|20200101|allocated|x"), E("arin|US|ipv4|41.99.0.0|99999999999|20200101|allocated|x"), E("arin|US|ipv4|41.99.0.0|" + "9" * 400 + "|20200101|allocated|x"),
]

def case_extended(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(EXTENDED)), repeat=depth - 1):
		lines = [EXTENDED[i] for i in (first,) + rest]
		text = b"\n".join(t for t, _ in lines) + b"\n"
		db, r = start(mc, "update-whois", "ARIN", pages={ ARIN[0] : text, ARIN[1] : CSV })
		m = Model()
		for _, effects in lines:
			for e in effects:
				e(m)
		rows = db.rows("networks")
		check_networks(mc, "%r" % text, m, rows)
		mc.equal(sorted(repr(x["network"]) for x in rows), sorted(norm(n) for n in m.nets), "networks of %r" % text)
		mc.state(sorted(map(repr, rows)))
	mc.note("extended format, %r, %d lines" % (EXTENDED[first][0][:100], depth))

# ---- names of ARIN's ASes ----

def A(text, **names):
	return (text.encode() if isinstance(text, str) else text, { int(k[1:]) : v for k, v in names.items() })

ASES = [
	A('"O1","One","5","5","Full Registry Services","x"', a5="One"), A('"O1","Two, Inc.","5","7","Full Registry Services","x"', a5="Two, Inc.", a6="Two, Inc.", a7="Two, Inc."),
	A('"O1","Say ""Hi""","100000","100000","Full Registry Services","x"'), A('"O1","Say ""Hi""","131072","131072","Full Registry Services","x"', a131072='Say "Hi"'),
	A('"O1","Line\nbreak","8","8","Full Registry Services","x"', a8="Line\nbreak"), A('"O1","Ünï","9","9","Full Registry Services","x"', a9="Ünï"),
	A('"O1","Edge","23455","23457","Full Registry Services","x"', a23455="Edge", a23457="Edge"), A('"O1","Edge","64494","64497","Full Registry Services","x"', a64494="Edge", a64495="Edge"),
	A('"O1","Edge","131070","131073","Full Registry Services","x"', a131072="Edge", a131073="Edge"), A('"O1","Last","4199999998","4200000001","Full Registry Services","x"', a4199999998="Last", a4199999999="Last"),
	A('"O1","Big","2147483647","2147483648","Full Registry Services","x"', a2147483647="Big", a2147483648="Big"),
	A('"O1","Other","50","50","Other RIR Services","x"'), A('"O1","Other","50","50","","x"'), A('"O1","Reversed","60","59","Full Registry Services","x"'), A('"O1","Bad","x","61","Full Registry Services","x"'),
	A('"O1","Bad","61","x","Full Registry Services","x"'), A('"O1","Bad","","","Full Registry Services","x"'), A('"O1","Bad","0","0","Full Registry Services","x"'), A('"O1","Bad","-5","-4","Full Registry Services","x"'),
	A('"O1","Short","70"'), A('"O1"'), A(''), A('"O1","Private","64512","64513","Full Registry Services","x"'), A('"O1","Bad","1.5","2","Full Registry Services","x"'),
]

def case_arin(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(ASES)), repeat=depth - 1):
		lines = [ASES[i] for i in (first,) + rest]
		text = CSV + b"\n".join(t for t, _ in lines) + b"\n"
		db, r = start(mc, "update-whois", "ARIN", pages={ ARIN[0] : b"", ARIN[1] : text })
		want = {}
		for _, names in lines:
			for n, name in names.items():
				want.setdefault(n, set()).add(name)
		got = { x["number"] : x["name"] for x in db.rows("autnums") }
		mc.equal(sorted(got), sorted(want), "ASes of %r" % text)
		for n in got:
			mc.check(got[n] in want[n], lambda : "%r: name of AS%d: %r" % (text, n, got[n]))
		mc.state(sorted(got.items()))
	mc.note("AS names, %r, %d lines" % (ASES[first][0], depth))

# ---- geofeeds ----

def G(text, *rows):
	return (text.encode() if isinstance(text, str) else text, rows)

GEOFEED = [
	G("41.0.0.0/24,DE,DE-BY,Munich,80331", ("41.0.0.0/24", "DE", "DE-BY", "Munich")), G("41.0.0.0/24,fr,,,", ("41.0.0.0/24", "FR", "", "")), G("41.0.0.5/24, Gb ,a,b", ("41.0.0.0/24", "GB", "a", "b")),
	G("41.0.0.1,US,,,,,,,,", ("41.0.0.1/32", "US", "", "")), G("2c0f:1::/32,ZA,x,Kapstadt \u00fc,1,2,3", ("2c0f:1::/32", "ZA", "x", "Kapstadt ü")), G("2C0F::1,BR,,", ("2c0f::1/128", "BR", "", "")),
	G("41.0.0.0/23,DE,,\r", ("41.0.0.0/23", "DE", "", "")),
	G("# comment"), G("#41.99.0.0/24,DE,,,"), G(""), G("   "), G("41.99.0.0/24"), G("41.99.0.0/24,DE"), G("41.99.0.0/24,DE,x"), G("41.99.0.0/33,DE,,,"), G(",DE,,,"), G("x,DE,,,"), G("41.99.0.0/24,,,,"), G("41.99.0.0/24,  ,,,"),
	G("41.99.0.0/24,DEU,,,"), G("41.99.0.0/24,D,,,"), G("41.99.0.0/24,D1,,,"), G("41.99.0.0/24,\u00c4\u00d6,,,"), G(b"41.99.0.0/24,DE,\xff\xfe,,"), G("41.99.0.0 - 41.99.0.255,DE,,,"), G("ip_prefix,alpha2code,region,city,postal_code"), G(b"<html><body>,,,,"),
]
EITHER = [G(b"41.98.0.0/24,DE,\0,\0", ("41.98.0.0/24", "DE", None, None)), G(" 41.98.0.0/24 ,DE,,,", ("41.98.0.0/24", "DE", "", "")), G("\ufeff41.98.0.0/24,DE,,,", ("41.98.0.0/24", "DE", "", ""))]

FEEDURL = "https://feed.example/geo.csv"

def case_geofeed(mc, arg):
	first, depth = arg
	everything = GEOFEED + EITHER
	for rest in itertools.product(range(len(everything)), repeat=depth - 1):
		lines = [everything[i] for i in (first,) + rest]
		text = b"\n".join(t for t, _ in lines) + b"\n"
		db = EMPTY.clone()
		db.put("network_geofeeds", network="41.0.0.0/8", url=FEEDURL, source="X")
		db, r = start(mc, "update-geofeeds", pages={ FEEDURL : importer.Page(text, type="text/csv") }, db=db)
		rows = db.rows("geofeed_networks")
		got = sorted((repr(x["network"]), x["country"], x["region"], x["city"]) for x in rows if repr(x["network"]) != "41.98.0.0/24")
		want = sorted((norm(n), c, reg, city) for _, e in lines for n, c, reg, city in e if n != "41.98.0.0/24")
		mc.equal(got, want, "networks of the geofeed %r" % text)
		feeds = db.rows("geofeeds")
		mc.equal([(f["url"], f["status"], f["error"], f["updated_at"] is not None) for f in feeds], [(FEEDURL, None, None, True)], "geofeeds after %r" % text)
		mc.check(all(x["geofeed_id"] == feeds[0]["id"] for x in rows), "geofeed of %r" % rows)
		mc.state(got)
	mc.note("geofeed, %r, %d lines" % (everything[first][0], depth))

# ---- feeds ----

def case_aws(mc, arg):
	regions = { "af-south-1" : "ZA", "ap-northeast-1" : "JP", "ca-central-1" : "CA", "eu-central-1" : "DE", "eu-west-2" : "GB", "sa-east-1" : "BR", "us-east-1" : "US", "us-gov-west-1" : "US", "cn-north-1" : "CN", "GLOBAL" : None,
		"me-south-1" : "BH", "mx-central-1" : "MX", "il-central-1" : "IL", "eusc-de-east-1" : "DE" }
	items = []
	for i, (region, cc) in enumerate(sorted(regions.items())):
		items.append(({ "ip_prefix" : "41.%d.0.0/16" % i, "region" : region, "service" : "X" }, ("41.%d.0.0/16" % i, cc, cc is None)))
		items.append(({ "ipv6_prefix" : "2c0f:%x::/32" % i, "region" : region }, ("2c0f:%x::/32" % i, cc, cc is None)))
	items += [({ k : p, "region" : "eu-west-3" }, None) for k in ("ip_prefix", "ipv6_prefix") for p in ("x", "", "41.99.0.0/33", "41.99.0.1/24", "10.0.0.0/8", "2c0f:99::/129", "fc00::/7")]
	items += [({ "ip_prefix" : "41.99.0.0/16", "region" : "xx-unknown-1" }, None), ({ "ip_prefix" : "41.99.0.0/16", "region" : "" }, None), ({ "ip_prefix" : "41.99.0.0/16" }, None), ({ "region" : "eu-west-3" }, None), ({}, None)]
	first = items[arg]
	for second in items:
		four = [x for x, _ in (first, second) if "ipv6_prefix" not in x]
		six = [x for x, _ in (first, second) if "ipv6_prefix" in x]
		feed = { "syncToken" : "1" }
		if four:
			feed["prefixes"] = four
		if six:
			feed["ipv6_prefixes"] = six
		db, r = start(mc, "update-feeds", "AWS-IP-RANGES", pages={ AWS : json.dumps(feed).encode() })
		got = sorted((repr(x["network"]), x["country"], x["is_anycast"] or False, x["source"], x["is_drop"], x["is_anonymous_proxy"], x["is_satellite_provider"]) for x in db.rows("network_feeds"))
		mc.equal(got, sorted({ (norm(e[0]), e[1], e[2], "AWS-IP-RANGES", None, None, None) for _, e in (first, second) if e }), "networks of %s" % json.dumps(feed))
		mc.state(got)
	mc.note("AWS %s" % (first,))

AWS_ITEMS = 28 + 14 + 5

DROPS = [
	G("41.0.0.0/16 ; SBL1", "41.0.0.0/16"), G("41.1.0.0/16", "41.1.0.0/16"), G("41.2.0.0/24;", "41.2.0.0/24"), G("  41.3.0.0/24  ; x ; y", "41.3.0.0/24"), G("41.4.0.1 ; host", "41.4.0.1/32"), G("2c0f:1::/32 ; SBL", "2c0f:1::/32"), G("41.5.0.0/24\r", "41.5.0.0/24"),
	G("; comment"), G(";"), G(""), G("  "), G("x ; SBL"), G("41.99.0.1/24 ; host bits"), G("41.99.0.0/33"), G("10.0.0.0/8 ; private"), G("<html>"), G("0.0.0.0/0"),
]

def case_drop(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(DROPS)), repeat=depth - 1):
		for name, url in (("SPAMHAUS-DROP", DROP), ("SPAMHAUS-DROPV6", DROPV6)):
			lines = [DROPS[i] for i in (first,) + rest]
			text = b"\n".join(t for t, _ in lines) + b"\n"
			db = EMPTY.clone()
			db.put("network_feeds", network="41.200.0.0/16", source=name, is_drop=True)
			want = sorted({ norm(n) for _, e in lines for n in e })
			# A feed which does not list anything is not believed
			db, r = start(mc, "update-feeds", name, pages={ url : text }, db=db, fails=not want)
			rows = db.rows("network_feeds")
			got = sorted(repr(x["network"]) for x in rows)
			if not want:
				mc.check(r.code != 0 and got == ["41.200.0.0/16"], lambda : "the feed %r, which has no networks, leaves %s and exit code %s" % (text, got, r.code))
			else:
				mc.equal(got, want, "networks of %r" % text)
			mc.check(all(x["is_drop"] is True and x["source"] == name and x["country"] is None and not x["is_anycast"] for x in rows), lambda : "%r: %s" % (text, rows))
			mc.state(got)
	mc.note("DROP, %r, %d lines" % (DROPS[first][0], depth))

ASNDROPS = [G('{"asn":5,"rir":"arin","domain":"x","cc":"US","asname":"X"}', 5), G('{"asn":2147483648,"asname":"X"}', 2147483648), G('{"asn":4199999999}', 4199999999), G('{"asn":131072}', 131072),
	G('{"type":"metadata","timestamp":1,"size":2}'), G(''), G('nonsense'), G('{"asn":'), G('{}'), G('{"asn":null}'), G('{"asn":64512}'), G('{"asn":0}'), G('{"asn":4294967296}'), G('{"asn":-5}'), G('[]'), G('5'), G('null'), G('"x"'), G('{"asn":"x"}'), G('{"asn":[]}')]

def case_asndrop(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(ASNDROPS)), repeat=depth - 1):
		lines = [ASNDROPS[i] for i in (first,) + rest]
		text = b"\n".join(t for t, _ in lines) + b"\n"
		db, r = start(mc, "update-feeds", "SPAMHAUS-ASNDROP", pages={ ASNDROP : text }, fails=True)
		want = sorted({ n for _, e in lines for n in e })
		rows = db.rows("autnum_feeds")
		# It is up to the importer if it believes an empty feed
		mc.check(r.code == 0 or not want, lambda : "%r: exit code %s: %s" % (text, r.code, LOG[-1:]))
		mc.equal(sorted(x["number"] for x in rows), want, "ASes of %r" % text)
		mc.check(all(x["is_drop"] is True and x["source"] == "SPAMHAUS-ASNDROP" for x in rows), lambda : "%r: %s" % (text, rows))
		mc.state(want)
	mc.note("ASNDROP, %r, %d lines" % (ASNDROPS[first][0], depth))

# ---- overrides ----

def O(text, nets=(), ases=(), feeds=()):
	return (text.encode(), nets, ases, feeds)

OVERRIDES = [
	O("net: 41.0.0.0/16\ncountry: DE\n", [("41.0.0.0/16", "DE", None, None, None, None)]),
	O("net:\t41.1.0.9/16\nis-anonymous-proxy: yes\nis-anycast: No\ndrop: 1\ndescr: x: y\nremarks: z\n", [("41.1.0.0/16", None, True, None, False, True)]),
	O("net: 2c0f:1::/32 # comment\ncountry: FR # c\nis-satellite-provider: YES\nis-anycast: 0\nis-anonymous-proxy: maybe\n", [("2c0f:1::/32", "FR", None, True, False, None)]),
	O("net: 41.2.0.1\ndrop: yes\n", [("41.2.0.1/32", None, None, None, None, True)]),
	O("aut-num: AS5\nname: Five: 5\ncountry: DE\n", [], [(5, "Five: 5", "DE", None, None, None, None)]),
	O("aut-num: AS4199999999\nis-anonymous-proxy: yes\nis-satellite-provider: no\nis-anycast: yes\ndrop: no\n", [], [(4199999999, None, None, True, False, True, False)]),
	O("# comment only\n"), O("\n\n"),
	O("geofeed: https://a.example/x\nnetwork: 41.0.0.0/16\nnetwork: 2c0f:1::/32\n", feeds=[("https://a.example/x", ("41.0.0.0/16", "2c0f:1::/32"))]),
	O("geofeed: https://b.example/x\n", feeds=[("https://b.example/x", ("::/0", "0.0.0.0/0"))]),
	O("geofeed: https://c.example/x\nnetwork: nonsense\nnetwork: 41.3.0.0/16\n", feeds=[("https://c.example/x", ("41.3.0.0/16",))]),
	O("geofeed: https://d.example/x\nnetwork: nonsense\n", feeds=[("https://d.example/x", ())]),
	O("net: 41.99.0.0/16\ncountry: DEU\n"), O("aut-num: AS99\ncountry: D1\n"), O("nocolon: 1\n"), O("net: 41.6.0.0/16\nnocolon\ncountry: DE\n", [("41.6.0.0/16", "DE", None, None, None, None)]),
	O("geofeed: http://e.example/x\nnetwork: 41.0.0.0/16\n"), O("geofeed: nonsense\n"), O("geofeed: https://[broken\n"),
	O("net: nonsense\ncountry: DE\n"), O("net:\ncountry: DE\n"), O("net: 0.0.0.0/0\ncountry: DE\n"), O("net: ::/0\ndrop: yes\n"), O("net: 41.99.0.0/33\n"),
	O("aut-num: 5000\nname: x\n"), O("aut-num: ASx\nname: x\n"), O("aut-num: AS\nname: x\n"), O("aut-num:\n"), O("unknown: x\ncountry: DE\n"), O("nonsense\n"), O("nonsense\nnet: 41.99.0.0/16\n"), O("aut-num: AS99999999999999999999\nname: x\n"),
]

def case_overrides(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(OVERRIDES)), repeat=depth - 1):
		blocks = [OVERRIDES[i] for i in (first,) + rest]
		for split in (False, True) if depth > 1 else (False,):
			files = []
			parts = [b"\n".join(b[0] for b in blocks)] if not split else [b[0] for b in blocks]
			for k, t in enumerate(parts):
				files.append(os.path.join(scratch, "o%d" % k))
				with open(files[-1], "wb") as f:
					f.write(t)
			db = EMPTY.clone()
			db.put("network_overrides", network="41.200.0.0/16", country="DE")
			db.put("autnum_overrides", number=200, country="DE")
			db.put("network_geofeeds", network="41.200.0.0/16", url="https://old.example/", source="overrides")
			db.put("network_geofeeds", network="41.201.0.0/16", url="https://whois.example/", source="AFRINIC")
			db, r = start(mc, "update-overrides", *files, db=db)
			what = "overrides %r" % parts
			got = sorted((repr(x["network"]), x["country"] or "", x["is_anonymous_proxy"], x["is_satellite_provider"], x["is_anycast"], x["is_drop"]) for x in db.rows("network_overrides"))
			mc.equal(got, sorted({ (norm(n[0]), n[1] or "") + n[2:] for b in blocks for n in b[1] }), what)
			ases = sorted((x["number"], x["name"], x["country"], x["is_anonymous_proxy"], x["is_satellite_provider"], x["is_anycast"], x["is_drop"]) for x in db.rows("autnum_overrides"))
			mc.equal(ases, sorted({ a for b in blocks for a in b[2] }), what)
			feeds = sorted((x["url"], repr(x["network"]), x["source"]) for x in db.rows("network_geofeeds"))
			mc.equal(feeds, sorted({ (u, norm(n), "overrides") for b in blocks for u, ns in b[3] for n in ns } | { ("https://whois.example/", "41.201.0.0/16", "AFRINIC") }), what)
			mc.state(got, ases, feeds)
	mc.note("overrides, %r, %d blocks" % (OVERRIDES[first][0], depth))

# ---- countries ----

CC = [("DE EU Germany", ("DE", "EU", "Germany")), ("FR\tEU\tFrance", ("FR", "EU", "France")), ("US NA United States of America", ("US", "NA", "United States of America")), ("AX   EU   \u00c5land Islands  ", ("AX", "EU", "Åland Islands")),
	("# comment", None), ("#DE EU x", None), ("", None), ("  ", None), ("DE", None), ("DE EU", None), ("XA AS A # b", ("XA", "AS", "A # b")), ("CI AF C\u00f4te d'Ivoire", ("CI", "AF", "Côte d'Ivoire"))]

def case_countries(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(CC)), repeat=depth - 1):
		lines = [CC[i] for i in (first,) + rest]
		p = os.path.join(scratch, "countries")
		with open(p, "w", encoding="utf-8") as f:
			f.write("\n".join(t for t, _ in lines))
		db, r = start(mc, "import-countries", p)
		got = sorted((x["country_code"], x["continent_code"], x["name"]) for x in db.rows("countries"))
		mc.equal(got, sorted({ c for _, c in lines if c }), "countries %r" % [t for t, _ in lines])
		mc.state(got)
	mc.note("countries, %r, %d lines" % (CC[first][0], depth))

def cases(thorough):
	out = []
	for kind, vocabulary, deep in (("rpsl", RPSL, 3), ("extended", EXTENDED, 3), ("arin", ASES, 3), ("geofeed", GEOFEED + EITHER, 3), ("drop", DROPS, 4), ("asndrop", ASNDROPS, 4), ("overrides", OVERRIDES, 3), ("countries", CC, 5)):
		for i in range(len(vocabulary)):
			for depth in range(1, (deep if thorough else 2) + 1):
				out.append((kind, (i, depth)))
	for n, ok in [(n, False) for n in BOGUS] + [(n, True) for n in GOOD] + list(boundary()):
		for how in ("cidr", "range", "extended", "aws", "drop"):
			if not (":" in n and how == "range"):
				out.append(("plausible", (n, ok, how)))
	out += [("nested", arg) for arg in itertools.product((4, 6), (False, None, "DE", "FR"), (False, True))]
	for i in range(AWS_ITEMS):
		out.append(("aws", i))
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	pymc.main("C25", cases, run, init)
