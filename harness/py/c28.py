"""C28: the written database states exactly what has been imported"""
import ipaddress, itertools, os, subprocess
import pymc, cli, importer, fakepg
from minipg import Inet

FLAGS = ("is_anonymous_proxy", "is_satellite_provider", "is_anycast", "is_drop")
F1, F2 = "https://one.example/", "https://two.example/"
COUNTRIES = [("DE", "EU", "Germany"), ("FR", "EU", "France"), ("US", "NA", "United States"), ("GB", "EU", "Great Britain"), ("BR", "SA", "Brazil")]

# All networks: nested ones, neighbours, and another family
A, A0, A1, A00, B, X, X0, X00 = "41.0.0.0/16", "41.0.0.0/17", "41.0.128.0/17", "41.0.0.0/24", "41.1.0.0/16", "2c0f:1::/32", "2c0f:1::/48", "2c0f:1:0:1::/64"

def T(table, **values):
	return (table, tuple(sorted(values.items())))

def fact(f):
	return f[0], dict(f[1])

def init(mc):
	global EMPTY, scratch, location
	import location
	importer.setup(mc)
	EMPTY = importer.database()
	scratch = pymc.scratch()
	for kind, name in (("key", "k1"), ("key", "k2")):
		subprocess.run(["openssl", "ecparam", "-genkey", "-name", "secp384r1", "-noout", "-out", os.path.join(scratch, name)], check=True, stderr=subprocess.DEVNULL)
		subprocess.run(["openssl", "ec", "-in", os.path.join(scratch, name), "-pubout", "-out", os.path.join(scratch, name + ".pub")], check=True, stderr=subprocess.DEVNULL)

# ---- what is expected ----

class Model(object):
	def __init__(self, facts):
		self.tables = {}
		for f in facts:
			table, v = fact(f)
			if "network" in v:
				v["network"] = Inet.parse(v["network"])
			self.tables.setdefault(table, []).append(v)

	def rows(self, table):
		return self.tables.get(table, [])

	def best(self, rows, host):
		"""The most specific rows"""
		rows = [r for r in rows if r["network"].contains(host, False)]
		longest = max([r["network"].plen for r in rows], default=None)
		return [r for r in rows if r["network"].plen == longest]

	def geofeeds(self):
		for r in self.rows("geofeed_networks"):
			for p in self.rows("network_geofeeds"):
				if p["url"] == r["url"] and p["network"].contains(r["network"], False):
					yield r
					break

	def known(self):
		for t in ("announcements", "networks", "network_feeds", "network_overrides", "geofeed_networks"):
			for r in self.rows(t):
				yield r["network"]

	def lookup(self, host):
		"""All answers that would be right: (country, AS, flags)"""
		asn = { r["autnum"] for r in self.best(self.rows("announcements"), host) } or { 0 }
		out = set()
		for a in asn:
			# Country and flags, by increasing precedence
			states = { (None, (None,) * 4) }
			w = { r["country"] for r in self.best(self.rows("networks"), host) }
			if w == { None }:
				# A network whose country is unknown may be in the country of the network around it
				w |= { r["country"] for r in self.rows("networks") if r["network"].contains(host, False) }
			if w:
				states = { (c, f) for c in w for _, f in states }
			g = { r["country"] for r in self.best(list(self.geofeeds()), host) }
			if g:
				states = { (c, f) for c in g for _, f in states }
			for rows in (self.best(self.rows("network_feeds"), host), [r for r in self.rows("autnum_feeds") if r["number"] == a],
					self.best(self.rows("network_overrides"), host), [r for r in self.rows("autnum_overrides") if r["number"] == a]):
				if rows:
					states = { (r.get("country") or c, tuple(new if new is not None else old for new, old in zip((r.get(x) for x in FLAGS), f))) for c, f in states for r in rows }
			out |= { (c, a, tuple(bool(x) for x in f)) for c, f in states }
		return out

	def addresses(self):
		out = set()
		for n in self.known():
			last = n.address | ((1 << (n.bits - n.plen)) - 1)
			for a in (n.address - 1, n.address, last, last + 1):
				if 0 <= a < 1 << n.bits:
					out.add((n.version, a))
		return sorted(out)

def fill(facts):
	db = EMPTY.clone()
	ids = {}
	for f in facts:
		table, v = fact(f)
		if table == "geofeed_networks":
			url = v.pop("url")
			if url not in ids:
				ids[url] = len(ids) + 1
				db.put("geofeeds", id=ids[url], url=url)
			v["geofeed_id"] = ids[url]
		db.put(table, **v)
	return db

NFLAGS = None

def answer(db, version, a):
	n = db.lookup(str(ipaddress.ip_address(a) if version == 4 else ipaddress.IPv6Address(a)))
	if n is None:
		return (None, 0, (False,) * 4)
	L = location
	return (n.country_code or None, n.asn or 0, tuple(n.has_flag(f) for f in (L.NETWORK_FLAG_ANONYMOUS_PROXY, L.NETWORK_FLAG_SATELLITE_PROVIDER, L.NETWORK_FLAG_ANYCAST, L.NETWORK_FLAG_DROP)))

def check(mc, facts, argv=()):
	mc.ops()
	path = os.path.join(scratch, "db")
	if os.path.exists(path):
		os.unlink(path)
	facts = list(facts)
	server = fakepg.start(fill(facts))
	before = { t : server.db.rows(t) for t in ("announcements", "autnums", "countries", "networks", "geofeeds", "geofeed_networks", "network_geofeeds", "autnum_feeds", "network_feeds", "autnum_overrides", "network_overrides") }
	r = importer.run(server, ["write", path] + list(argv))
	what = "the database of %s" % "; ".join("%s(%s)" % (t, ", ".join("%s=%s" % x for x in v)) for t, v in facts)
	mc.check(r.exception is None and r.code == 0, lambda : "%s cannot be written: %s %s" % (what, r.code, cli.traceback_of(r.exception) if r.exception else r.err))
	for t, rows in before.items():
		mc.equal(server.db.rows(t), rows, "%s after %s has been written" % (t, what))
	m = Model(facts)
	db = location.Database(path)
	for version, a in m.addresses():
		want = m.lookup(Inet(version, a, 32 if version == 4 else 128))
		got = answer(db, version, a)
		mc.check(got in want, lambda : "%s: %s is %s instead of %s" % (what, ipaddress.ip_address(a) if version == 4 else ipaddress.IPv6Address(a), got, " or ".join(map(str, want))))
	names = { r["number"] : { r["name"] } for r in m.rows("autnums") if r["name"] }
	optional = set()
	for r in m.rows("autnum_overrides"):
		if r.get("name"):
			if r["number"] not in names:
				optional.add(r["number"])
			names[r["number"]] = { r["name"] }
	got = { x.number : x.name for x in db.ases }
	for n in set(got) | set(names) - optional:
		mc.check(n in got and n in names and got[n] in names[n], lambda : "%s: AS%s is %r instead of %s" % (what, n, got.get(n), names.get(n)))
	mc.equal(sorted((c.code, c.continent_code, c.name) for c in db.countries), sorted((r["country_code"], r["continent_code"], r["name"]) for r in m.rows("countries")), "countries of %s" % what)
	mc.state([answer(db, v, a) for v, a in m.addresses()], sorted(got.items()))
	return db

# ---- bounded spaces ----

def VOCABULARY():
	out = []
	for n, asn in ((A, 5), (A0, 6), (A00, 7), (B, 5), (X, 5), (X0, 4199999999), (A1, 2147483648)):
		out.append(T("announcements", network=n, autnum=asn))
	for n, cc in ((A, "DE"), (A0, "FR"), (A00, "DE"), (A1, None), (B, "DE"), (X, "US"), (X00, "GB")):
		out.append(T("networks", network=n, country=cc, source="RIPE"))
	for n, url, cc in ((A, F1, "GB"), (A0, F1, "BR"), (A0, F2, "US"), (A00, F2, "FR"), (X0, F1, "BR")):
		out.append(T("geofeed_networks", network=n, url=url, country=cc, region="", city=""))
	for n, url in ((A, F1), (A0, F1), (A00, F2), ("0.0.0.0/0", F2), (X, F1)):
		out.append(T("network_geofeeds", network=n, url=url, source="RIPE"))
	# Geofeeds with networks that they are permitted for
	for n, permitted, url, cc in ((A, A, F1, "GB"), (A0, "0.0.0.0/0", F2, "FR"), (A00, A00, F2, "US"), (A, A0, F1, "FR"), (X0, "::/0", F2, "DE")):
		out.append((T("geofeed_networks", network=n, url=url, country=cc, region="x", city="y"), T("network_geofeeds", network=permitted, url=url, source="RIPE")))
	for n, source, cc, flag in ((A, "AWS-IP-RANGES", "US", None), (A0, "SPAMHAUS-DROP", None, "is_drop"), (A00, "AWS-IP-RANGES", None, "is_anycast"), (A0, "AWS-IP-RANGES", "DE", None), (X0, "SPAMHAUS-DROPV6", None, "is_drop")):
		v = dict(network=n, source=source, country=cc)
		if source.startswith("AWS"):
			v["is_anycast"] = False
		if flag:
			v[flag] = True
		out.append(T("network_feeds", **v))
	for asn, flags in ((5, dict(is_drop=True)), (6, dict(is_drop=True, country="BR", is_anonymous_proxy=True)), (4199999999, dict(is_drop=True))):
		out.append(T("autnum_feeds", number=asn, source="SPAMHAUS-ASNDROP", **flags))
	for n, v in ((A, dict(country="GB")), (A0, dict(is_drop=False)), (A00, dict(country="BR", is_anonymous_proxy=True, is_satellite_provider=True)), (X, dict(is_anycast=True, is_drop=True)), ("41.0.0.0/8", dict(country="FR"))):
		out.append(T("network_overrides", network=n, **v))
	for asn, v in ((5, dict(country="FR", name="Five!")), (6, dict(is_drop=False, is_satellite_provider=True)), (7, dict(name="Seven", is_anycast=True)), (2147483648, dict(country="US"))):
		out.append(T("autnum_overrides", number=asn, **v))
	for asn, name in ((5, "Five"), (6, ""), (4199999999, "Last")):
		out.append(T("autnums", number=asn, name=name, source="RIPE"))
	for cc, ct, name in COUNTRIES[:2]:
		out.append(T("countries", country_code=cc, continent_code=ct, name=name))
	return out

VOC = [x if isinstance(x[0], tuple) else (x,) for x in VOCABULARY()]

def combine(groups):
	out = []
	for g in groups:
		for f in g:
			if f not in out:
				out.append(f)
	return out

def case_facts(mc, arg):
	"""All sets of a few facts, the first of which is given"""
	first, depth = arg
	rest = VOC[first + 1:]
	n = 0
	for more in itertools.combinations(rest, depth - 1):
		check(mc, combine((VOC[first],) + more))
	mc.note("%d facts, the first is %s" % (depth, VOC[first]))

# Everything that can be said about one network
LEVELS = [
	[T("announcements", network=A, autnum=5)],
	[T("networks", network=A, country="DE", source="RIPE")],
	[T("geofeed_networks", network=A, url=F1, country="FR", region="", city=""), T("network_geofeeds", network=A, url=F1, source="x")],
	[T("network_feeds", network=A, source="AWS-IP-RANGES", country="US", is_anycast=True)],
	[T("autnum_feeds", number=5, source="SPAMHAUS-ASNDROP", country="GB", is_anycast=False, is_drop=True)],
	[T("network_overrides", network=A, country="BR", is_drop=False, is_anonymous_proxy=True)],
	[T("autnum_overrides", number=5, country="ZA", is_drop=True, is_satellite_provider=True)],
]

def case_levels(mc, arg):
	"""All subsets of the levels, with each of the networks"""
	which, name = arg
	for k in range(3 ** 4):
		nets = [(A, A0, A00)[k // 3 ** i % 3] for i in range(4)]
		facts = []
		it = iter(nets)
		for i, level in enumerate(LEVELS):
			if not which >> i & 1:
				continue
			net = next(it, A)
			for t, v in level:
				v = dict(v)
				if t != "network_geofeeds" and "network" in v:
					v["network"] = net
				facts.append(T(t, **v))
		check(mc, facts)
		if k >= 3 ** min(4, bin(which).count("1")):
			break
	mc.note("levels %s" % bin(which))

def flag_values(table, extra, flag):
	return [T(table, **dict(extra, **({ flag : v } if v is not None else {}))) for v in (None, False, True)]

def case_flags(mc, flag):
	"""All values of a flag at all levels"""
	for a, b, c, d in itertools.product(range(3), repeat=4):
		facts = [T("announcements", network=A, autnum=5), flag_values("network_feeds", dict(network=A, source="x"), flag)[a], flag_values("autnum_feeds", dict(number=5, source="x"), flag)[b],
			flag_values("network_overrides", dict(network=A), flag)[c], flag_values("autnum_overrides", dict(number=5), flag)[d]]
		check(mc, facts)
	mc.note("flag %s" % flag)

def case_meta(mc, arg):
	import pymc
	for vendor, description, license, key, backup in itertools.product((None, "V", "Vendor ä"), (None, "D\nE"), (None, "L"), (None, "k1"), (None, "k2")):
		argv = []
		for o, v in (("--vendor", vendor), ("--description", description), ("--license", license)):
			if v:
				argv += [o, v]
		for o, v in (("--signing-key", key), ("--backup-signing-key", backup)):
			if v:
				argv += [o, os.path.join(scratch, v)]
		# (The backup key is only used next to another key)
		if backup and not key:
			continue
		db = check(mc, [], argv)
		mc.equal((db.vendor or None, db.description or None, db.license or None), (vendor, description, license), "metadata for %s" % argv)
		for k, there in (("k1", key), ("k2", backup)):
			with open(os.path.join(scratch, k + ".pub")) as f:
				mc.equal(bool(db.verify(f)), bool(there), "verification with %s for %s" % (k, argv))
	mc.note("metadata")

def case_whole(mc, arg):
	"""Everything but one"""
	check(mc, combine(g for i, g in enumerate(VOC) if i != arg))
	mc.note("everything but %s" % (VOC[arg],))

def cases(thorough):
	out = []
	for depth in range(1, (4 if thorough else 3) + 1):
		for i in range(len(VOC)):
			out.append(("facts", (i, depth)))
	for which in range(1 << len(LEVELS)):
		out.append(("levels", (which, None)))
	for f in FLAGS:
		out.append(("flags", f))
	for i in range(len(VOC)):
		out.append(("whole", i))
	out.append(("meta", None))
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	pymc.main("C28", cases, run, init)
