"""C29: every source is imported as a whole or not at all, and does not affect the others"""
import datetime, gzip, http.client, io, itertools, json, os, socket, urllib.error
import pymc, cli, importer, fakepg, minipg
from importer import Page
from c25 import AFRINIC, LACNIC, ARIN, AWS, DROP, DROPV6, ASNDROP, CSV

APNIC = ["https://ftp.apnic.net/apnic/whois/apnic.db.%s.gz" % x for x in ("inet6num", "inetnum", "aut-num", "organisation")]
RIPE = ["https://ftp.ripe.net/ripe/dbase/split/ripe.db.%s.gz" % x for x in ("inet6num", "inetnum", "aut-num", "organisation")]
JPNIC = "https://ftp.nic.ad.jp/jpirr/jpirr.db.gz"

class Crash(BaseException):
	"""The process is killed"""

def init(mc):
	global EMPTY, scratch
	importer.setup(mc)
	EMPTY = importer.database()
	for c in ("DE", "FR", "GB", "US", "BR", "ZA", "JP"):
		EMPTY.put("countries", country_code=c, name=c + " name", continent_code="EU")
	scratch = pymc.scratch()

def rpsl(octet, asn, cc):
	return ("inetnum: %d.0.0.0 - %d.0.255.255\ncountry: %s\ngeofeed: https://%d.example/\n\ninet6num: 2c0f:%d::/32\ncountry: %s\n\naut-num: AS%d\norg: ORG-%d\n\norganisation: ORG-%d\norg-name: Org %d\n" % (octet, octet, cc, octet, octet, cc, asn, asn, asn, asn)).encode()

def split(text):
	"""One file for each type"""
	blocks = text.split(b"\n\n")
	return [b"\n".join(b for b in blocks if b.startswith(k)) + b"\n" for k in (b"inet6num", b"inetnum", b"aut-num", b"organisation")]

Z = lambda x : Page(gzip.compress(x, mtime=0), type="application/x-gzip")

def whois():
	pages = { AFRINIC : Z(rpsl(41, 41, "ZA")), JPNIC : Z(rpsl(43, 43, "JP")) }
	pages.update(zip(APNIC, map(Z, split(rpsl(44, 44, "JP")))))
	pages.update(zip(RIPE, map(Z, split(rpsl(45, 45, "DE")))))
	pages[ARIN[0]] = b"2|arin|x\narin|US|ipv4|46.0.0.0|65536|20200101|allocated|x\narin|US|ipv6|2c0f:46::|32|20200101|assigned|x\n"
	pages[ARIN[1]] = CSV + b'"X","Org 46","46","46","Full Registry Services","x"\n'
	pages[LACNIC[0]] = Z(rpsl(47, 47, "BR"))
	pages[LACNIC[1]] = b"lacnic|BR|ipv4|47.128.0.0|65536|20200101|allocated|x\n"
	db = EMPTY.clone()
	for i, s in enumerate(("AFRINIC", "APNIC", "ARIN", "JPNIC", "LACNIC", "RIPE")):
		db.put("networks", network="51.%d.0.0/16" % i, country="DE", original_countries=["DE"], source=s)
		db.put("networks", network="2c0f:51%02d::/32" % i, country="DE", original_countries=["DE"], source=s)
		db.put("autnums", number=5100 + i, name="Old %d" % i, source=s)
		db.put("network_geofeeds", network="51.%d.0.0/16" % i, url="https://old.example/%d" % i, source=s)
	return db, pages

WHOIS = { "AFRINIC" : [AFRINIC], "APNIC" : APNIC, "ARIN" : list(ARIN), "JPNIC" : [JPNIC], "LACNIC" : list(LACNIC), "RIPE" : RIPE }
SPARE = 4

def units_whois(db):
	out = {}
	for s in WHOIS:
		out[s] = [sorted(repr([(k, v) for k, v in sorted(r.items()) if k != "id"]) for r in db.rows(t) if r["source"] == s) for t in ("networks", "autnums", "network_geofeeds")]
	return out

def feeds():
	pages = {
		AWS : json.dumps({ "prefixes" : [{ "ip_prefix" : "41.0.0.0/16", "region" : "eu-central-1" }, { "ip_prefix" : "41.1.0.0/16", "region" : "GLOBAL" }], "ipv6_prefixes" : [{ "ipv6_prefix" : "2c0f:1::/32", "region" : "us-east-1" }] }).encode(),
		DROP : b"; x\n42.0.0.0/16 ; a\n42.1.0.0/16 ; b\n", DROPV6 : b"2c0f:2::/32 ; a\n2c0f:3::/32\n", ASNDROP : b'{"asn":5}\n{"asn":6}\n{"type":"metadata"}\n',
	}
	db = EMPTY.clone()
	for i, s in enumerate(FEEDS):
		db.put("network_feeds", network="51.%d.0.0/16" % i, source=s, is_drop=True)
		db.put("network_feeds", network="51.1%d.0.0/16" % i, source=s, is_drop=True)
		db.put("autnum_feeds", number=5100 + i, source=s, is_drop=True)
	db.put("network_feeds", network="51.99.0.0/16", source="GONE", is_drop=True)
	db.put("autnum_feeds", number=5199, source="GONE", is_drop=True)
	return db, pages

FEEDS = { "AWS-IP-RANGES" : [AWS], "SPAMHAUS-DROP" : [DROP], "SPAMHAUS-DROPV6" : [DROPV6], "SPAMHAUS-ASNDROP" : [ASNDROP] }

def units_feeds(db):
	return { s : [sorted(repr(sorted(r.items())) for r in db.rows(t) if r["source"] == s) for t in ("network_feeds", "autnum_feeds")] for s in FEEDS }

GEO = ["https://g%d.example/x" % i for i in range(3)]

def geofeeds(n=3):
	pages = { u : Page(b"41.%d.0.0/16,DE,,\n41.%d.128.0/17,FR,,\n2c0f:%d::/32,US,,\n" % (i, i, i), type="text/csv") for i, u in enumerate(GEO[:n]) }
	db = EMPTY.clone()
	for i, u in enumerate(GEO[:n]):
		db.put("network_geofeeds", network="41.0.0.0/8", url=u, source="AFRINIC")
		db.put("geofeeds", id=i + 1, url=u, updated_at=db.now - datetime.timedelta(days=8))
		for j in range(2):
			db.put("geofeed_networks", geofeed_id=i + 1, network="51.%d.%d.0/24" % (i, j), country="GB", region="", city="")
	return db, pages

def units_geofeeds(db):
	ids = { r["id"] : r["url"] for r in db.rows("geofeeds") }
	out = { u : [] for u in ids.values() }
	for r in db.rows("geofeed_networks"):
		out[ids[r["geofeed_id"]]].append((repr(r["network"]), r["country"]))
	return { u : sorted(v) for u, v in out.items() }

def overrides():
	db = EMPTY.clone()
	db.put("network_overrides", network="51.0.0.0/16", country="DE")
	db.put("network_overrides", network="51.1.0.0/16", is_drop=True)
	db.put("autnum_overrides", number=51, name="Old")
	db.put("network_geofeeds", network="51.0.0.0/16", url="https://old.example/", source="overrides")
	db.put("network_geofeeds", network="51.0.0.0/16", url="https://whois.example/", source="AFRINIC")
	for name, text in (("o1", "net: 41.0.0.0/16\ncountry: FR\n\naut-num: AS5\nname: Five\n"), ("o2", "geofeed: https://new.example/\nnetwork: 41.0.0.0/16\nnetwork: 41.1.0.0/16\n\nnet: 2c0f:1::/32\ndrop: yes\n")):
		with open(os.path.join(scratch, name), "w") as f:
			f.write(text)
	return db, {}

def units_overrides(db):
	return { "overrides" : [sorted(repr(sorted(r.items())) for r in db.rows(t) if t != "network_geofeeds" or r["source"] == "overrides") for t in ("network_overrides", "autnum_overrides", "network_geofeeds")],
		"geofeeds of others" : [repr(r) for r in db.rows("network_geofeeds") if r["source"] != "overrides"] }

def countries():
	db = EMPTY.clone()
	with open(os.path.join(scratch, "countries"), "w") as f:
		f.write("DE EU Germany\nFR EU France\nMX NA Mexico\n")
	return db, {}

def units_countries(db):
	return { "countries" : sorted(repr(sorted(r.items())) for r in db.rows("countries")) }

JOBS = {
	"whois" : (whois, units_whois, lambda : ["update-whois"]),
	"feeds" : (feeds, units_feeds, lambda : ["update-feeds"]),
	"geofeeds" : (geofeeds, units_geofeeds, lambda : ["update-geofeeds"]),
	"overrides" : (overrides, units_overrides, lambda : ["update-overrides", os.path.join(scratch, "o1"), os.path.join(scratch, "o2")]),
	"countries" : (countries, units_countries, lambda : ["import-countries", os.path.join(scratch, "countries")]),
}

def run_job(mc, job, pages=None, fault=None, argv=None, db=None, choose=None):
	make, units, args = JOBS[job]
	d, p = make()
	if db is not None:
		d = db
	p.update(pages or {})
	server = fakepg.start(d)
	old = units(d)
	count = [0]
	def f(conn, what, sql):
		if what not in ("EXECUTE", "BEGIN", "COMMIT", "SAVEPOINT", "RELEASE", "CONNECT"):
			return
		count[0] += 1
		if fault and count[0] == fault[1]:
			mc.ops()
			if fault[0] == "crash":
				for c in server.connections:
					c.drop()
				raise Crash()
			if fault[0] == "lost" and conn is not None:
				conn.drop()
			raise fakepg.OperationalError("broken by the test")
	server.fault = f
	mc.ops()
	r = importer.run(server, argv or args(), p, choose)
	server.fault = None
	r.count = count[0]
	r.old, r.units, r.db = old, units(server.db), server.db
	r.server = server
	return r

NEW = {}
def news(mc, job):
	"""What an undisturbed run leads to"""
	if job not in NEW:
		r = run_job(mc, job)
		mc.check(r.code == 0 and r.exception is None, lambda : "%s: %s %s" % (job, r.code, r.exception and cli.traceback_of(r.exception)))
		NEW[job] = r
	return NEW[job]

def show(u):
	return str(u)[:600]

def whole(mc, what, r, new, only=None):
	"""Every unit is the old or new one; returns those that are old"""
	out = []
	for s in set(r.units) | set(new.units) | set(r.old):
		mc.check(r.units.get(s) in (r.old.get(s), new.units.get(s)), lambda : "%s: %s is neither as before nor updated: %s" % (what, s, show(r.units.get(s))))
		if r.units.get(s) != new.units.get(s):
			out.append(s)
	return out

def case_fault(mc, arg):
	"""A statement fails, the connection is lost or the process dies at any point"""
	job, kind, at = arg
	new = news(mc, job)
	if at > new.count:
		raise pymc.Prune()
	r = run_job(mc, job, fault=(kind, at))
	what = "%s, %s at statement %d of %d" % (job, kind, at, new.count)
	left = whole(mc, what, r, new)
	if kind == "crash":
		mc.check(isinstance(r.exception, Crash) or in_group(r.exception, Crash), lambda : "%s: the process has survived: %s" % (what, r.exception))
	else:
		mc.check(not left or r.code != 0, lambda : "%s: success has been reported although %s are missing" % (what, left))
	if kind == "error" and job != "geofeeds":
		# Others must not be affected (unless nothing was started at all)
		mc.check(len(left) <= 1 or len(left) == len(new.units) - (job == "overrides"), lambda : "%s: %s have not been updated" % (what, left))
	mc.state(job, left)
	mc.note(what)

def in_group(e, type):
	return isinstance(e, BaseExceptionGroup) and any(isinstance(x, type) or in_group(x, type) for x in e.exceptions)

def broken(page, how, at):
	"""A download that goes wrong"""
	page = page if isinstance(page, Page) else Page(page)
	if how == "status":
		return Page(status=at)
	if how == "raise":
		return Page(error=ERRORS[at])
	if how == "breaks":
		return Page(page.body, type=page.type, breaks=(at, lambda : ConnectionResetError("reset")))
	if how == "timeout":
		return Page(page.body, type=page.type, breaks=(at, lambda : TimeoutError("timed out")))
	if how == "chunked":
		return Page(page.body, type=page.type, breaks=(at, lambda : http.client.IncompleteRead(b"")))
	if how == "short":
		return Page(page.body, type=page.type, breaks=(at, None))
	if how == "gzip":
		# The compressed file itself is broken
		return Page(gzip.compress(page.body if page.type != "application/x-gzip" else gzip.decompress(page.body), mtime=0)[:at], type="application/x-gzip")
	if how == "flip":
		z = bytearray(gzip.compress(page.body if page.type != "application/x-gzip" else gzip.decompress(page.body), mtime=0))
		z[at] ^= 0xff
		return Page(bytes(z), type="application/x-gzip")

ERRORS = [lambda : urllib.error.URLError("no route"), lambda : ConnectionRefusedError("refused"), lambda : ConnectionResetError("reset"), lambda : TimeoutError("timed out"), lambda : http.client.RemoteDisconnected("gone"),
	lambda : http.client.BadStatusLine("x"), lambda : http.client.InvalidURL("x"), lambda : UnicodeError("label empty or too long"), lambda : OSError("x"), lambda : socket.gaierror(-2, "Name or service not known"), lambda : ValueError("unknown url type")]
STATUS = [301, 400, 403, 404, 410, 429, 500, 503]

def length(page, how):
	if how == "gzip" or how == "flip":
		return len(gzip.compress(page.body if page.type != "application/x-gzip" else gzip.decompress(page.body), mtime=0))
	return len(page.body)

def case_download(mc, arg):
	"""A download fails in any way"""
	job, source, url, how = arg
	new = news(mc, job)
	page = JOBS[job][0]()[1][url]
	page = page if isinstance(page, Page) else Page(page)
	for at in STATUS if how == "status" else range(len(ERRORS)) if how == "raise" else range(0, length(page, how)):
		if how == "gzip" and at == 0:
			continue
		if how == "flip" and 3 < at < 10:
			# (the header: time, flags and system)
			continue
		r = run_job(mc, job, pages={ url : broken(page, how, at) })
		what = "%s, %s: %s %s" % (job, url, how, at)
		mc.check(r.exception is None, lambda : "%s: %s" % (what, cli.traceback_of(r.exception)))
		left = whole(mc, what, r, new) if job != "geofeeds" else geofeeds_left(mc, what, r, new, url, how, at)
		if how == "flip" and not left:
			continue
		mc.equal(left, [source], "%s: sources which have not been updated" % what)
		if job != "geofeeds":
			mc.check(r.code != 0, lambda : "%s: success has been reported" % what)
	mc.state(job, source, url, how)
	mc.note("%s: %s, %s" % (job, url, how))

def geofeeds_left(mc, what, r, new, url, how, at):
	gone = how == "status" and at == 404
	if gone:
		mc.equal(r.units[url], [], "%s: networks of the geofeed" % what)
	row = [x for x in r.db.rows("geofeeds") if x["url"] == url][0]
	if how == "flip" and r.units[url] == new.units[url]:
		return []
	mc.check(row["status"] == (at if how == "status" else 599) and row["error"], lambda : "%s: the status is %s (%s)" % (what, row["status"], row["error"]))
	for x in r.db.rows("geofeeds"):
		if x["url"] != url:
			mc.check(x["status"] is None and x["error"] is None and x["updated_at"] == r.db.now, lambda : "%s: status of %s: %s" % (what, x["url"], x))
		else:
			mc.check(x["updated_at"] != r.db.now, lambda : "%s: the geofeed has been marked as updated" % what)
	left = []
	for s in r.units:
		if s == url and gone:
			left.append(s)
			continue
		mc.check(r.units[s] in (r.old[s], new.units[s]), lambda : "%s: %s is neither as before nor updated: %s" % (what, s, show(r.units[s])))
		if r.units[s] != new.units[s]:
			left.append(s)
	return left

def case_orders(mc, arg):
	"""Geofeeds are downloaded concurrently: any of them may be finished first, and any may fail"""
	new = news(mc, "geofeeds")
	pages = {}
	want = []
	for u, how in zip(GEO, arg):
		if how:
			pages[u] = broken(JOBS["geofeeds"][0]()[1][u], *how)
			want.append(u)
	order = []
	def choose(n):
		c = mc.choose(n)
		order.append(c)
		return c
	r = run_job(mc, "geofeeds", pages=pages, choose=choose)
	what = "geofeeds %s, finished in the order %s" % (arg, order)
	mc.check(r.exception is None and r.code == 0, lambda : "%s: %s" % (what, r.exception and cli.traceback_of(r.exception)))
	for u, how in zip(GEO, arg):
		expect = new.units[u] if not how else [] if how == ("status", 404) else r.old[u]
		mc.equal(r.units[u], expect, "%s: networks of %s" % (what, u))
	for c in r.server.pools[0].used:
		mc.check(False, "%s: a connection has not been returned" % what)
	mc.state(arg, order)
	mc.note("geofeeds %s" % (arg,))

def case_age(mc, arg):
	"""When geofeeds are updated, and for how long their data is kept"""
	days, linked, how = arg
	db, pages = geofeeds(1)
	db = EMPTY.clone()
	updated = None if days is None else db.now - datetime.timedelta(days=days)
	db.put("geofeeds", id=1, url=GEO[0], updated_at=updated)
	db.put("geofeed_networks", geofeed_id=1, network="51.0.0.0/16", country="GB")
	if linked:
		db.put("network_geofeeds", network="41.0.0.0/8", url=GEO[0], source="AFRINIC")
	# Another one, that has never been fetched
	db.put("network_geofeeds", network="42.0.0.0/8", url=GEO[1], source="overrides")
	if how:
		pages[GEO[0]] = broken(pages[GEO[0]], *how)
	pages[GEO[1]] = b"42.0.0.0/16,US,,\n"
	server = fakepg.start(db)
	mc.ops()
	r = importer.run(server, ["update-geofeeds"], pages)
	what = "a geofeed, %s, updated %s days ago, %s" % ("linked" if linked else "not linked", days, how)
	mc.check(r.code == 0 and r.exception is None, lambda : "%s: %s" % (what, r.exception and cli.traceback_of(r.exception)))
	got = units_geofeeds(server.db)
	mc.equal(got.pop(GEO[1]), [("42.0.0.0/16", "US")], "%s: the other geofeed" % what)
	if not linked:
		mc.equal(got, {}, what)
		mc.check(GEO[0] not in r.net.requests, "%s: has been downloaded" % what)
	else:
		due = days is None or days >= 7
		new = [("2c0f:0::/32", "US"), ("41.0.0.0/16", "DE"), ("41.0.128.0/17", "FR")]
		mc.equal(GEO[0] in r.net.requests, due, "%s: downloaded" % what)
		if due and not how:
			mc.check(len(got[GEO[0]]) == 3, lambda : "%s: %s" % (what, got))
		elif due and (how == ("status", 404) or days is None or days >= 14):
			mc.equal(got[GEO[0]], [], what)
		else:
			mc.equal(got[GEO[0]], [("51.0.0.0/16", "GB")], what)
	mc.state(arg)
	mc.note(what)

def case_select(mc, arg):
	"""Only those which were asked for are updated"""
	job, names = arg
	new = news(mc, job)
	r = run_job(mc, job, argv=JOBS[job][2]() + list(names))
	mc.check(r.code == 0 and r.exception is None, lambda : "%s %s: %s" % (job, names, r.exception))
	for s in r.units:
		mc.equal(r.units[s], new.units[s] if s in names or not names else r.old[s], "%s after update of %s" % (s, names))
	if job == "feeds":
		mc.check(not [x for t in ("network_feeds", "autnum_feeds") for x in r.db.rows(t) if x["source"] == "GONE"], "a feed that no longer exists")
	mc.state(arg)
	mc.note("%s: %s" % arg)

def case_missing(mc, arg):
	"""Files that cannot be read"""
	for files in (["o1", "nothing"], ["nothing", "o1"], ["nothing"]):
		r = run_job(mc, "overrides", argv=["update-overrides"] + [os.path.join(scratch, f) for f in files])
		mc.check(r.code != 0, "overrides %s: success has been reported" % files)
		mc.equal(r.units, r.old, "overrides after %s" % files)
	# WHOIS data is of no use without countries
	db, pages = whois()
	s = minipg.Session(db)
	s.execute("DELETE FROM countries")
	r = run_job(mc, "whois", db=db)
	mc.check(r.code != 0, "success has been reported without any countries")
	mc.equal(r.units, r.old, "WHOIS data without countries")
	mc.state(arg)
	mc.note("missing files")

def case_history(mc, arg):
	"""What has been imported before has no influence on what is there after an update"""
	job, kind = arg
	new = news(mc, job)
	if kind == "again":
		# For the second time
		r = run_job(mc, job, db=new.db)
	else:
		db, _ = JOBS[job][0]()
		s = minipg.Session(db)
		if job == "countries":
			s.execute("DELETE FROM countries")
			if kind == "same":
				db.put("countries", country_code="DE", name="Old", continent_code="AF")
		elif job == "geofeeds":
			s.execute("DELETE FROM geofeed_networks")
			if kind == "same":
				for i in range(3):
					db.put("geofeed_networks", geofeed_id=i + 1, network="41.%d.0.0/16" % i, country="GB", region="", city="")
		else:
			for t in { "whois" : ("networks", "autnums", "network_geofeeds"), "feeds" : ("network_feeds", "autnum_feeds"), "overrides" : ("network_overrides", "autnum_overrides") }[job]:
				s.execute("DELETE FROM " + t)
			if job == "overrides":
				s.execute("DELETE FROM network_geofeeds WHERE source = 'overrides'")
			if kind == "same":
				# Something else about the same networks and ASes
				if job == "whois":
					for octet, source in ((41, "AFRINIC"), (43, "JPNIC"), (44, "APNIC"), (45, "RIPE"), (46, "ARIN"), (47, "LACNIC")):
						db.put("networks", network="%d.0.0.0/16" % octet, country="GB", original_countries=["GB"], source=source)
						db.put("networks", network="%d.0.0.0/24" % octet, country="GB", original_countries=["GB"], source=source)
						db.put("networks", network="2c0f:%d::/32" % octet, country="GB", original_countries=["GB"], source=source)
						db.put("autnums", number=octet, name="Old", source=source)
						db.put("network_geofeeds", network="%d.0.0.0/16" % octet, url="https://old.example/", source=source)
				elif job == "feeds":
					for n, source in (("41.0.0.0/16", "AWS-IP-RANGES"), ("42.0.0.0/16", "SPAMHAUS-DROP"), ("2c0f:2::/32", "SPAMHAUS-DROPV6")):
						db.put("network_feeds", network=n, source=source, is_anycast=True, country="GB")
					db.put("autnum_feeds", number=5, source="SPAMHAUS-ASNDROP", is_anycast=True)
				else:
					db.put("network_overrides", network="41.0.0.0/16", country="GB", is_drop=True)
					db.put("autnum_overrides", number=5, name="Old")
		r = run_job(mc, job, db=db)
	what = "%s, before: %s" % (job, kind)
	mc.check(r.code == 0 and r.exception is None, lambda : "%s: %s %s" % (what, r.code, r.exception and cli.traceback_of(r.exception)))
	for s in new.units:
		mc.equal(r.units.get(s), new.units[s], "%s: %s" % (what, s))
	mc.state(arg)
	mc.note(what)

def case_useless(mc, arg):
	"""Lists without a single network are not lists"""
	url, source = arg
	new = news(mc, "feeds")
	for body in (b"", b"; nothing\n", b"\n\n", b"<html>\n<body>Too many requests</body>\n", b"10.0.0.0/8 ; not plausible\n", b"x\n; y\n"):
		r = run_job(mc, "feeds", pages={ url : Page(body) })
		what = "%s: %r" % (source, body)
		mc.check(r.exception is None, lambda : "%s: %s" % (what, cli.traceback_of(r.exception)))
		mc.equal(whole(mc, what, r, new), [source], "%s: sources which have not been updated" % what)
		mc.check(r.code != 0, "%s: success has been reported" % what)
	mc.state(arg)
	mc.note("useless lists: %s" % source)

HOW = [("status", 404), ("status", 500), ("raise", 3), ("breaks", 20), ("gzip", 40)]

def cases(thorough):
	out = []
	for job, n in (("whois", 190), ("feeds", 60), ("geofeeds", 60), ("overrides", 24), ("countries", 14)):
		for kind in ("error", "lost", "crash"):
			for at in range(1, n):
				out.append(("fault", (job, kind, at)))
	hows = ["status", "raise", "breaks", "timeout", "chunked", "short", "gzip", "flip"]
	for job, groups in (("whois", WHOIS), ("feeds", FEEDS), ("geofeeds", { u : [u] for u in GEO })):
		for i, (s, urls) in enumerate(groups.items()):
			for url in urls:
				for how in hows:
					if thorough or how in ("status", "raise") or url in (AFRINIC, ARIN[0], ARIN[1], APNIC[3], DROP, ASNDROP, AWS, GEO[1]) and how in ("breaks", "short", "gzip"):
						if how == "short" and job == "whois" and url in (AFRINIC,) and not thorough:
							continue
						out.append(("download", (job, s, url, how)))
	for arg in itertools.product([None] + HOW, repeat=3):
		if thorough or arg.count(None) >= 1:
			out.append(("orders", arg))
	for arg in itertools.product((None, 0, 6, 8, 13, 15, 100), (True, False), [None] + HOW):
		out.append(("age", arg))
	for names in [x for k in range(7) for x in itertools.combinations(WHOIS, k)]:
		out.append(("select", ("whois", names)))
	for names in [x for k in range(5) for x in itertools.combinations(FEEDS, k)]:
		out.append(("select", ("feeds", names)))
	out.append(("missing", None))
	out += [("history", (job, kind)) for job in JOBS for kind in ("again", "nothing", "same")]
	out += [("useless", (DROP, "SPAMHAUS-DROP")), ("useless", (DROPV6, "SPAMHAUS-DROPV6"))]
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	pymc.main("C29", cases, run, init)
