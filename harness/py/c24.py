"""C24: command-line answers and exit codes tell the truth"""
import io, itertools, os, re, socket, sys, tempfile, time
import pymc, locfile, cli, c21
from locfile import Net, Content, V4, ALL

BUILD = os.environ["VERIF_BUILD"]
V4F, V6F = socket.AF_INET, socket.AF_INET6

DBS = [
	Content(vendor="", description="", license="", created_at=0),
	Content([Net("10.0.0.0/8", "DE", 64512), Net("10.1.0.0/16", "FR", 4294967295, 1), Net("10.1.2.0/24", "", 2147483648, 2), Net("10.1.2.3/32", "US", 1, 15),
			Net("192.0.2.0/24", "", 0, 0), Net("0.0.0.0/32", "GB", 2147483647), Net("255.255.255.255/32", "ZZ", 65536, 8), Net("172.16.0.0/12", "AT", 5, 1)],
		[(1, "One"), (5, ""), (64512, "Ünïcode – Name"), (65536, "ipfire"), (2147483647, "Max Int"), (2147483648, "Over Int"), (4294967295, "Last AS")],
		[("DE", "EU", "Deutschland"), ("FR", "EU", ""), ("US", "", "United States"), ("GB", "", ""), ("ZZ", "AS", "Ünknown")],
		"IPFire Project", "A description\nof two lines", "CC", 1588000000),
	Content([Net("2001:db8::/32", "DE", 4200000000, 4), Net("2001:db8:1::/48", "NL", 3, 0), Net("8000::/128", "AA", 7), Net("fe80::/10", "", 0, 9), Net("2001:db8::1/128", "", 0, 2)],
		[(0, "Zero"), (3, "Three"), (4200000000, "Private")], [("NL", "EU", "Netherlands")], "V", "", "L" * 300, 4294967296 + 5),
	Content([Net("10.0.0.0/8", "DE", 1), Net("10.128.0.0/9", "DE", 1), Net("2001:db8::/32", "DE", 1, 15), Net("ffff::/16", "US", 2, 8), Net("128.0.0.0/1", "CH", 9)],
		[(1, "Same"), (2, "same name"), (9, "SAME")], [("CH", "EU", "Suisse"), ("DE", "EU", "Germany"), ("US", "NA", "United States of America")], description="One line\n\n# Another one\n"),
	Content([Net("0.0.0.0/0", "DE", 5, 4), Net("1.0.0.0/8", "FR", 5, 8), Net("4000::/2", "US", 5, 1), Net("4000::/3", "US", 6, 2)],
		[(5, "A" * 500), (6, "% %s {} \\n")], [("AD", "EU", "Andorra"), ("FR", "EU", "France")], "Vendor", "Description", "License", 1),
]
ADDRESSES = ["10.0.0.0", "10.1.2.3", "10.1.2.4", "10.1.3.0", "10.200.0.0", "9.255.255.255", "0.0.0.0", "255.255.255.255", "192.0.2.77", "1.1.1.1", "172.31.255.255",
	"::1", "2001:db8::", "2001:db8::1", "2001:db8:1::ffff", "2001:DB8:0::0", "fe80::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "5000::", "7000::", "8000::"]
BAD_ADDRESSES = ["", "a.b.c.d", "10.0.0", "10.0.0.256", "2001:db8", "10.0.0.1x", "10.0.0.0/33", "DE"]
ASNS = [1, 2, 3, 5, 6, 7, 9, 64512, 65536, 204867, 2147483647, 2147483648, 4200000000, 4294967294, 4294967295]
BAD_ASNS = ["x", "", "AS1", "1.5", "-1", "4294967296", "4294967297", "18446744073709551617", "0x1"]
CODES = ["DE", "FR", "US", "GB", "ZZ", "NL", "CH", "AA", "AT", "IT"]
BAD_CODES = ["de", "D", "DEU", "", "D1", "11", "Ä"]
FLAGS = [("--anonymous-proxy", 1), ("--satellite-provider", 2), ("--anycast", 4), ("--drop", 8)]
FORMATS = ("list", "ipset", "nftables", "xt_geoip")
LABELS = { "Anonymous Proxy" : 1, "Satellite Provider" : 2, "Anycast" : 4, "Hostile Network safe to drop" : 8 }

def prepare():
	os.makedirs(DATA, exist_ok=True)
	for k in ("good", "other"):
		locfile.keypair(os.path.join(DATA, k))
	good, other = (os.path.join(DATA, k) for k in ("good", "other"))
	for i, c in enumerate(DBS):
		with open(path(i), "wb") as f:
			f.write(locfile.sign(c.encode(), good if i % 2 else other))
	base = DBS[1].encode()
	signed = bytearray(locfile.sign(base, good))
	signed[6000] ^= 1
	for name, data in (("empty", b""), ("magic", b"X" + base[1:]), ("short", base[:5000]), ("garbage", b"not a key\n"), ("unsigned", base), ("tampered", bytes(signed)),
			("second", locfile.sign(locfile.sign(base, other), good, 1))):
		with open(os.path.join(DATA, name), "wb") as f:
			f.write(data)

DATA = os.path.join(BUILD, "data")

def path(i):
	return os.path.join(DATA, "db%d" % i)

def init(mc):
	global location, scratch
	import location, location.export
	cli.quiet()
	scratch = pymc.scratch()

def execute(mc, *argv, stdout=None):
	mc.ops()
	r = cli.run(argv, stdout=stdout)
	r.what = "location %s" % " ".join(map(repr, argv[2:] if argv[0] == "-d" else argv))
	mc.check(r.exception is None, lambda : "%s: %s" % (r.what, cli.traceback_of(r.exception)))
	mc.state(argv, r.code, getattr(r, "out", ""))
	return r

def gmt(t):
	d = time.gmtime(t)
	return "%s, %02d %s %04d %02d:%02d:%02d GMT" % (("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")[d.tm_wday], d.tm_mday,
		("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")[d.tm_mon - 1], d.tm_year, d.tm_hour, d.tm_min, d.tm_sec)

# ---- lookup ----

def parse_lookup(mc, r):
	"""[(address, { label : value }), ...]"""
	out = []
	for l in r.out.splitlines():
		if not l.startswith(" "):
			mc.check(l.endswith(":"), lambda : "%s prints %r" % (r.what, l))
			out.append((l[:-1], {}))
		else:
			m = re.fullmatch(r"\s+(.*?)\s*: (.*)", l)
			mc.check(m is not None and out, lambda : "%s prints %r" % (r.what, l))
			mc.check(m.group(1) not in out[-1][1], lambda : "%s prints %r twice" % (r.what, l))
			out[-1][1][m.group(1)] = m.group(2)
	return out

def answer(mc, c, what, address, got):
	"""Is this the right answer for this address?"""
	n = c.lookup(locfile.parse_address(address))
	got = dict(got)
	mc.equal(got.pop("Network", None), str(n), "%s: network of %s" % (what, address))
	country = next((x for x in c.countries if x[0] == n.cc), None)
	text = got.pop("Country", None)
	if not n.cc:
		mc.equal(text, None, "%s: country of %s" % (what, address))
	else:
		# The name, or the code if there is no name
		mc.check(text is not None and text in ((country[2] or text,) if country and text != n.cc else (n.cc,)) and not (country and country[2] and text != country[2]),
			lambda : "%s: country of %s: %r" % (what, address, text))
		mc.check(text in (n.cc, "") or (country and text == country[2]), lambda : "%s: country of %s: %r" % (what, address, text))
	text = got.pop("Autonomous System", None)
	a = next((x for x in c.ases if x[0] == n.asn), None)
	if not n.asn:
		mc.equal(text, None, "%s: AS of %s" % (what, address))
	else:
		mc.equal(text.rstrip(" -") if text and not (a and a[1]) else text, "AS%d - %s" % a if a and a[1] else "AS%d" % n.asn, "%s: AS of %s" % (what, address))
	flags = 0
	for label, value in got.items():
		mc.check(label in LABELS and value == "yes", lambda : "%s prints %s: %s" % (what, label, value))
		flags |= LABELS[label]
	mc.equal(flags, n.flags, "%s: flags of %s" % (what, address))

def case_lookup(mc, arg):
	i, seqs = arg
	c = DBS[i]
	for addresses in seqs:
		r = execute(mc, "-d", path(i), "lookup", *addresses)
		got = parse_lookup(mc, r)
		want, bad, ok = [], False, True
		for a in addresses:
			if a in BAD_ADDRESSES:
				bad, ok = True, False
				break
			if c.lookup(locfile.parse_address(a)) is None:
				ok = False
			else:
				want.append(a)
		more = [a for a in addresses if a not in BAD_ADDRESSES and c.lookup(locfile.parse_address(a))]
		names = [a for a, _ in got]
		# Nothing has to be said after an invalid address
		mc.check(names == want or (bad and names == more), lambda : "%s answers for %s" % (r.what, names))
		for a, g in got:
			answer(mc, c, r.what, a, g)
		mc.check((r.code == 0) == ok, lambda : "%s exits with %s" % (r.what, r.code))
		mc.check(ok or r.err.strip(), lambda : "%s says nothing about its failure" % r.what)
	mc.note("lookups in db%d" % i)

# ---- get-as, search-as ----

def case_get_as(mc, arg):
	i, seqs = arg
	c = DBS[i]
	names = dict(c.ases)
	for asns in seqs:
		r = execute(mc, "-d", path(i), "get-as", "--", *map(str, asns))
		ok = all(isinstance(a, int) and a in names for a in asns)
		full = ["AS%d belongs to %s" % (a, names[a]) for a in asns if isinstance(a, int) and a in names]
		cut = []
		for a in asns:
			if not isinstance(a, int):
				break
			if a in names:
				cut.append("AS%d belongs to %s" % (a, names[a]))
		got = r.out.splitlines()
		mc.check(got in (full, cut), lambda : "%s prints %s" % (r.what, got))
		mc.check((r.code == 0) == ok, lambda : "%s exits with %s" % (r.what, r.code))
		mc.check(ok or r.err.strip(), lambda : "%s says nothing about its failure" % r.what)
	mc.note("ASes in db%d" % i)

def case_search_as(mc, i):
	c = DBS[i]
	for q in ("a", "A", "same", "SAME", "One", "name", "Ü", "ipfire", "IPFIRE", "nothing", "e", "%", "Same name", " ", "x" * 300, "%s"):
		r = execute(mc, "-d", path(i), "search-as", q)
		want = ["AS%d - %s" % a for a in c.ases if q.lower() in a[1].lower()]
		mc.equal((r.out.splitlines(), r.code), (want, 0), r.what)
	mc.note("searches in db%d" % i)

# ---- lists ----

def lists(mc, i, argv, networks, tag, family, fmt, valid=True, exact=True):
	"""Runs a command that lists networks"""
	c = DBS[i]
	argv = ["-d", path(i)] + argv + (["--family", family] if family else []) + (["--format", fmt] if fmt else [])
	families = { None : (V4F, V6F), "ipv4" : (V4F,), "ipv6" : (V6F,) }[family]
	r = execute(mc, *argv)
	if not valid:
		mc.check(r.code not in (0, None) and r.err.strip(), lambda : "%s exits with %s" % (r.what, r.code))
		mc.check(not re.search(r"\d/\d", r.out), lambda : "%s prints %r" % (r.what, r.out[:200]))
		return
	fmt = fmt or "list"
	want = networks(c, families)
	if fmt == "xt_geoip":
		# This is not for terminals
		mc.check(r.out == "" and (r.code != 0 or not want), lambda : "%s exits with %s" % (r.what, r.code))
		return
	if fmt == "ipset" and not family:
		mc.check(r.code not in (0, None) and r.err.strip() and r.out == "", lambda : "%s exits with %s" % (r.what, r.code))
		return
	mc.check(r.code == 0, lambda : "%s exits with %s: %s" % (r.what, r.code, r.err))
	tag = "%sv%s" % (tag, { None : "?", "ipv4" : "4", "ipv6" : "6" }[family])
	compare(mc, r.what, fmt, r.out, families, tag, want, exact)

def compare(mc, what, fmt, text, families, tag, want, exact):
	try:
		if len(families) == 1:
			got = getattr(c21, "parse_" + fmt)(text, families[0], tag)
		else:
			body = text
			if fmt == "nftables":
				m = re.fullmatch(r"define %s = \{\n(.*)\}\n" % re.escape(tag), text, re.S)
				if not m:
					raise c21.Malformed(text[:200])
				body = m.group(1).replace(",", "")
			got = [c21.network(l.strip(), V4F if "." in l and ":" not in l else V6F) for l in body.splitlines()]
	except c21.Malformed as e:
		mc.fail("%s: malformed output: %s" % (what, e))
	except (ValueError, IndexError) as e:
		mc.fail("%s: malformed output: %r" % (what, e))
	show = lambda l : [[locfile.address_str(a), locfile.address_str(b)] for a, b in l]
	if exact:
		mc.equal(show(sorted(got)), show(sorted([n.first, n.last] for n in want)), what)
	else:
		for f in (V4F, V6F):
			s = sorted(r for r in got if (r[0] >> 32 == r[1] >> 32 == 0xffff) == (f == V4F))
			mc.check(all(a[1] < b[0] for a, b in zip(s, s[1:])), "%s: networks overlap" % what)
			mc.equal(show(c21.merge(s)), show(c21.merge(r for r in want if (r[0] >> 32 == r[1] >> 32 == 0xffff) == (f == V4F))), what)

def case_by_as(mc, arg):
	i, family, fmt = arg
	for asn in ASNS:
		lists(mc, i, ["list-networks-by-as", str(asn)], lambda c, fam : [n for n in c.networks if n.asn == asn and n.family in fam], "AS%d" % asn, family, fmt)
	for asn in BAD_ASNS:
		lists(mc, i, ["list-networks-by-as", asn], None, None, family, fmt, valid=False)
	mc.note("list-networks-by-as in db%d (%s, %s)" % arg)

def case_by_cc(mc, arg):
	i, family, fmt = arg
	for cc in CODES:
		lists(mc, i, ["list-networks-by-cc", cc], lambda c, fam : [n for n in c.networks if n.cc == cc and n.family in fam], cc, family, fmt)
	for cc in BAD_CODES:
		lists(mc, i, ["list-networks-by-cc", cc], None, None, family, fmt, valid=False)
	mc.note("list-networks-by-cc in db%d (%s, %s)" % arg)

def case_by_flags(mc, arg):
	i, family, fmt = arg
	for k in range(16):
		argv = [o for o, bit in FLAGS if k & bit]
		lists(mc, i, ["list-networks-by-flags"] + argv, lambda c, fam : [n for n in c.networks if n.flags & k and n.family in fam], "custom", family, fmt, valid=k != 0)
	mc.note("list-networks-by-flags in db%d (%s, %s)" % arg)

def bogons(c, families):
	"""The gaps of each family (to IPv6, the IPv4 space is an ordinary part of a gap)"""
	out = []
	for f in families:
		networks = [n for n in c.networks if n.cc and n.family == f]
		# Nothing is said about families in which nothing has a country code
		if not networks:
			continue
		at, end = (V4, V4 | 0xffffffff) if f == V4F else (0, ALL)
		for n in networks:
			if n.first > at:
				out.append([at, n.first - 1])
			at = max(at, n.last + 1)
		if at <= end:
			out.append([at, end])
	return out

def case_bogons(mc, arg):
	i, family, fmt = arg
	lists(mc, i, ["list-bogons"], bogons, "bogons", family, fmt, exact=False)
	mc.note("list-bogons in db%d (%s, %s)" % arg)

# Standard output may be anything
def case_stdout(mc, arg):
	i, family, fmt, how = arg
	c = DBS[i]
	families = { "ipv4" : (V4F,), "ipv6" : (V6F,) }[family]
	v = family[-1]
	for argv, tag, want, exact in (
			(["list-networks-by-cc", "DE"], "DE", [n for n in c.networks if n.cc == "DE" and n.family in families], True),
			(["list-networks-by-as", "1"], "AS1", [n for n in c.networks if n.asn == 1 and n.family in families], True),
			(["list-networks-by-flags", "--drop"], "custom", [n for n in c.networks if n.flags & 8 and n.family in families], True),
			(["list-bogons"], "bogons", bogons(c, families), False),
			(["export", "DE"], "DE", c21.wanted(c, "DE", families[0]), False)):
		p = os.path.join(scratch, "out")
		with open(p, "w") as f:
			f.write("# before\n")
		# As if the shell had opened it: {echo ...; location ...; echo ...} > out
		fd = os.open(p, os.O_WRONLY | (os.O_APPEND if how == "append" else 0))
		os.lseek(fd, 0, os.SEEK_END)
		stdout = io.TextIOWrapper(io.FileIO(fd, "w"), encoding="utf-8") if how != "buffered" else open(fd, "w", encoding="utf-8")
		r = execute(mc, "-d", path(i), *argv, "--family", family, "--format", fmt, stdout=stdout)
		os.write(fd, b"# after\n")
		stdout.close()
		with open(p) as f:
			text = f.read()
		mc.check(r.code == 0, lambda : "%s exits with %s: %s" % (r.what, r.code, r.err))
		what = "%s writing to a file that is not empty (%s)" % (r.what, how)
		mc.check(text.startswith("# before\n") and text.endswith("# after\n"), lambda : "%s leaves %r" % (what, text))
		compare(mc, what, fmt, text[9:-8], families, tag + "v" + v, want, exact)
	mc.note("standard output of lists in db%d (%s, %s, %s)" % arg)

def case_countries(mc, i):
	c = DBS[i]
	for show in ([], ["--show-name"], ["--show-continent"], ["--show-name", "--show-continent"]):
		r = execute(mc, "-d", path(i), "list-countries", *show)
		mc.check(r.code == 0, lambda : "%s exits with %s: %s" % (r.what, r.code, r.err))
		lines = r.out.splitlines()
		mc.equal([l.split(" ")[0] for l in lines], [x[0] for x in c.countries], r.what)
		for l, (code, continent, name) in zip(lines, c.countries):
			rest = l[3:].strip()
			if "--show-name" in show and name:
				mc.check(rest.endswith(name), lambda : "%s prints %r" % (r.what, l))
				rest = rest[:-len(name)].strip()
			mc.check(rest == (continent if "--show-continent" in show else ""), lambda : "%s prints %r" % (r.what, l))
	mc.note("list-countries in db%d" % i)

# ---- dump ----

def parse_dump(text):
	blocks = re.split(r"\n\n", text)
	return blocks[0], [[re.match(r"([a-z-]+:)\s*(.*)$", l).groups() for l in b.strip("\n").splitlines()] for b in blocks[1:]]

def case_dump(mc, i):
	c = DBS[i]
	p = os.path.join(scratch, "dump")
	r = execute(mc, "-d", path(i), "dump")
	r2 = execute(mc, "-d", path(i), "dump", p)
	with open(p, encoding="utf-8") as f:
		text = f.read()
	mc.equal((r.code, r2.code), (0, 0), "exit codes of location dump")
	mc.equal(text, r.out, "location dump to a file")
	try:
		head, blocks = parse_dump(text)
	except AttributeError:
		mc.fail("location dump of db%d is malformed" % i)
	lines = head.splitlines()
	mc.check(all(l.startswith("#") for l in lines), "location dump of db%d: header" % i)
	mc.check("# Generated: %s" % gmt(c.created_at) in lines, lambda : "location dump of db%d: Generated: %r" % (i, head))
	for label, value in (("Vendor", c.vendor), ("License", c.license)):
		got = [l for l in lines if re.match(r"# %s: " % label, l)]
		mc.equal([re.sub(r"# \w+:\s*", "", l) for l in got], [value] if value else [], "location dump of db%d: %s" % (i, label))
	for l in c.description.splitlines():
		mc.check(("# " + l).rstrip() in lines, lambda : "location dump of db%d: %r is missing in the description" % (i, l))
	rest = [l for l in lines[3:] if l != "#" and not re.match(r"# (Generated|Vendor|License): ", l)]
	mc.equal(rest, [("# " + l).rstrip() for l in c.description.splitlines() if l.strip()], "location dump of db%d: description" % i)
	want = [[("aut-num:", "AS%d" % n), ("name:", name)] for n, name in c.ases]
	for n in c.networks:
		b = [("net:", str(n))]
		if n.cc:
			b.append(("country:", n.cc))
		if n.asn:
			b.append(("aut-num:", str(n.asn)))
		for bit, label in ((1, "is-anonymous-proxy:"), (2, "is-satellite-provider:"), (4, "is-anycast:"), (8, "drop:")):
			if n.flags & bit:
				b.append((label, "yes"))
		want.append(b)
	mc.equal(sorted(map(sorted, blocks)), sorted(map(sorted, want)), "location dump of db%d" % i)
	r = execute(mc, "-d", path(i), "dump", "/dev/full")
	mc.check(r.code not in (0, None), "location dump to a full disk exits with %s" % r.code)
	mc.note("dump of db%d" % i)

def case_version(mc, i):
	r = execute(mc, "-d", path(i), "version")
	mc.equal((r.out, r.code), (gmt(DBS[i].created_at) + "\n", 0), r.what)
	mc.note("version of db%d" % i)

def case_verify(mc, _):
	good = { "db1", "db3", "tampered", "second" }
	for db in ["db%d" % i for i in range(len(DBS))] + ["unsigned", "tampered", "second"]:
		for key in ("good.pub", "other.pub", "garbage", "empty", "missing", ".", "good"):
			r = execute(mc, "-d", os.path.join(DATA, db), "-k", os.path.join(DATA, key), "verify")
			signed = { "second" : ("good.pub", "other.pub"), "unsigned" : (), "tampered" : () }.get(db, ("good.pub",) if db in ("db1", "db3") else ("other.pub",))
			mc.check((r.code == 0) == (key in signed), "location verify of %s with %s exits with %s" % (db, key, r.code))
	mc.note("verify")

COMMANDS = [["version"], ["lookup", "1.1.1.1"], ["dump"], ["verify"], ["get-as", "1"], ["search-as", "x"], ["list-networks-by-as", "1"], ["list-networks-by-cc", "DE"],
	["list-networks-by-flags", "--drop"], ["list-bogons"], ["list-countries"], ["export"]]

def case_broken(mc, _):
	for db, c in itertools.product(("missing", "empty", "magic", "short", "garbage", "."), COMMANDS):
		r = execute(mc, "-d", os.path.join(DATA, db), "-k", os.path.join(DATA, "good.pub"), *c)
		mc.check(r.code not in (0, None) and r.out == "" and r.err.strip(), "location %s on the database %s exits with %s and prints %r, %r" % (" ".join(c), db, r.code, r.out, r.err))
	for argv in ([], ["nothing"], ["lookup"], ["get-as"], ["list-networks-by-as"], ["list-networks-by-as", "x"], ["list-networks-by-cc"], ["list-bogons", "--family", "ipv5"], ["list-bogons", "--format", "x"],
			["search-as"], ["--unknown"], ["update", "--cron", "hourly"], ["export", "--format", "x"]):
		r = execute(mc, "-d", path(1), *argv)
		mc.check(r.code == 2 and r.out == "" or (argv == [] and r.code == 2), "location %s exits with %s" % (" ".join(argv), r.code))
	mc.note("broken databases and wrong usage")

# What is logged does not change the answers
def case_options(mc, i):
	arguments = [["version"], ["lookup", *[a for a in ADDRESSES if i != 0]], ["lookup", "1.1.1.1", "10.1.2.3"], ["lookup", "9.255.255.255"], ["lookup", "x", "10.1.2.3"], ["dump"], ["get-as", "1", "5"], ["get-as", "64512", "77"], ["get-as", "x"],
		["search-as", "a"], ["list-networks-by-as", "1"], ["list-networks-by-as", "-5"], ["list-networks-by-cc", "DE"], ["list-networks-by-cc", "D"], ["list-networks-by-flags", "--drop"], ["list-networks-by-flags"],
		["list-bogons"], ["list-bogons", "--format", "ipset"], ["list-countries", "--show-name"], ["export", "DE", "AS1", "A1"], ["export", "x"], ["export", "--format", "ipset", "DE"]]
	for argv in [["-d", path(i)] + a for a in arguments if a != ["lookup"]] + [["-d", path(i), "-k", os.path.join(DATA, k), "verify"] for k in ("good.pub", "other.pub", "garbage", "missing")] + [["-d", os.path.join(DATA, "short"), "version"]]:
		want = execute(mc, *argv)
		for options in (["--quiet"], ["--debug"], ["--debug", "--quiet"], ["--quiet", "--quiet"]):
			r = execute(mc, *options, *argv)
			mc.equal((r.code, r.out), (want.code, want.out), r.what)
	# Leave nothing behind for the others
	execute(mc, "-d", path(i), "version")
	cli.quiet()
	mc.note("options in db%d" % i)

def cases(thorough):
	out = []
	every = ADDRESSES + BAD_ADDRESSES
	asns = ASNS + BAD_ASNS
	for i in range(len(DBS)):
		for a in every:
			seqs = [(a,)] + [(a, b) for b in every]
			if thorough:
				seqs += [(a, b, c) for b in every for c in every]
			out.append(("lookup", (i, seqs)))
		for a in asns:
			seqs = [(a,)] + [(a, b) for b in asns]
			if thorough:
				seqs += [(a, b, c) for b in asns for c in asns]
			out.append(("get_as", (i, seqs)))
		out += [("options", i), ("search_as", i), ("countries", i), ("dump", i), ("version", i)]
		for family, fmt in itertools.product((None, "ipv4", "ipv6"), (None,) + FORMATS):
			out += [(k, (i, family, fmt)) for k in ("by_as", "by_cc", "by_flags", "bogons")]
		for family, fmt, how in itertools.product(("ipv4", "ipv6"), ("list", "ipset", "nftables"), ("append", "file", "buffered")):
			out.append(("stdout", (i, family, fmt, how)))
	out += [("verify", 0), ("broken", 0)]
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	if not os.path.exists(os.path.join(DATA, "second")):
		prepare()
	os.environ["TZ"] = "XXX-9"
	time.tzset()
	pymc.main("C24", cases, run, init)
