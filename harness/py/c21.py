"""C21: exports list exactly the addresses of each country, AS or flag"""
import io, itertools, os, re, shutil, socket, sys, tempfile
import pymc, locfile, cli
from locfile import Net, Content, V4

BUILD = os.environ["VERIF_BUILD"]
V4F, V6F = socket.AF_INET, socket.AF_INET6
FORMATS = ("list", "ipset", "nftables", "xt_geoip")

# What a network may say: nothing at all (it does not exist), or any of these
PROPS = [None, ("DE", 1, 0), ("FR", 2, 0), ("", 0, locfile.DROP), ("DE", 2, locfile.ANON), ("", 1, locfile.ANON | locfile.DROP), ("US", 4294967295, locfile.SAT), ("", 0, locfile.ANYCAST), ("", 0, 0)]
SLOTS4 = ["10.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "10.64.0.0/10", "10.255.255.255/32"]
SLOTS6 = ["2001:db8::/32", "2001:db8::/33", "2001:db8:8000::/33", "2001:db8:4000::/34", "2001:db8::1/128"]
REST = [Net("192.0.2.0/24", "DE", 1, 8), Net("192.0.2.128/25", "FR", 1, 1), Net("203.0.113.0/24", "AT", 5), Net("2a00::/16", "FR", 2, 4), Net("2a00:1::/32", "DE", 3, 2), Net("2c00::/12", "", 4294967295, 8)]
COUNTRIES = [("AT", "EU", "A"), ("DE", "EU", "D"), ("FR", "EU", "F"), ("US", "NA", "U")]
OBJECTS = ["DE", "FR", "AS1", "AS2", "A1", "XD"]
MORE = [(), ("A1", "A2", "A3", "XD"), ("AS4294967295",), ("AS0",), ("AS2147483648", "CH"), ("DE", "DE"), ("US", "A2"), ("A3", "AS1"), ("AT", "A3"), ("AS4294967295", "DE", "A2"), ("A2", "AS5")]

def init(mc):
	global location, scratch
	import location, location.export
	cli.quiet()
	scratch = pymc.scratch()

def matches(o, n):
	if n is None:
		return False
	if o in locfile.FLAGS:
		return bool(n.flags & locfile.FLAGS[o])
	if o.startswith("AS"):
		return n.asn != 0 and n.asn == int(o[2:])
	return n.cc == o

def wanted(content, o, family):
	"""All ranges of addresses that belong to this object"""
	out = []
	# All networks of these have the same properties and are apart from each other
	if getattr(content, "flat", False):
		return [[n.first, n.last] for n in content.networks if n.family == family and matches(o, n)]
	cuts = content.cuts()
	for a, b in zip(cuts, cuts[1:] + [locfile.ALL + 1]):
		b -= 1
		if (a >> 32 == 0xffff) != (family == V4F):
			continue
		if matches(o, content.lookup(a)):
			if out and out[-1][1] + 1 == a:
				out[-1][1] = b
			else:
				out.append([a, b])
	return out

def merge(ranges):
	out = []
	for a, b in sorted(ranges):
		if out and out[-1][1] + 1 == a:
			out[-1][1] = b
		else:
			out.append([a, b])
	return out

class Malformed(Exception):
	pass

def network(text, family):
	m = re.fullmatch(r"([0-9a-f:.]+)/(\d+)", text)
	if not m:
		raise Malformed("%r is not a network" % text)
	try:
		n = Net(text)
	except ValueError as e:
		raise Malformed("%r is not a network: %s" % (text, e))
	if n.family != family:
		raise Malformed("%s has the wrong family" % text)
	return [n.first, n.last]

def parse_list(data, family, tag):
	return [network(l, family) for l in data.splitlines()]

def parse_ipset(data, family, tag):
	"""Executes these commands as ipset restore would do"""
	sets, hashsize = {}, None
	for l in data.splitlines():
		w = l.split()
		if w[0] == "create":
			o = w[3:]
			if w[2] != "hash:net" or "-exist" not in o:
				raise Malformed(l)
			if o[o.index("family") + 1] != ("inet6" if family == V6F else "inet"):
				raise Malformed("wrong family: " + l)
			hashsize = int(o[o.index("hashsize") + 1])
			if hashsize < 1 or hashsize & (hashsize - 1):
				raise Malformed("the hash size is not a power of two: " + l)
			maxelem = int(o[o.index("maxelem") + 1])
			if maxelem < 65536:
				raise Malformed(l)
			# The set may have existed before
			sets.setdefault(w[1], [STALE])
			seen = set()
		elif w[0] == "flush" and len(w) == 2 and w[1] in sets:
			sets[w[1]] = []
			seen.clear()
		elif w[0] == "add" and len(w) == 3 and w[1] in sets:
			n = network(w[2], family)
			if tuple(n) in seen:
				raise Malformed("%s is added twice" % w[2])
			seen.add(tuple(n))
			if len(seen) > maxelem:
				raise Malformed("this adds more than the %d elements that the set may have" % maxelem)
			sets[w[1]].append(n)
		else:
			raise Malformed(repr(l))
	if list(sets) != [tag]:
		raise Malformed("this creates the sets %s" % list(sets))
	if STALE in sets[tag]:
		raise Malformed("loading this keeps the former contents of the set")
	return sets[tag]

STALE = "stale"

def parse_nftables(data, family, tag):
	m = re.fullmatch(r"define %s = \{\n(.*)\}\n" % re.escape(tag), data, re.S)
	if not m:
		raise Malformed(data[:100])
	items = [x.strip() for x in m.group(1).split(",")]
	if items[-1] == "":
		items.pop()
	return [network(x, family) for x in items]

def parse_xt_geoip(data, family, tag):
	size = 4 if family == V4F else 16
	if len(data) % (2 * size):
		raise Malformed("%d bytes" % len(data))
	out = []
	for i in range(0, len(data), 2 * size):
		a, b = (int.from_bytes(data[i + k * size:i + (k + 1) * size], "big") | (V4 if family == V4F else 0) for k in (0, 1))
		out.append([a, b])
	# The kernel bisects this list
	if out != sorted(out):
		raise Malformed("the ranges are not sorted")
	return out

def filename(fmt, o, family):
	if fmt == "xt_geoip":
		return "%s.iv%d" % (o, 4 if family == V4F else 6)
	return "%sv%d.%s" % (o, 4 if family == V4F else 6, { "list" : "networks", "ipset" : "ipset", "nftables" : "set" }[fmt])

def verify(mc, content, what, fmt, o, family, data):
	tag = "%sv%d" % (o, 4 if family == V4F else 6)
	mc.ops()
	try:
		got = globals()["parse_" + fmt](data, family, tag)
	except Malformed as e:
		mc.fail("%s: the output for %s is malformed: %s" % (what, tag, e))
	except (ValueError, IndexError) as e:
		mc.fail("%s: the output for %s is malformed: %r in %r" % (what, tag, e, data[:300]))
	s = sorted(got)
	for (a, b), (c, d) in zip(s, s[1:]):
		if c <= b:
			mc.fail("%s: ranges of the output for %s overlap" % (what, tag))
	want = wanted(content, o, family)
	mc.equal([[locfile.address_str(a), locfile.address_str(b)] for a, b in merge(got)], [[locfile.address_str(a), locfile.address_str(b)] for a, b in want],
		lambda : "%s: %s of %s" % (what, tag, content.networks))
	mc.state(fmt, tuple(map(tuple, want)))

def files(mc, content, what, fmt, objects, families, directory):
	want = { filename(fmt, o, f) : (o, f) for o in objects for f in families }
	got = sorted(os.listdir(directory))
	mc.equal(got, sorted(want), what)
	for name in got:
		p = os.path.join(directory, name)
		o, f = want[name]
		with open(p, "rb" if fmt == "xt_geoip" else "r") as fd:
			data = fd.read()
		verify(mc, content, what, fmt, o, f, data)
		os.unlink(p)

def database(content):
	p = os.path.join(scratch, "db")
	with open(p, "wb") as f:
		f.write(content.encode())
	return p

def contents(first):
	slots = SLOTS4 if first[0] == 4 else SLOTS6
	for rest in itertools.product(range(len(first[2])), repeat=first[3] - len(first[1])):
		nets = []
		for s, k in zip(slots, tuple(first[1]) + rest):
			p = PROPS[first[2][k]]
			if p:
				nets.append(Net(s, *p))
		yield Content(nets + REST, (), COUNTRIES)

def subsets():
	out = []
	for n in range(1, len(OBJECTS) + 1):
		out += itertools.combinations(OBJECTS, n)
	return out

def export(mc, content, db, fmt, objects, families):
	"""Exports with the module"""
	d = os.path.join(scratch, "out")
	os.mkdir(d)
	countries = [o for o in objects if not re.fullmatch(r"AS\d+", o)]
	asns = [int(o[2:]) for o in objects if re.fullmatch(r"AS\d+", o)]
	e = location.export.Exporter(db, location.export.formats[fmt])
	e.export(d, countries=countries, asns=asns, families=families)
	files(mc, content, "export of %s as %s" % (" ".join(objects), fmt), fmt, set(objects), families, d)
	os.rmdir(d)

def case_routing(mc, arg):
	for content in contents(arg):
		db = location.Database(database(content))
		for objects in subsets():
			export(mc, content, db, "list", objects, [V4F, V6F])
		if mc.thorough:
			for fmt, objects in itertools.product(FORMATS, MORE[1:]):
				export(mc, content, db, fmt, objects, [V6F, V4F])
	mc.note("all requests on all databases beginning with %s" % (arg,))

def case_formats(mc, arg):
	for content in contents(arg):
		db = location.Database(database(content))
		for fmt, objects, families in itertools.product(FORMATS, (("DE", "AS1", "XD"), ("A1",), ("FR",)), ([V4F], [V6F], [V6F, V4F])):
			export(mc, content, db, fmt, objects, families)
	mc.note("all formats of all databases beginning with %s" % (arg,))

# The same through the command-line program, to files and to standard output
def case_cli(mc, arg):
	first, fmt, family = arg
	for content in contents(first):
		p = database(content)
		for objects in MORE + [("DE", "XD"), ("AS1", "FR", "A1")]:
			families = { None : [V4F, V6F], "ipv4" : [V4F], "ipv6" : [V6F] }[family]
			argv = ["--quiet", "-d", p, "export", "--format", fmt] + (["--family", family] if family else [])
			want = set(objects or (["A1", "A2", "A3", "XD"] + [c[0] for c in COUNTRIES]))
			d = os.path.join(scratch, "out")
			os.mkdir(d)
			r = cli.run(argv + ["--directory", d] + list(objects))
			what = "location export --format %s --family %s %s" % (fmt, family, " ".join(objects))
			mc.check(r.code == 0, lambda : "%s: exit code %s %s" % (what, r.code, r.err or (r.exception and cli.traceback_of(r.exception))))
			files(mc, content, what, fmt, want, families, d)
			os.rmdir(d)
			r = cli.run(argv + list(objects))
			if fmt == "xt_geoip":
				mc.check(r.code != 0 and r.code is not None, "%s: binary output to standard output exits with %s" % (what, r.code))
				continue
			mc.check(r.code == 0, lambda : "%s: exit code %s %s" % (what, r.code, r.err or (r.exception and cli.traceback_of(r.exception))))
			stdout(mc, content, what, fmt, want, families, r.out)
	mc.note("location export --format %s --family %s of all databases beginning with %s" % (fmt, family, first))

def stdout(mc, content, what, fmt, objects, families, data):
	"""Everything has been written to one stream"""
	if fmt == "list":
		# All networks of all requests
		got = sorted(data.splitlines())
		ranges = []
		for o, f in itertools.product(objects, families):
			ranges += wanted(content, o, f)
		covered = merge_overlapping([[Net(x).first, Net(x).last] for x in got])
		mc.equal(covered, merge_overlapping(ranges), what)
		return
	start = re.compile(r"^create (\S+) " if fmt == "ipset" else r"^define (\S+) ", re.M)
	at = [m.start() for m in start.finditer(data)]
	parts = { start.match(data[a:]).group(1) : data[a:b] for a, b in zip(at, at[1:] + [len(data)]) }
	want = { "%sv%d" % (o, 4 if f == V4F else 6) : (o, f) for o, f in itertools.product(objects, families) }
	mc.equal((sorted(parts), len(at)), (sorted(want), len(want)), what)
	for tag, (o, f) in want.items():
		verify(mc, content, what, fmt, o, f, parts[tag])

def merge_overlapping(ranges):
	out = []
	for a, b in sorted(ranges):
		if out and a <= out[-1][1] + 1:
			out[-1][1] = max(out[-1][1], b)
		else:
			out.append([a, b])
	return out

# Sets of many networks, whose size decides about the header
def case_many(mc, arg):
	n, fmt = arg
	content = Content([Net("%d.%d.%d.0/24" % (10 + (i >> 15), i >> 7 & 0xff, (i & 0x7f) << 1), "DE", 1) for i in range(n)], (), COUNTRIES)
	content.flat = n > 2000
	db = location.Database(database(content))
	export(mc, content, db, fmt, ("DE", "AS2"), [V4F, V6F])
	mc.note("%d networks" % n)

def cases(thorough):
	out = []
	few, all_ = [0, 1, 2, 3, 5], list(range(len(PROPS)))
	for v in (4, 6):
		ps, slots = ([0, 1, 2, 5], 4) if not thorough else (few, 5)
		out += [("routing", (v, x, ps, slots)) for x in itertools.product(range(len(ps)), repeat=3 if thorough else 2)]
		ps, slots = (all_, 2) if not thorough else (all_, 3)
		out += [("routing", (v, (x,), ps, slots)) for x in range(len(ps))]
		ps, slots = (few, 3) if not thorough else (all_, 3)
		out += [("formats", (v, (x,), ps, slots)) for x in range(len(ps))]
		ps, slots = (few, 2) if not thorough else (all_, 2)
		out += [("cli", ((v, (x,), ps, slots), fmt, fam)) for x in range(len(ps)) for fmt in FORMATS for fam in (None, "ipv4", "ipv6")]
	out += [("many", (n, fmt)) for n in (0, 1, 2, 47, 48, 49, 63, 64, 65, 96, 97, 100, 128, 129, 1000) for fmt in FORMATS]
	out += [("many", (n, fmt)) for n in (((70000,) if not thorough else (65535, 65536, 65537, 70000, 140000))) for fmt in (("ipset",) if not thorough else FORMATS)]
	return out

def run(case, mc):
	kind, arg = case
	out = os.path.join(scratch, "out")
	shutil.rmtree(out, ignore_errors=True)
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	pymc.main("C21", cases, run, init)
