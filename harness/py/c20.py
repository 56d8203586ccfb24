"""C20: the bindings give the same answers as the library"""
import gc, itertools, os, socket, struct, subprocess, sys, tempfile
import pymc, locfile, cref
from locfile import Net, Content

BUILD = os.environ["VERIF_BUILD"]
HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(BUILD, "data")

DBS = [
	Content(vendor="", description="", license="", created_at=0),
	Content([Net("10.0.0.0/8", "DE", 64512), Net("10.1.0.0/16", "FR", 4294967295, 1), Net("10.1.2.0/24", "", 2147483648, 2), Net("10.1.2.3/32", "US", 1, 15),
			Net("192.0.2.0/24", "", 0, 0), Net("0.0.0.0/32", "GB", 2147483647), Net("255.255.255.255/32", "ZZ", 65536, 8), Net("172.16.0.0/12", "AT", 5, 1)],
		[(1, "One"), (5, ""), (64512, "Ünïcode – Name"), (65536, "ipfire"), (2147483647, "Max Int"), (2147483648, "Over Int"), (4294967295, "Last AS")],
		[("DE", "EU", "Deutschland"), ("FR", "EU", ""), ("US", "", "United States"), ("GB", "", ""), ("ZZ", "AS", "Ünknown")],
		"IPFire Project", "A description\nof two lines", "CC", 1588000000),
	Content([Net("2001:db8::/32", "DE", 4200000000, 4), Net("2001:db8:1::/48", "NL", 3, 0), Net("::/128", "AA", 7), Net("fe80::/10", "", 0, 9), Net("2001:db8::1/128", "", 0, 2)],
		[(0, "Zero"), (3, "Three"), (4200000000, "Private")], [("NL", "EU", "Netherlands")], "V", "", "L" * 300, 4294967296 + 5),
	Content([Net("10.0.0.0/8", "DE", 1), Net("10.128.0.0/9", "DE", 1), Net("2001:db8::/32", "DE", 1, 15), Net("ffff::/16", "US", 2, 8), Net("::/1", "CH", 9)],
		[(1, "Same"), (2, "same name"), (9, "SAME")], [("CH", "EU", "Suisse"), ("DE", "EU", "Germany"), ("US", "NA", "United States of America")]),
]
# Damaged files that can be opened, but cannot be read everywhere
def section(data, at):
	return struct.unpack_from(">I", data, at)[0]
DAMAGED = {
	"country" : lambda d : struct.pack_into("2s", d, section(d, 52) + 8, b"@@"),		# The second country has no valid code
	"countries" : lambda d : struct.pack_into("2s", d, section(d, 52), b"\0\0"),		# ... the first one
	"lastcountry" : lambda d : struct.pack_into("2s", d, section(d, 52) + 32, b"ZZ"),	# ... is out of order
	"cname" : lambda d : struct.pack_into(">I", d, section(d, 52) + 12, 0xffffff),		# The name is outside of the pool
	"asname" : lambda d : struct.pack_into(">I", d, section(d, 28) + 12, 0xfffffff0),
	"leaf" : lambda d : struct.pack_into(">I", d, section(d, 44) + 12 * 100 + 8, 0x1000),	# There is no such network
	"child" : lambda d : struct.pack_into(">I", d, section(d, 44) + 12 * 110 + 4, 0xfffff),	# There is no such node
	"loop" : lambda d : struct.pack_into(">I", d, section(d, 44) + 12 * 97, 1),			# The tree leads back to the top
	"vendor" : lambda d : struct.pack_into(">III", d, 16, 0x7fffffff, 0x80000000, 0xffffffff),
	"netcc" : lambda d : struct.pack_into("2s", d, section(d, 36) + 12, b"d~"),			# The network's country has no valid code
	"v4" : lambda d : struct.pack_into(">I", d, section(d, 44) + 12 * 60, 0),			# There is no IPv4
}
NAMES = ["db%d" % i for i in range(len(DBS))] + list(DAMAGED)

ADDRESSES = ["10.0.0.0", "10.1.2.3", "10.1.2.4", "10.1.3.0", "10.2.0.0", "10.128.0.0", "9.255.255.255", "11.0.0.0", "0.0.0.0", "255.255.255.255", "192.0.2.77", "172.31.255.255", "1.1.1.1",
	"::", "::1", "2001:db8::", "2001:db8::1", "2001:db8:1::ffff", "2001:db9::", "fe80::1", "febf:ffff::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "7fff::", "8000::", "::ffff:10.1.2.3",
	"", " ", "a.b.c.d", "10", "10.0.0", "10.0.0.256", "10.0.0.0.0", "10.0.0.1 ", "2001:db8", "2001:db8::g", ":::", "10.0.0.0/33", "x" * 300, "10.0.0.1\n", "ü"]
ASNS = [0, 1, 2, 3, 5, 7, 9, 64512, 65535, 65536, 204867, 2147483646, 2147483647, 2147483648, 4199999999, 4200000000, 4294967294, 4294967295]
BAD_ASNS = [-1, -2147483648, -4294967295, 4294967296, 4294967297, 4294967296 + 64512, 1 << 33, (1 << 63) - 1, 1 << 63, (1 << 64) + 1, 1 << 70]
CODES = ["DE", "FR", "US", "GB", "A1", "ZZ", "NL", "CH", "AA", "A2", "A3", "XD", "XX", "AT"]
BAD_CODES = ["", "D", "de", "De", "DEU", "D1", "1D", "  ", "D ", "ÄÖ", "Ü", "@@", "[[", "DEDEDEDE"]
NETWORKS = ["10.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "10.1.0.0/16", "10.1.2.0/24", "10.1.2.3/32", "10.1.2.3", "0.0.0.0/0", "255.255.255.255/32", "192.168.0.0/17",
	"2001:db8::/32", "2001:db8::/33", "2001:db8:8000::/33", "2001:db8::/48", "2001:db8::1/128", "2001:db8::1", "::/0", "::/1", "8000::/1", "ffff::/16", "::/128", "10.1.2.3/8", "2001:db8::ff/32"]
BAD_NETWORKS = ["", "/", "10.0.0.0/", "10.0.0.0/33", "10.0.0.0/-1", "::/129", "a", "10.0.0.0/8/8", "10.0.0/8", "/8", "10.0.0.0/a", "x" * 300]
SUFFIXES = [None, "in-addr.arpa", "example.org.", "", "a"]

C = None

def prepare():
	os.makedirs(DATA, exist_ok=True)
	good, other = os.path.join(DATA, "good"), os.path.join(DATA, "other")
	for k in (good, other):
		locfile.keypair(k)
	for i, c in enumerate(DBS):
		data = c.encode()
		if i == 1:
			data = locfile.sign(data, good)
		elif i == 2:
			data = locfile.sign(locfile.sign(data, other), good, 1)
		elif i == 3:
			data = bytearray(locfile.sign(data, good))
			data[5000] ^= 1
		with open(path(i), "wb") as f:
			f.write(data)
	for name, f in DAMAGED.items():
		data = bytearray(DBS[1].encode())
		f(data)
		with open(os.path.join(DATA, name), "wb") as f:
			f.write(data)
	for name, data in (("empty", b""), ("magic", b"X" + DBS[1].encode()[1:]), ("short", DBS[1].encode()[:5000]), ("garbage", b"not a key\n")):
		with open(os.path.join(DATA, name), "wb") as f:
			f.write(data)

def path(i):
	return os.path.join(DATA, NAMES[i])

BAD_FILES = ["empty", "magic", "short", "garbage", "missing", "."]
KEYS = ["good.pub", "other.pub", "garbage", "empty", "good", "missing"]

# A process that executes operations on another language's binding
class Runner(object):
	def __init__(self, lang):
		self.lang, self.p = lang, None

	def start(self):
		env = dict(os.environ)
		env.pop("PYTHONMALLOC", None)
		if self.lang == "lua":
			env["LUA_CPATH"] = os.path.join(BUILD, "lua", "?.so")
			cmd = ["lua5.4", os.path.join(HERE, "runner.lua")]
		else:
			cmd = ["perl", "-I" + os.path.join(BUILD, "perl"), os.path.join(HERE, "runner.pl")]
		self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

	def call(self, op, *args):
		if not self.p:
			self.start()
		words = [op] + [token(a) for a in args]
		try:
			self.p.stdin.write((" ".join(words) + "\n").encode())
			self.p.stdin.flush()
			line = self.p.stdout.readline()
		except BrokenPipeError:
			line = b""
		if not line:
			rc = self.p.wait()
			self.p = None
			if rc == 3:
				raise pymc.HarnessError("the %s runner does not know %s" % (self.lang, op))
			raise pymc.Violation("%s crashed (%s) executing %s(%s)" % (self.lang, rc, op, ", ".join(map(repr, args))))
		return line.decode().strip()

def token(a):
	if a is None:
		return "n"
	if isinstance(a, bool):
		return "b%d" % a
	if isinstance(a, int):
		return "i%d" % a
	if isinstance(a, float):
		return "f%r" % a
	if isinstance(a, str):
		a = a.encode()
	if isinstance(a, bytes):
		return "s" + a.hex()
	return "t"

def s(v):
	return "n" if v is None else "s" + v.hex()

def init(mc):
	global C, lua, perl, location
	C = cref.CLib(os.path.join(BUILD, "libloc.so"))
	C.l.loc_set_log_priority(C.ctx, 0)
	import location as m
	location = m
	location.set_log_level(0)
	lua, perl = Runner("lua"), Runner("perl")
	global refs
	refs = [C.open(path(i)) for i in range(len(NAMES))]
	if None in refs:
		raise pymc.HarnessError("the library cannot open the databases")

# ---- Lua ----

def lua_net(d):
	return "net %s i%d %s %s i%d" % (s(d["str"]), d["family"], s(d["cc"] or None), "i%d" % d["asn"] if d["asn"] else "n", d["flags"])

def lua_as(d):
	text = b"AS%d" % d["number"] + (b" - " + d["name"] if d["name"] is not None else b"")
	return "as i%d %s %s" % (d["number"], s(d["name"]), s(text))

def lua_country(d):
	return "country %s %s %s %s" % (s(d["code"]), s(d["name"]), s(d["continent"]), s(d["code"]))

# Errors and nothing are the same here
def nothing(r):
	return r == "n" or r.startswith("e ")

def compare(mc, lang, what, got, want, fmt):
	mc.ops()
	mc.checks()
	if want in (None, "error"):
		if not nothing(got):
			mc.fail("%s: %s gives %s, but there is nothing" % (lang, what, got))
	elif got != fmt(want):
		mc.fail("%s: %s gives %s instead of %s" % (lang, what, got, fmt(want)))
	mc.state(lang, what, got if got[:1] != "e" else "e")

def case_lua_db(mc, i):
	p, db = path(i), refs[i]
	v = C.meta(db)
	compare(mc, "lua", "metadata of %s" % NAMES[i], lua.call("meta", p), v, lambda v : " ".join([s(x) for x in v[:3]] + ["i%d" % v[3]]))
	for a in ADDRESSES:
		compare(mc, "lua", "lookup(%r) in %s" % (a, NAMES[i]), lua.call("lookup", p, a), C.lookup(db, a.encode()), lua_net)
	for n in ASNS:
		compare(mc, "lua", "get_as(%d) in %s" % (n, NAMES[i]), lua.call("get_as", p, n), C.get_as(db, n), lua_as)
	for n in BAD_ASNS + [1.5, 4294967295.5, -0.5, "x", None, {}]:
		compare(mc, "lua", "get_as(%r) in %s" % (n, NAMES[i]), lua.call("get_as", p, n), None, lua_as)
	for c in CODES + BAD_CODES:
		compare(mc, "lua", "get_country(%r) in %s" % (c, NAMES[i]), lua.call("get_country", p, c), C.get_country(db, c.encode()), lua_country)
	for c in (None, {}, True):
		compare(mc, "lua", "get_country(%r) in %s" % (c, NAMES[i]), lua.call("get_country", p, c), None, lua_country)
		compare(mc, "lua", "lookup(%r) in %s" % (c, NAMES[i]), lua.call("lookup", p, c), None, lua_net)
		compare(mc, "lua", "verify(%r) in %s" % (c, NAMES[i]), lua.call("verify", p, c), None, str)
	compare(mc, "lua", "the networks of %s" % NAMES[i], lua.call("networks", p), C.enumerate(db, 1), lambda l : " | ".join(lua_net(n) for n in l))
	for k in KEYS:
		want = C.verify(db, os.path.join(DATA, k))
		got = lua.call("verify", p, os.path.join(DATA, k))
		mc.check(got == ("b1" if want else "b0") or (not want and nothing(got)), "lua: verify() of %s with %s gives %s instead of %s" % (NAMES[i], k, got, want))
	mc.note("Lua: all queries on %s" % NAMES[i])

def case_lua_objects(mc, _):
	compare(mc, "lua", "constants", lua.call("constants"), 1, lambda _ : "i1 i2 i4 i8")
	for n in NETWORKS + BAD_NETWORKS:
		ref = C.network_new(n.encode())
		compare(mc, "lua", "Network(%r)" % n, lua.call("network", n), ref and C.net(ref), lua_net)
		if not ref:
			continue
		for x in SUFFIXES:
			compare(mc, "lua", "reverse_pointer(%r) of %s" % (x, n), lua.call("reverse_pointer", n, x), C.reverse_pointer(ref, None if x is None else x.encode()), s)
		sub = C.subnets(ref)
		compare(mc, "lua", "subnets of %s" % n, lua.call("subnets", n), sub, lambda l : "%s | %s 2" % (lua_net(l[0]), lua_net(l[1])))
		C.l.loc_network_unref(ref)
	for n in ASNS:
		compare(mc, "lua", "AS(%r)" % n, lua.call("as", n), { "number" : n, "name" : None }, lua_as)
	for n in BAD_ASNS + [1.5, "x", None]:
		compare(mc, "lua", "AS(%r)" % n, lua.call("as", n), None, lua_as)
	for c in CODES + BAD_CODES:
		ref = C.country_new(c.encode())
		compare(mc, "lua", "Country(%r)" % c, lua.call("country", c), ref and C.country(ref), lua_country)
		if ref:
			C.l.loc_country_unref(ref)
	good = [c for c in CODES if C.l.loc_country_code_is_valid(c.encode())]
	for a, b in itertools.product(good, good):
		mc.equal(lua.call("country_eq", a, b), "b1" if a == b else "b0", "lua: %s == %s" % (a, b))
		mc.ops()
	for f in BAD_FILES + NAMES:
		ref = C.open(os.path.join(DATA, f))
		got = lua.call("open", os.path.join(DATA, f))
		mc.check((got == "ok") == (ref is not None), "lua: opening %s gives %s" % (f, got))
		if ref:
			C.close(ref)
	mc.note("Lua: objects")

LOG = ["A", "B", "use", "bad", "co", "none", "l0", "l3", "l7", "ok", "fail", "open", "infail"]

def case_lua_log(mc, first):
	p = os.path.join(DATA, "garbage")
	what = { "ok" : lambda : C.network_new(b"10.0.0.0/8"), "fail" : lambda : C.network_new(b"10.0.0.0/80"), "open" : lambda : C.open(p),
		"infail" : lambda : C.network_new(b"x"), "inner" : lambda : C.network_new(b"inner") }
	said = { (w, l) : C.messages(l, f) for w, f in what.items() for l in (0, 3, 7) }
	if not said["fail", 3] or not said["open", 3]:
		raise pymc.HarnessError("the library logs nothing")
	text = lambda name, m : "m,%s,i%d,%s" % (name, m[0], s(m[1].rstrip(b"\n").rpartition(b": ")[0] or m[1].rstrip(b"\n")))
	# (what follows the last colon depends on errno, which Python changes before the message is built here)
	for rest in itertools.product(LOG, repeat=4 if mc.thorough else 3):
		seq = list(first + rest)
		if seq[-1] not in what:
			continue
		name, level, want = "A", 0, []
		for op in seq:
			if op in ("A", "B", "use", "bad", "co"):
				name = op
			elif op in ("l0", "l3", "l7"):
				level = int(op[1])
			elif op in what:
				for m in said[op, level]:
					want.append(text(name, m))
					if name == "use":
						want += [text(name, x) for x in said["inner", level]]
				want.append("ok" if op == "ok" else "failed")
		got = lua.call("log", p, *seq)
		mc.equal(got, " ".join(want), "lua: messages logged by %s" % " ".join(seq))
		mc.ops(len(seq))
		mc.state("log", got)
	mc.note("Lua: logging, sequences beginning with %s" % (first,))

LIFE = [("D", 1), ("D", 3), ("E",), ("next",), ("lookupN", "10.1.2.3"), ("lookupN", "2001:db8::1"), ("A", 1), ("C", "DE"), ("sub",), ("drop", "D"), ("drop", "E"), ("drop", "N"), ("drop", "A"), ("drop", "C")]

# What the registers hold after these operations
class Life(object):
	def __init__(self):
		self.D = self.N = self.A = self.C = self.E = None

	def apply(self, op):
		w = op[0]
		if w == "D":
			self.D = op[1]
		elif w == "E":
			if self.D is not None:
				self.E = [ENUM[self.D], 0]
		elif w == "next":
			if self.E:
				l, k = self.E
				self.N = l[k] if k < len(l) else None
				self.E[1] += 1
		elif w == "lookupN":
			if self.D is not None:
				self.N = C.lookup(refs[self.D], op[1].encode())
		elif w == "A":
			if self.D is not None:
				self.A = C.get_as(refs[self.D], op[1])
		elif w == "C":
			if self.D is not None:
				self.C = C.get_country(refs[self.D], op[1].encode())
		elif w == "sub":
			if self.N:
				ref = C.network_new(self.N["str"])
				l = C.subnets(ref)
				C.l.loc_network_unref(ref)
				if l is None:
					return False
				sub = dict(self.N)
				sub.update({ k : l[1][k] for k in ("str", "family", "first", "last", "_first", "_last") })
				sub.update(cc=b"", asn=0, flags=0) if SUBNETS_BARE else None
				self.N = sub
		elif w == "drop":
			setattr(self, op[1], None)
		return True

ENUM = {}
SUBNETS_BARE = None

def life_init():
	global SUBNETS_BARE
	if not ENUM:
		for i in (1, 3):
			ENUM[i] = C.enumerate(refs[i], 1)
		# Do subnets carry the properties of their network?
		SUBNETS_BARE = False
		import ctypes
		n = C.network_new(b"10.0.0.0/8")
		C.l.loc_network_set_asn(n, ctypes.c_uint32(77))
		SUBNETS_BARE = C.subnets(n)[1]["asn"] != 77
		C.l.loc_network_unref(n)

def case_lua_life(mc, first):
	life_init()
	depth = 5 if mc.thorough else 3
	for rest in itertools.product(LIFE, repeat=depth - len(first)):
		seq = list(first) + list(rest)
		lua.call("reset")
		l = Life()
		for op in seq:
			if not l.apply(op):
				got = lua.call(op[0], *op[1:])
				mc.check(nothing(got), "lua: %s succeeds after %s" % (op, seq))
				continue
			mc.ops()
			got = lua.call(op[0], *(path(a) if op[0] == "D" else a for a in op[1:]))
			want = " | ".join([lua_net(l.N) if l.N else "n", lua_as(l.A) if l.A else "n", lua_country(l.C) if l.C else "n"])
			mc.equal(got, want, lambda : "lua: after %s of %s" % (op, seq))
		mc.state("lua", want)
	mc.note("Lua: lives of objects beginning with %s" % (first,))

# ---- Perl ----

def case_perl(mc, i):
	p, db = path(i), refs[i]
	compare(mc, "perl", "metadata of %s" % NAMES[i], perl.call("meta", p), C.meta(db), lambda v : " ".join(s(x) for x in v[:3]))
	for a in ADDRESSES:
		ref = C.lookup(db, a.encode())
		found = ref if ref != "error" else None
		compare(mc, "perl", "lookup_country_code(%r) in %s" % (a, NAMES[i]), perl.call("lookup_cc", p, a), found, lambda d : s(d["cc"]))
		compare(mc, "perl", "lookup_asn(%r) in %s" % (a, NAMES[i]), perl.call("lookup_asn", p, a), found, lambda d : s(b"%d" % d["asn"]) if d["asn"] else "n")
		for bit, flag in enumerate(("ANONYMOUS_PROXY", "SATELLITE_PROVIDER", "ANYCAST", "DROP")):
			got = perl.call("lookup_flag", p, a, "LOC_NETWORK_FLAG_" + flag)
			mc.ops()
			mc.check(got == ("b1" if found and found["flags"] & (1 << bit) else "b0") or (not found and nothing(got)),
				"perl: flag %s of %r in %s is %s" % (flag, a, NAMES[i], got))
		for flag in ("", "DROP", "LOC_NETWORK_FLAG_DROP ", "LOC_NETWORK_FLAG_"):
			got = perl.call("lookup_flag", p, a, flag)
			mc.check(got == "b0" or nothing(got), "perl: flag %r of %r is %s" % (flag, a, got))
	for n in ASNS:
		compare(mc, "perl", "get_as_name(%d) in %s" % (n, NAMES[i]), perl.call("as_name", p, n), C.get_as(db, n), lambda d : s(d["name"]))
	for n in BAD_ASNS:
		compare(mc, "perl", "get_as_name(%d) in %s" % (n, NAMES[i]), perl.call("as_name", p, n), None, s)
	for c in CODES + BAD_CODES:
		ref = C.get_country(db, c.encode())
		for op, key in (("country_name", "name"), ("continent", "continent")):
			compare(mc, "perl", "%s(%r) in %s" % (op, c, NAMES[i]), perl.call(op, p, c), ref, lambda d : s(d[key]))
	compare(mc, "perl", "the countries of %s" % NAMES[i], perl.call("countries", p), C.enumerate(db, 3), lambda l : " ".join(["l"] + [s(d["code"]) for d in l]))
	for k in KEYS:
		want = C.verify(db, os.path.join(DATA, k))
		got = perl.call("verify", p, os.path.join(DATA, k))
		mc.check(got == ("b1" if want else "b0") or (not want and nothing(got)), "perl: verify() of %s with %s gives %s instead of %s" % (NAMES[i], k, got, want))
	for f in BAD_FILES + NAMES:
		ref = C.open(os.path.join(DATA, f))
		got = perl.call("open", os.path.join(DATA, f))
		mc.check((got == "ok") == (ref is not None), "perl: opening %s gives %s" % (f, got))
		if ref:
			C.close(ref)
	mc.note("Perl: all queries on %s" % NAMES[i])

# ---- Python ----

def u(b):
	return None if b is None else b.decode()

def py_net(n):
	if n is None:
		return None
	return {
		"str" : str(n).encode(), "family" : n.family, "cc" : (n.country_code or "").encode(), "asn" : n.asn or 0,
		"flags" : sum(1 << i for i in range(16) if n.has_flag(1 << i)), "first" : n.first_address.encode(), "last" : n.last_address.encode(),
		"_first" : wide(n, n._first_address), "_last" : wide(n, n._last_address),
	}

# The IPv4-mapped block begins or ends inside some IPv6 networks
def wide(n, b):
	return bytes(10) + b"\xff\xff" + b if n.family == socket.AF_INET6 and len(b) == 4 else b

def py_as(a):
	if a is None:
		return None
	name = a.name
	text = "AS%d" % a.number + (" - %s" % name if name is not None else "")
	if str(a) != text:
		raise pymc.Violation("python: str() of %s %r gives %r" % (a.number, name, str(a)))
	if repr(a) != "<AS %d%s>" % (a.number, " (%s)" % name if name is not None else ""):
		raise pymc.Violation("python: repr() of %s %r gives %r" % (a.number, name, repr(a)))
	return { "number" : a.number, "name" : None if name is None else name.encode() }

def py_country(c):
	if c is None:
		return None
	name, continent = c.name, c.continent_code
	if str(c) != c.code:
		raise pymc.Violation("python: str() of %r gives %r" % (c.code, str(c)))
	return { "code" : c.code.encode(), "name" : None if name is None else name.encode(), "continent" : None if continent is None else continent.encode() }

def attempt(f, *args, **kwargs):
	try:
		return f(*args, **kwargs)
	except Exception as e:
		return e

def same(mc, what, got, want, fmt):
	"""Nothing has to be None, errors have to be exceptions"""
	mc.ops()
	if isinstance(got, Exception):
		mc.check(want == "error", lambda : "python: %s raises %r" % (what, got))
		mc.state(what, type(got).__name__)
		return
	mc.check(want != "error", lambda : "python: %s gives %r instead of an exception" % (what, got))
	v = [fmt(x) for x in got] if isinstance(want, list) else fmt(got)
	mc.equal(v, want, lambda : "python: %s" % what)
	mc.state(what, repr(v))

def raises(mc, what, f, *args, **kwargs):
	mc.ops()
	r = attempt(f, *args, **kwargs)
	mc.check(isinstance(r, Exception), lambda : "python: %s gives %r instead of an exception" % (what, r))
	mc.state(what, type(r).__name__)
	return r

NO_STRINGS = [None, 5, 1.5, b"DE", [], "a\0b", "\udc80"]
NO_NUMBERS = [None, "1", 1.5, [], b"1"]

def case_py_db(mc, i):
	db, ref = location.Database(path(i)), refs[i]
	n = NAMES[i]
	same(mc, "metadata of " + n, attempt(lambda : (db.vendor, db.description, db.license, db.created_at)), C.meta(ref),
		lambda v : tuple(x.encode() if isinstance(x, str) else x for x in v))
	for a in ADDRESSES:
		want = C.lookup(ref, a.encode())
		got = attempt(db.lookup, a)
		same(mc, "lookup(%r) in %s" % (a, n), got, want, py_net)
		mc.check(want != "error" or i >= len(DBS) or isinstance(got, ValueError), lambda : "python: lookup(%r) raises %r instead of a ValueError" % (a, got))
	for a in ASNS:
		same(mc, "get_as(%d) in %s" % (a, n), attempt(db.get_as, a), C.get_as(ref, a), py_as)
	for a in BAD_ASNS + NO_NUMBERS:
		same(mc, "get_as(%r) in %s" % (a, n), attempt(db.get_as, a), "error", py_as)
	for c in CODES + BAD_CODES:
		want = C.get_country(ref, c.encode())
		got = attempt(db.get_country, c)
		same(mc, "get_country(%r) in %s" % (c, n), got, want, py_country)
		mc.check(want != "error" or i >= len(DBS) or isinstance(got, ValueError), lambda : "python: get_country(%r) raises %r instead of a ValueError" % (c, got))
	for x in NO_STRINGS:
		raises(mc, "lookup(%r)" % x, db.lookup, x)
		raises(mc, "get_country(%r)" % x, db.get_country, x)
		raises(mc, "search_as(%r)" % x, db.search_as, x)
	for x in (None, "x", 5000, -1, object()):
		raises(mc, "verify(%r)" % x, db.verify, x)
	same(mc, "ases of " + n, attempt(lambda : list(db.ases)), C.enumerate(ref, 2), py_as)
	same(mc, "countries of " + n, attempt(lambda : list(db.countries)), C.enumerate(ref, 3), py_country)
	same(mc, "networks of " + n, attempt(lambda : list(db.networks)), C.enumerate(ref, 1), py_net)
	same(mc, "networks_flattened of " + n, attempt(lambda : list(db.networks_flattened)), C.enumerate(ref, 1, flatten=True), py_net)
	for q in ("", "a", "A", "same", "SAME", "One", "Name", "Ü", "ipfire", "nothing", "e", "x" * 300):
		same(mc, "search_as(%r) in %s" % (q, n), attempt(lambda : list(db.search_as(q))), C.enumerate(ref, 2, string=q.encode()), py_as)
	for f in (0, socket.AF_INET, socket.AF_INET6):
		same(mc, "list_bogons(%d) in %s" % (f, n), attempt(lambda : list(db.list_bogons(family=f))), C.enumerate(ref, 4, family=f), py_net)
	same(mc, "list_bogons() in %s" % n, attempt(lambda : list(db.list_bogons())), C.enumerate(ref, 4), py_net)
	for k in KEYS:
		p = os.path.join(DATA, k)
		if not os.path.exists(p):
			continue
		want = C.verify(ref, p)
		for mode in ("r", "rb"):
			with open(p, mode) as f:
				mc.equal(attempt(db.verify, f), want, "python: verify() of %s with %s" % (n, k))
			mc.ops()
	mc.equal(repr(db), "<Database %s>" % path(i), "python: repr()")
	mc.note("Python: all queries on %s" % n)

def case_py_search(mc, arg):
	i, flatten, f = arg
	db, ref = location.Database(path(i)), refs[i]
	codes = [None, [], ["DE"], ["FR"], ["DE", "US"], ["A1"], ["XX"], ["DE", "DE"], ["XD", "A3"], ["ZZ", "FR", "CH"], ["BE", "NL", "LU", "IT", "AT", "FR", "GB", "US", "DE"]]
	asns = [None, [], [1], [4294967295], [2147483648], [1, 64512], [4200000000, 3], [0], [12345], [12345, 6, 8, 10, 11, 12, 64512, 1, 65536, 4294967295]]
	for cc, an, fl in itertools.product(codes, asns, range(16) if mc.thorough else (0, 1, 2, 4, 8, 12)):
		kw = {}
		if cc is not None:
			kw["country_codes"] = cc
		if an is not None:
			kw["asns"] = an
		if fl:
			kw["flags"] = fl
		if f:
			kw["family"] = f
		if flatten:
			kw["flatten"] = True
		same(mc, "search_networks(%r) in %s" % (kw, NAMES[i]), attempt(lambda : list(db.search_networks(**kw))),
			C.enumerate(ref, 1, flatten=flatten, countries=None if cc is None else [c.encode() for c in cc], asns=an, flags=fl, family=f), py_net)
	for cc in BAD_CODES:
		same(mc, "search_networks(country_codes=[DE, %r])" % cc, attempt(lambda : list(db.search_networks(country_codes=["DE", cc]))),
			C.enumerate(ref, 1, countries=[b"DE", cc.encode()]), py_net)
	for a in BAD_ASNS + NO_NUMBERS:
		raises(mc, "search_networks(asns=[1, %r])" % a, lambda : list(db.search_networks(asns=[1, a])))
	for a in NO_STRINGS:
		raises(mc, "search_networks(country_codes=[%r])" % a, lambda : list(db.search_networks(country_codes=[a])))
	for kw in (dict(country_codes="DE"), dict(asns=1), dict(asns=(1,)), dict(flags="x"), dict(family="x"), dict(unknown=1)):
		raises(mc, "search_networks(%r)" % kw, lambda : list(db.search_networks(**kw)))
	mc.note("Python: searches in %s (family %s, flatten %s)" % (NAMES[i], f, flatten))

def case_py_objects(mc, _):
	for f in BAD_FILES + NAMES:
		p = os.path.join(DATA, f)
		ref = C.open(p)
		got = attempt(location.Database, p)
		mc.check(isinstance(got, Exception) == (ref is None), lambda : "python: opening %s gives %r" % (f, got))
		if ref:
			C.close(ref)
	mc.check(isinstance(attempt(location.Database, os.path.join(DATA, "missing")), FileNotFoundError), "python: a missing database does not raise FileNotFoundError")
	for x in NO_STRINGS:
		raises(mc, "Database(%r)" % x, location.Database, x)
		raises(mc, "Network(%r)" % x, location.Network, x)
		raises(mc, "Country(%r)" % x, location.Country, x)
		raises(mc, "country_code_is_valid(%r)" % x, location.country_code_is_valid, x)
	refs = {}
	for n in NETWORKS + BAD_NETWORKS:
		ref = C.network_new(n.encode())
		got = attempt(location.Network, n)
		same(mc, "Network(%r)" % n, got, C.net(ref) if ref else "error", py_net)
		mc.check(ref is not None or isinstance(got, ValueError), lambda : "python: Network(%r) raises %r" % (n, got))
		if not ref:
			continue
		refs[n] = ref
		mc.equal(repr(got), "<location.Network %s>" % got, "python: repr()")
		for x in SUFFIXES:
			want = C.reverse_pointer(ref, None if x is None else x.encode())
			mc.ops()
			mc.equal(attempt(got.reverse_pointer, suffix=x), u(want), "python: reverse_pointer(%r) of %s" % (x, n))
		mc.equal(attempt(got.reverse_pointer), u(C.reverse_pointer(ref, None)), "python: reverse_pointer() of %s" % n)
	for a, b in itertools.product(refs, refs):
		x, y = location.Network(a), location.Network(b)
		same(mc, "%s without %s" % (a, b), attempt(x.exclude, y), C.exclude(refs[a], refs[b]), py_net)
		mc.equal(attempt(x.is_subnet_of, y), bool(C.l.loc_network_is_subnet(refs[b], refs[a])), "python: is %s a subnet of %s?" % (a, b))
		compare_objects(mc, a, b, x, y, C.l.loc_network_cmp(refs[a], refs[b]))
	x = location.Network("10.0.0.0/8")
	for y in (None, "10.0.0.0/8", 5):
		raises(mc, "exclude(%r)" % y, x.exclude, y)
		raises(mc, "is_subnet_of(%r)" % y, x.is_subnet_of, y)
		mc.equal((attempt(lambda : x == y), attempt(lambda : x != y)), (False, True), "python: comparing a network with %r" % y)
		raises(mc, "< %r" % y, lambda : x < y)
	for r in refs.values():
		C.l.loc_network_unref(r)
	mc.note("Python: networks")

def compare_objects(mc, a, b, x, y, r):
	mc.ops()
	mc.equal((attempt(lambda : x == y), attempt(lambda : x != y), attempt(lambda : x < y), attempt(lambda : x > y)), (r == 0, r != 0, r < 0, r > 0),
		"python: is %s ==, !=, <, > than %s?" % (a, b))

def case_py_more(mc, _):
	for n in ASNS:
		same(mc, "AS(%r)" % n, attempt(location.AS, n), { "number" : n, "name" : None }, py_as)
	for n in BAD_ASNS + NO_NUMBERS:
		raises(mc, "AS(%r)" % n, location.AS, n)
	for a, b in itertools.product(ASNS, ASNS):
		x, y = location.AS(a), location.AS(b)
		compare_objects(mc, "AS%d" % a, "AS%d" % b, x, y, (a > b) - (a < b))
		if a == b:
			mc.equal(hash(x), hash(y), "python: hash of AS%d" % a)
	good = []
	for c in CODES + BAD_CODES:
		ref = C.country_new(c.encode())
		got = attempt(location.Country, c)
		same(mc, "Country(%r)" % c, got, C.country(ref) if ref else "error", py_country)
		mc.check(ref or isinstance(got, ValueError), lambda : "python: Country(%r) raises %r instead of a ValueError" % (c, got))
		if ref:
			good.append(c)
			C.l.loc_country_unref(ref)
	for a, b in itertools.product(good, good):
		x, y = location.Country(a), location.Country(b)
		compare_objects(mc, a, b, x, y, (a > b) - (a < b))
		if a == b:
			mc.equal(hash(x), hash(y), "python: hash of %s" % a)
	for c in CODES + BAD_CODES:
		mc.equal(attempt(location.country_code_is_valid, c), bool(C.l.loc_country_code_is_valid(c.encode())), "python: country_code_is_valid(%r)" % c)
	for x, y in itertools.product(range(1, 128), range(0, 128)):
		c = (chr(x) + chr(y)) if y else chr(x)
		mc.equal(attempt(location.country_code_is_valid, c), bool(C.l.loc_country_code_is_valid(c.encode())), "python: country_code_is_valid(%r)" % c)
	mc.equal((location.NETWORK_FLAG_ANONYMOUS_PROXY, location.NETWORK_FLAG_SATELLITE_PROVIDER, location.NETWORK_FLAG_ANYCAST, location.NETWORK_FLAG_DROP),
		(1, 2, 4, 8), "python: constants")
	# Setting values
	n, a, c = location.Network("10.0.0.0/8"), location.AS(5), location.Country("DE")
	for v in CODES + [""] + BAD_CODES + NO_STRINGS:
		n.country_code = "AT"
		r = attempt(setattr, n, "country_code", v)
		good = v == "" or (v in CODES and bool(C.l.loc_country_code_is_valid(v.encode())))
		mc.check(isinstance(r, Exception) != good, lambda : "python: setting the country code to %r gives %r" % (v, r))
		mc.equal(n.country_code, v if good else "AT", "python: country code after setting it to %r" % (v,))
		mc.ops()
	for v in ASNS[1:] + [0] + BAD_ASNS + NO_NUMBERS:
		n.asn = 77
		r = attempt(setattr, n, "asn", v)
		good = v in ASNS and v != 0
		mc.check(isinstance(r, Exception) != good or v == 0, lambda : "python: setting the ASN to %r gives %r" % (v, r))
		if v != 0:
			mc.equal(n.asn, v if good else 77, "python: ASN after setting it to %r" % (v,))
		mc.ops()
	for o, attr, bad in ((n, "country_code", "AT"), (n, "asn", 77), (a, "name", "N"), (c, "name", "N"), (c, "continent_code", "EU")):
		setattr(o, attr, bad)
		r = attempt(delattr, o, attr)
		mc.check(isinstance(r, Exception), "python: deleting %s is possible" % attr)
		mc.equal(getattr(o, attr), bad, "python: %s after trying to delete it" % attr)
		for v in NO_STRINGS:
			# A name may be removed
			if attr == "asn" or (v is None and "name" in attr) or v == "a\0b":
				continue
			r = attempt(setattr, o, attr, v)
			mc.check(isinstance(r, Exception), lambda : "python: %s can be set to %r" % (attr, v))
			mc.equal(getattr(o, attr), bad, "python: %s after trying to set it to %r" % (attr, v))
			mc.ops()
	for v in ("", "x", "Ünï", "y" * 1000):
		a.name = v
		c.name = v
		mc.equal((a.name, c.name), (v, v), "python: names")
	for v in ("EU", "XX", "NA"):
		c.continent_code = v
		mc.equal(c.continent_code, v, "python: continent code")
	for v in ("", "E", "EUR", "eu"):
		r = attempt(setattr, c, "continent_code", v)
		want = C.country_new(b"DE")
		ok = C.l.loc_country_set_continent_code(want, v.encode()) == 0
		mc.check(isinstance(r, Exception) != ok, lambda : "python: setting the continent code to %r gives %r" % (v, r))
		C.l.loc_country_unref(want)
	for f in range(16):
		n = location.Network("::/0")
		for bit in range(4):
			if f & (1 << bit):
				n.set_flag(1 << bit)
		mc.equal([n.has_flag(1 << bit) for bit in range(4)], [bool(f & (1 << bit)) for bit in range(4)], "python: flags %d" % f)
	for v in (None, "x", 1.5, 1 << 40):
		raises(mc, "set_flag(%r)" % v, n.set_flag, v)
		raises(mc, "has_flag(%r)" % v, n.has_flag, v)
	mc.note("Python: ASes, countries and setting values")

# Writing with Python and reading the result with the library
def case_py_writer(mc, arg):
	i, key1, key2 = arg
	c = DBS[i]
	kf = [open(os.path.join(DATA, k)) if k else None for k in (key1, key2)]
	w = location.Writer(*kf) if key2 else location.Writer(kf[0]) if key1 else location.Writer()
	w.vendor, w.description, w.license = c.vendor, c.description, c.license
	mc.equal((w.vendor, w.description, w.license), (c.vendor, c.description, c.license), "python: metadata of a writer")
	for n in c.networks:
		x = w.add_network(str(n))
		mc.equal(str(x), str(n), "python: add_network(%s)" % n)
		if n.cc:
			x.country_code = n.cc
		if n.asn:
			x.asn = n.asn
		for bit in range(4):
			if n.flags & (1 << bit):
				x.set_flag(1 << bit)
		mc.ops()
	for number, name in c.ases:
		x = attempt(w.add_as, number)
		mc.check(isinstance(x, location.AS) and x.number == number, "python: add_as(%d) gives %r" % (number, x))
		x.name = name
	for code, continent, name in c.countries:
		x = w.add_country(code)
		mc.equal(x.code, code, "python: add_country(%s)" % code)
		x.name = name
		if continent:
			x.continent_code = continent
	for v in NO_STRINGS:
		if v is None or v == "a\0b":
			continue
		for attr in ("vendor", "description", "license"):
			before = getattr(w, attr)
			raises(mc, "%s = %r" % (attr, v), setattr, w, attr, v)
			mc.equal(getattr(w, attr), before, "python: %s after trying to set it to %r" % (attr, v))
	for attr in ("vendor", "description", "license"):
		before = getattr(w, attr)
		raises(mc, "del %s" % attr, delattr, w, attr)
		mc.equal(getattr(w, attr), before, "python: %s after trying to delete it" % attr)
	for n in BAD_NETWORKS + NO_STRINGS:
		raises(mc, "add_network(%r)" % n, w.add_network, n)
	if c.networks:
		mc.check(isinstance(raises(mc, "add_network() again", w.add_network, str(c.networks[0])), IndexError), "python: a network can be added again")
	for a in BAD_ASNS + NO_NUMBERS:
		raises(mc, "add_as(%r)" % a, w.add_as, a)
	for x in BAD_CODES + NO_STRINGS:
		raises(mc, "add_country(%r)" % x, w.add_country, x)
	raises(mc, "write() into nowhere", w.write, os.path.join(DATA, "missing", "x"))
	for x in (None, 5):
		raises(mc, "write(%r)" % x, w.write, x)
	fd, out = tempfile.mkstemp(dir=DATA)
	os.close(fd)
	for v in (2, 3, 77, 255, 256, 257, -1, -255, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40, "1", None, 1.0):
		raises(mc, "write(version=%r)" % v, w.write, out, v)
	for v in (0, 1):
		w.write(out, v)
		db = C.open(out)
		mc.check(db is not None, "python: what has been written as version %d cannot be opened" % v)
		mc.equal(C.enumerate(db, 1), C.enumerate(refs[i], 1), "python: networks written as version %d" % v)
		C.close(db)
	os.unlink(out)
	gc.collect()
	fd, out = tempfile.mkstemp(dir=DATA)
	os.close(fd)
	try:
		w.write(out)
		db = C.open(out)
		mc.check(db is not None, "python: what has been written cannot be opened")
		v = C.meta(db)
		mc.equal(v[:3], tuple(x.encode() for x in (c.vendor, c.description, c.license)), "python: metadata written")
		mc.equal(C.enumerate(db, 1), C.enumerate(refs[i], 1), "python: networks written")
		mc.equal(sorted(map(repr, C.enumerate(db, 2))), sorted(map(repr, C.enumerate(refs[i], 2))), "python: ASes written")
		mc.equal(sorted(map(repr, C.enumerate(db, 3))), sorted(map(repr, C.enumerate(refs[i], 3))), "python: countries written")
		for k in ("good", "other"):
			mc.equal(C.verify(db, os.path.join(DATA, k + ".pub")), k in (key1, key2), "python: signed by %s" % k)
		C.close(db)
	finally:
		os.unlink(out)
	for f in kf:
		if f:
			f.close()
	mc.note("Python: writing %s, signed by %s and %s" % (NAMES[i], key1, key2))

PYLIFE = [("D", 1), ("D", 3), ("E",), ("F",), ("next",), ("nextF",), ("lookupN", "10.1.2.3"), ("A", 1), ("C", "DE"), ("ex",), ("drop", "D"), ("drop", "E"), ("drop", "N")]

def case_py_life(mc, first):
	life_init()
	depth = 6 if mc.thorough else 4
	flat = {}
	for i in (1, 3):
		flat[i] = C.enumerate(refs[i], 1, flatten=True, family=socket.AF_INET)
	for rest in itertools.product(PYLIFE, repeat=depth - len(first)):
		seq = list(first) + list(rest)
		D = E = F = N = A = K = None
		l = Life()
		lf = None
		for op in seq:
			w = op[0]
			mc.n_ops += 1
			if w == "D":
				D = location.Database(path(op[1]))
				l.D = op[1]
			elif w == "E":
				if D:
					E = db_networks(D)
					l.apply(op)
			elif w == "F":
				if D:
					F = D.search_networks(family=socket.AF_INET, flatten=True)
					lf = [flat[l.D], 0]
			elif w == "next":
				if E is not None:
					N = next(E, None)
					l.apply(op)
			elif w == "nextF":
				if F is not None:
					N = next(F, None)
					l.N = lf[0][lf[1]] if lf[1] < len(lf[0]) else None
					lf[1] += 1
			elif w == "lookupN":
				if D:
					N = D.lookup(op[1])
					l.apply(op)
			elif w == "A":
				if D:
					A = D.get_as(op[1])
					l.apply(op)
			elif w == "C":
				if D:
					K = D.get_country(op[1])
					l.apply(op)
			elif w == "ex":
				if N is not None:
					ref = C.network_new(l.N["str"])
					want = C.exclude(ref, ref)
					got = [py_net(x) for x in N.exclude(N)]
					mc.equal(got, want, lambda : "python: excluding a network from itself after %s" % seq)
					C.l.loc_network_unref(ref)
			elif w == "drop":
				if op[1] == "D":
					D = None
				elif op[1] == "E":
					E = None
				else:
					N = None
				l.apply(op)
		got = (py_net(N), py_as(A), py_country(K))
		mc.equal(got, (l.N, l.A, l.C), lambda : "python: after %s" % seq)
		mc.state("python", repr(got))
	mc.note("Python: lives of objects beginning with %s" % (first,))

def db_networks(D):
	return D.networks

def cases(thorough):
	out = []
	out += [(x, i) for x in ("lua_db", "perl", "py_db") for i in range(len(NAMES))]
	for i in range(len(DBS)):
		out += [("py_search", (i, fl, f)) for fl in (False, True) for f in (0, socket.AF_INET, socket.AF_INET6)]
		out += [("py_writer", (i, a, b)) for a, b in ((None, None), ("good", None), ("good", "other"))]
	out += [("py_search", (i, fl, 0)) for fl in (False, True) for i in range(len(DBS), len(NAMES))]
	out += [("lua_log", x) for x in itertools.product(LOG, repeat=1)]
	out += [("lua_objects", 0), ("py_objects", 0), ("py_more", 0)]
	out += [("lua_life", x) for x in itertools.product(LIFE, repeat=2 if thorough else 1)]
	out += [("py_life", x) for x in itertools.product(PYLIFE, repeat=2)]
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	if not os.path.exists(os.path.join(DATA, "garbage")):
		prepare()
	pymc.main("C20", cases, run, init, roots=None)
