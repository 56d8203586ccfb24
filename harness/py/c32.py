"""C32: the bindings hand back everything they took"""
import ctypes, gc, itertools, os, socket, sys, tempfile
import pymc, c20
from c20 import path, DATA, DBS, NAMES, ADDRESSES, ASNS, BAD_ASNS, CODES, BAD_CODES, NETWORKS, BAD_NETWORKS, SUFFIXES, NO_STRINGS, NO_NUMBERS, KEYS, BAD_FILES

# Exceptions refer to frames, and these to the exceptions
def attempt(f, *args, **kwargs):
	try:
		return f(*args, **kwargs)
	except Exception:
		return None

live = None

def init(mc):
	global live, location
	c20.init(mc)
	location = c20.location
	live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
	live.restype = ctypes.c_size_t

# Files and mappings
def resources():
	with open("/proc/self/maps") as f:
		m = sum(DATA in l for l in f)
	return len(os.listdir("/proc/self/fd")), m

def grow(f, n):
	before = live()
	for _ in range(n):
		f()
	return live() - before

# Measuring itself takes some memory
base = None

# Does memory grow with the number of repetitions?
def leaks(f):
	global base
	if base is None:
		base = max(grow(int, 4) for _ in range(5))
	f()
	f()
	# Growth that is not caused by each repetition does not count
	for _ in range(4):
		if grow(f, 4) - base < 4:
			return 0
	# The error queue of OpenSSL has a fixed number of entries
	for n in (40, 40, 100):
		gc.collect()
		before = live()
		for _ in range(n):
			f()
		gc.collect()
		r = live() - before
		if r - base < n:
			return 0
	return max(r // n, 1)

def measure(mc, what, f):
	mc.ops()
	r = leaks(f)
	mc.check(not r, lambda : "python: %s leaves %d bytes behind each time" % (what, r))

# A value that has been used is dropped at once
def use(f, *args, **kwargs):
	def g():
		r = attempt(f, *args, **kwargs)
		if r is not None and not isinstance(r, (Exception, bool, int, str)):
			str(r), repr(r), attempt(hash, r)
	return g

def use_list(f, *args, **kwargs):
	def g():
		r = attempt(lambda : [str(x) for x in f(*args, **kwargs)])
	return g

NET_ATTRS = ("family", "country_code", "asn", "first_address", "last_address", "_first_address", "_last_address")

def case_py_db(mc, i):
	p = path(i)
	db = location.Database(p)
	before = None
	for round in range(2):
		if round == 1:
			before = resources()
		for a in ADDRESSES + NO_STRINGS:
			measure(mc, "lookup(%r)" % (a,), use(db.lookup, a))
			def f():
				n = attempt(db.lookup, a)
				for x in NET_ATTRS:
					attempt(getattr, n, x)
				for x in range(4):
					attempt(lambda : n.has_flag(1 << x))
			measure(mc, "the attributes of lookup(%r)" % (a,), f)
		for a in ASNS + BAD_ASNS + NO_NUMBERS:
			measure(mc, "get_as(%r)" % (a,), use(db.get_as, a))
			measure(mc, "the name of get_as(%r)" % (a,), lambda : attempt(lambda : (db.get_as(a).name, db.get_as(a).number)))
		for c in CODES + BAD_CODES + NO_STRINGS:
			measure(mc, "get_country(%r)" % (c,), use(db.get_country, c))
			measure(mc, "the attributes of get_country(%r)" % (c,), lambda : attempt(lambda : (db.get_country(c).name, db.get_country(c).code, db.get_country(c).continent_code)))
		for attr in ("ases", "countries", "networks", "networks_flattened"):
			measure(mc, attr, use_list(lambda : getattr(db, attr)))
			for k in range(3):
				measure(mc, "%d of %s" % (k, attr), lambda : attempt(lambda : list(itertools.islice(getattr(db, attr), k))))
		for q in ("", "a", "same", "nothing") + tuple(NO_STRINGS):
			measure(mc, "search_as(%r)" % (q,), use_list(db.search_as, q))
		for f in (0, socket.AF_INET, socket.AF_INET6, 77):
			measure(mc, "list_bogons(%r)" % f, use_list(db.list_bogons, family=f))
			for kw in ({}, { "flatten" : True }, { "country_codes" : ["DE", "US"] }, { "country_codes" : ["DE", "invalid"] }, { "country_codes" : ["DE", 5] }, { "country_codes" : 5 }, { "country_codes" : "DE" },
					{ "asns" : [1, 2, 4294967295] }, { "asns" : [1, -1] }, { "asns" : [1, "x"] }, { "asns" : 1 }, { "flags" : 15 }, { "flags" : "x" }, { "country_codes" : ["DE"], "asns" : [1], "flags" : 1, "flatten" : True },
					{ "country_codes" : [] }, { "asns" : [] }, { "country_codes" : ["DE", "DE"], "asns" : [1, 1] }, { "country_codes" : ["DE"], "asns" : ["x"] }, { "nonsense" : 1 }):
				measure(mc, "search_networks(%r, %r)" % (f, kw), use_list(db.search_networks, family=f, **kw))
				measure(mc, "the first of search_networks(%r, %r)" % (f, kw), lambda : attempt(lambda : next(db.search_networks(family=f, **kw), None)))
		for k in KEYS:
			if k != "missing":
				measure(mc, "verify(%s)" % k, lambda : verify(db, k))
		for x in (None, "x", 5000, -1):
			measure(mc, "verify(%r)" % x, use(db.verify, x))
		measure(mc, "metadata", lambda : (db.vendor, db.description, db.license, db.created_at, repr(db), str(db)))
		for f in [path(i)] + [os.path.join(DATA, x) for x in BAD_FILES] + NO_STRINGS:
			measure(mc, "Database(%r)" % f, use(location.Database, f))
			def g():
				d = attempt(location.Database, f)
				attempt(lambda : next(d.networks)), attempt(lambda : d.lookup("10.1.2.3")), attempt(lambda : d.get_as(1)), attempt(lambda : d.get_country("DE"))
			measure(mc, "using Database(%r)" % f, g)
			mc.state(i, str(f))
		if not mc.thorough and round == 0:
			pass
	mc.equal(resources(), before, "python: open files and mappings after the operations of one round")
	mc.note("Python: operations of %s" % NAMES[i])

def case_py_objects(mc, _):
	L = location
	for n in NETWORKS + BAD_NETWORKS + NO_STRINGS:
		measure(mc, "Network(%r)" % (n,), use(L.Network, n))
		if n not in NETWORKS:
			continue
		def f():
			x = L.Network(n)
			for a in NET_ATTRS:
				getattr(x, a)
		measure(mc, "the attributes of %s" % n, f)
		for x in SUFFIXES + [5]:
			measure(mc, "reverse_pointer(%r) of %s" % (x, n), lambda : attempt(L.Network(n).reverse_pointer, suffix=x))
		for m in NETWORKS + [None, 5]:
			x = L.Network(n)
			y = L.Network(m) if m in NETWORKS else m
			measure(mc, "%s without %s" % (n, m), use_list(x.exclude, y))
			measure(mc, "an unused %s without %s" % (n, m), lambda : attempt(lambda : x.exclude(y)))
			measure(mc, "comparing %s with %s" % (n, m), lambda : (x == y, x != y, attempt(lambda : x < y), attempt(lambda : x > y), attempt(x.is_subnet_of, y), attempt(lambda : x <= y)))
	for v in CODES + BAD_CODES + NO_STRINGS:
		measure(mc, "Country(%r)" % (v,), use(L.Country, v))
		measure(mc, "country_code_is_valid(%r)" % (v,), use(L.country_code_is_valid, v))
		n, c = L.Network("10.0.0.0/8"), L.Country("DE")
		measure(mc, "country_code = %r" % (v,), lambda : (attempt(setattr, n, "country_code", v), n.country_code))
		measure(mc, "continent_code = %r" % (v,), lambda : (attempt(setattr, c, "continent_code", v), c.continent_code))
		d = attempt(L.Country, v)
		measure(mc, "comparing countries with %r" % (v,), lambda : (c == d, c != d, attempt(lambda : c < d), attempt(lambda : c >= d), attempt(hash, d)))
	for v in ASNS + BAD_ASNS + NO_NUMBERS:
		measure(mc, "AS(%r)" % (v,), use(L.AS, v))
		n, a = L.Network("10.0.0.0/8"), L.AS(5)
		measure(mc, "asn = %r" % (v,), lambda : (attempt(setattr, n, "asn", v), attempt(lambda : n.asn)))
		d = attempt(L.AS, v)
		measure(mc, "comparing ASes with %r" % (v,), lambda : (a == d, a != d, attempt(lambda : a < d), attempt(lambda : a >= d), attempt(hash, d)))
	for v in ("", "x", "Ünï", "y" * 1000) + tuple(NO_STRINGS):
		a, c = L.AS(5), L.Country("DE")
		measure(mc, "name = %r" % (v,), lambda : (attempt(setattr, a, "name", v), attempt(setattr, c, "name", v), a.name, c.name, str(a), repr(a), str(c), repr(c)))
		measure(mc, "name = %r of a new AS and country" % (v,), lambda : (attempt(setattr, L.AS(5), "name", v), attempt(setattr, L.Country("DE"), "name", v)))
	# Initialising an object once more
	for o, good, bad in ((L.Network("10.0.0.0/8"), "2001:db8::/32", "x"), (L.AS(5), 6, -1), (L.Country("DE"), "AT", "invalid"), (L.Writer(), None, "x"), (L.Database(path(1)), path(3), "/nowhere")):
		measure(mc, "initialising %r once more" % type(o), lambda : attempt(o.__init__, good))
		measure(mc, "initialising %r once more in vain" % type(o), lambda : attempt(o.__init__, bad))
		measure(mc, "initialising %r over and over" % type(o), lambda : [attempt(o.__init__, x) for x in (good, bad, good)])
	for attr, o in (("name", L.AS(5)), ("name", L.Country("DE")), ("continent_code", L.Country("DE")), ("country_code", L.Network("::/0")), ("asn", L.Network("::/0"))):
		measure(mc, "deleting %s" % attr, lambda : attempt(delattr, o, attr))
	for v in (None, "x", 1, 8, 1 << 40):
		n = L.Network("::/0")
		measure(mc, "set_flag(%r)" % v, lambda : (attempt(n.set_flag, v), attempt(n.has_flag, v)))
	for v in (None, "x", 0, 7):
		measure(mc, "set_log_level(%r)" % v, lambda : (attempt(L.set_log_level, v), L.set_log_level(0)))
	mc.note("Python: networks, ASes and countries")

def case_py_writer(mc, arg):
	i, key1, key2 = arg
	c = DBS[i]
	fd, out = tempfile.mkstemp(dir=DATA)
	os.close(fd)
	kf = [open(os.path.join(DATA, k)) if k else None for k in (key1, key2)]
	def build(write):
		for f in kf:
			f and f.seek(0)
		w = location.Writer(*kf) if key2 else location.Writer(kf[0]) if key1 else location.Writer()
		for _ in range(2):
			w.vendor, w.description, w.license = c.vendor, c.description, c.license
			w.vendor, w.description, w.license
		for n in c.networks:
			x = w.add_network(str(n))
			if n.cc:
				x.country_code = n.cc
			x.asn = n.asn or 1
			x.set_flag(1)
		for number, name in c.ases:
			w.add_as(number).name = name
		for code, continent, name in c.countries:
			w.add_country(code).name = name
		for n in BAD_NETWORKS[:3] + NO_STRINGS + [str(n) for n in c.networks[:1]]:
			attempt(w.add_network, n)
		for a in BAD_ASNS[:3] + NO_NUMBERS + ASNS[1:3] * 2:
			attempt(w.add_as, a)
		for x in BAD_CODES[:3] + NO_STRINGS + ["DE", "DE"]:
			attempt(w.add_country, x)
		for v in NO_STRINGS:
			attempt(setattr, w, "vendor", v), attempt(setattr, w, "description", v), attempt(setattr, w, "license", v)
		if write == 1:
			w.write(out)
		elif write == 2:
			attempt(w.write, os.path.join(DATA, "missing", "x"))
			attempt(w.write, None)
			attempt(w.write, "/dev/full")
	try:
		for write in range(3):
			build(write)
			before = resources()
			measure(mc, "building %s, writing it %s" % (NAMES[i], ("not", "to a file", "in vain")[write]), lambda : build(write))
			mc.equal(resources(), before, "python: open files and mappings after building a database")
		with open(os.path.join(DATA, "garbage")) as bad, open(os.path.join(DATA, "empty")) as empty:
			for keys in ((bad,), (empty,), (kf[0], bad), (None, bad), (5,), ("x",), (kf[0], 5000), (kf[0], "x"), (kf[0], -1), (None, "x"), (kf[1], object()), (bad, 5000)):
				before = resources()
				measure(mc, "Writer() with bad keys", lambda : ([f.seek(0) for f in kf + [bad, empty] if f], attempt(location.Writer, *keys)))
				mc.equal(resources(), before, "python: open files and mappings after Writer() with bad keys")
	finally:
		os.unlink(out)
		for f in kf:
			f and f.close()
	mc.note("Python: writing %s, signed by %s and %s" % (NAMES[i], key1, key2))

# Everything that can be done with objects, in any order, and all of it dropped at the end
class Regs(object):
	__slots__ = ("D", "E", "F", "N", "A", "K", "W", "L", "X")
	def __init__(self):
		for x in self.__slots__:
			setattr(self, x, None)

def op_D(i):
	return lambda r : setattr(r, "D", location.Database(path(i)))
def on(reg, f):
	def g(r):
		x = getattr(r, reg)
		if x is not None:
			f(r, x)
	return g
def put(target, reg, f):
	return on(reg, lambda r, x : setattr(r, target, attempt(f, x)))
def step(reg):
	def f(r, e):
		r.N = attempt(next, e, None)
	return on(reg, f)

OPS = {
	"D1" : op_D(1), "D3" : op_D(3),
	"D!" : lambda r : attempt(location.Database, os.path.join(DATA, "magic")),
	"networks" : put("E", "D", lambda d : d.networks),
	"flat" : put("E", "D", lambda d : d.networks_flattened),
	"ases" : put("E", "D", lambda d : d.ases),
	"countries" : put("E", "D", lambda d : d.countries),
	"bogons" : put("E", "D", lambda d : d.list_bogons(family=socket.AF_INET)),
	"search" : put("E", "D", lambda d : d.search_networks(country_codes=["DE"], asns=[1], flags=1, family=socket.AF_INET)),
	"next" : step("E"), "next3" : lambda r : [step("E")(r) for _ in range(3)],
	"rest" : on("E", lambda r, e : setattr(r, "L", attempt(list, e))),
	"lookup" : put("N", "D", lambda d : d.lookup("10.1.2.3")),
	"absent" : put("N", "D", lambda d : d.lookup("1.1.1.1")),
	"as" : put("A", "D", lambda d : d.get_as(1)),
	"cc" : put("K", "D", lambda d : d.get_country("DE")),
	"exclude" : on("N", lambda r, n : setattr(r, "L", attempt(lambda : n.exclude(location.Network("10.1.2.3/32"))))),
	"self" : on("N", lambda r, n : setattr(r, "L", attempt(lambda : n.exclude(n)))),
	"set" : on("N", lambda r, n : (attempt(setattr, n, "country_code", "AT"), attempt(setattr, n, "asn", 5))),
	"N" : lambda r : setattr(r, "N", location.Network("10.0.0.0/8")),
	"W" : lambda r : setattr(r, "W", location.Writer()),
	"addN" : put("N", "W", lambda w : w.add_network("10.0.0.0/8")),
	"addN2" : put("N", "W", lambda w : w.add_network("10.0.0.0/9")),
	"addA" : put("A", "W", lambda w : w.add_as(5)),
	"addC" : put("K", "W", lambda w : w.add_country("DE")),
	"name" : lambda r : (attempt(setattr, r.A, "name", "Name"), attempt(setattr, r.K, "name", "Name"), attempt(setattr, r.K, "continent_code", "EU")),
	"write" : on("W", lambda r, w : attempt(w.write, "/dev/null")),
	"verify" : on("D", lambda r, d : verify(d)),
	"dropD" : lambda r : setattr(r, "D", None),
	"dropE" : lambda r : setattr(r, "E", None),
	"dropW" : lambda r : setattr(r, "W", None),
}
STARTS = ["D1", "D3", "N", "W"]

# Opening files by open() takes up some memory for good
def verify(d, k="good.pub"):
	fd = os.open(os.path.join(DATA, k), os.O_RDONLY)
	try:
		return attempt(d.verify, fd)
	finally:
		os.close(fd)

def sequence(seq):
	fs = [OPS[x] for x in seq]
	def f():
		r = Regs()
		for g in fs:
			g(r)
	return f

def case_py_seq(mc, first):
	depth = 4 if mc.thorough else 3
	if first[0] not in STARTS:
		depth -= 1
	before = None
	for rest in itertools.product(OPS, repeat=depth - len(first)):
		seq = first + rest
		measure(mc, " ".join(seq), sequence(seq))
		if before is None:
			before = resources()
		mc.state(*seq)
	mc.equal(resources(), before, "python: open files and mappings after sequences beginning with %s" % (first,))
	mc.note("Python: sequences beginning with %s" % (first,))

# ---- Lua and Perl ----

def other(mc, r, lang, op, *args):
	mc.ops()
	n = 20
	got = r.call("grow", n, op, *args)
	mc.check(got.startswith("i"), lambda : "%s: %s(%s): %s" % (lang, op, ", ".join(map(repr, args)), got))
	if int(got[1:]) > 0:
		# Does it grow with the number of repetitions?
		for n in (500, 1500):
			got = r.call("grow", n, op, *args)
			if int(got[1:]) < n * 8:
				return
		mc.fail("%s: %s(%s) leaves %d bytes behind each time" % (lang, op, ", ".join(map(repr, args)), int(got[1:]) // n))

def outside(r):
	with open("/proc/%d/maps" % r.p.pid) as f:
		m = sum(DATA in l for l in f)
	return len(os.listdir("/proc/%d/fd" % r.p.pid)), m

def queries(lang, i):
	p = path(i)
	for a in ADDRESSES:
		if lang == "lua":
			yield "lookup", p, a
		else:
			yield "lookup_cc", p, a
			yield "lookup_asn", p, a
			for f in ("LOC_NETWORK_FLAG_DROP", "x"):
				yield "lookup_flag", p, a, f
	for n in ASNS + BAD_ASNS:
		yield ("get_as" if lang == "lua" else "as_name"), p, n
	for c in CODES + BAD_CODES:
		for op in (("get_country",) if lang == "lua" else ("country_name", "continent")):
			yield op, p, c
	yield "meta", p
	yield ("networks" if lang == "lua" else "countries"), p
	for k in KEYS:
		yield "verify", p, os.path.join(DATA, k)
	for f in BAD_FILES:
		yield "open", os.path.join(DATA, f)
	for f in NAMES:
		yield "open", path(NAMES.index(f))

def case_other(mc, arg):
	lang, i = arg
	r = getattr(c20, lang)
	for q in queries(lang, i):
		other(mc, r, lang, *q)
	before = outside(r)
	for q in queries(lang, i):
		other(mc, r, lang, *q)
		mc.state(lang, *map(str, q))
	mc.equal(outside(r), before, "%s: open files and mappings after all queries" % lang)
	mc.note("%s: operations of %s" % (lang, NAMES[i]))

def case_lua_objects(mc, _):
	r = c20.lua
	for n in NETWORKS + BAD_NETWORKS:
		other(mc, r, "lua", "network", n)
		for x in SUFFIXES:
			other(mc, r, "lua", "reverse_pointer", n, x)
		other(mc, r, "lua", "subnets", n)
	for n in ASNS + BAD_ASNS + [None, "x"]:
		other(mc, r, "lua", "as", n)
	for c in CODES + BAD_CODES + [None, 5]:
		other(mc, r, "lua", "country", c)
		other(mc, r, "lua", "country_eq", c, "DE")
	for seq in itertools.product(c20.LOG, repeat=3 if mc.thorough else 2):
		other(mc, r, "lua", "log", os.path.join(DATA, "garbage"), *seq)
	mc.note("Lua: objects")

def case_lua_seq(mc, first):
	r = c20.lua
	depth = 3 if mc.thorough else 2
	for rest in itertools.product(c20.LIFE, repeat=depth):
		seq = [first] + list(rest)
		args = []
		for op in seq:
			args += [op[0], path(op[1]) if op[0] == "D" else op[1] if len(op) > 1 else None]
		other(mc, r, "lua", "sequence", *args)
		mc.state("lua", *map(str, seq))
	before = outside(r)
	mc.note("Lua: sequences beginning with %s" % (first,))

def cases(thorough):
	out = []
	for i in range(len(NAMES)):
		out += [("py_db", i), ("other", ("lua", i)), ("other", ("perl", i))]
	for i in range(len(DBS)):
		out += [("py_writer", (i, a, b)) for a, b in ((None, None), ("good", None), ("good", "other"))]
	out += [("py_objects", 0), ("lua_objects", 0)]
	out += [("py_seq", x) for x in itertools.product(OPS, repeat=2 if thorough else 1)]
	out += [("lua_seq", x) for x in c20.LIFE]
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	if not os.path.exists(os.path.join(DATA, "garbage")):
		c20.prepare()
	pymc.main("C32", cases, run, init, roots=None)
