"""C34: nothing that a program does with the bindings crashes the interpreter"""
import copy, ctypes, gc, itertools, operator, os, pickle, socket, subprocess, sys
import pymc, c20, c32
from c20 import path, DATA, DBS, NAMES, HERE, BUILD

location = None
CLASSES = ["Network", "AS", "Country", "Database", "Enumerator", "Writer"]

# Arguments of the constructors: two that succeed, and others that do not
def inits(c):
	return {
		"Network" : ([("10.1.0.0/16",), ("2001:db8::/32",)], [("x",), (), (None,), ("10.0.0.0/33",)]),
		"AS" : ([(5,), (4294967295,)], [(-1,), (), ("x",), (1 << 32,)]),
		"Country" : ([("DE",), ("FR",)], [("x",), (), (None,), ("D\0",)]),
		"Database" : ([(path(1),), (path(3),)], [(os.path.join(DATA, "missing"),), (os.path.join(DATA, "magic"),), (), (None,)]),
		"Writer" : ([(), (None, None)], [(5000,), ("x",), (None, "x"), (None, None, None)]),
		"Enumerator" : ([], [(), (5,)]),
	}[c]

def cls(c):
	return type(location.Database(path(0)).networks) if c == "Enumerator" else getattr(location, c)

# Everything that can be asked of an object
def facts(c, o):
	if c == "Network":
		return c20.py_net(o)
	if c == "AS":
		return c20.py_as(o)
	if c == "Country":
		return c20.py_country(o)
	if c == "Database":
		return (o.vendor, o.description, o.license, o.created_at, repr(o), [str(n) for n in o.networks], [str(a) for a in o.ases], [str(k) for k in o.countries],
			[(str(n), n.asn) for n in (o.lookup("10.1.2.3"), o.lookup("2001:db8::1")) if n])
	if c == "Writer":
		return (o.vendor, o.description, o.license)
	return None

class Lost(Exception):
	pass

# Objects in all sorts of states
def receiver(c, kind):
	T = cls(c)
	good, bad = inits(c)
	if kind == "new":
		return T.__new__(T)
	if kind == "sub":
		class Sub(T):
			def __init__(self, *args):
				pass
		return Sub()
	if kind == "failed":
		o = T.__new__(T)
		for b in bad:
			c32.attempt(o.__init__, *b)
		return o
	if kind in ("networks", "networks_flattened", "ases", "countries"):
		return getattr(location.Database(path(1)), kind)
	if kind == "bogons":
		return location.Database(path(1)).list_bogons()
	if kind == "ended":
		e = location.Database(path(1)).ases
		list(e)
		return e
	if kind == "damaged":
		return location.Database(path(NAMES.index("leaf"))).networks
	if kind == "object":
		return object.__new__(T)
	o = T(*good[0])
	if kind == "twice":
		o.__init__(*good[1])
	if kind == "kept":
		for b in bad:
			c32.attempt(o.__init__, *b)
	return o

KINDS = { c : ["new", "sub", "failed", "object", "ok", "twice", "kept"] for c in CLASSES }
KINDS["Enumerator"] = ["new", "sub", "failed", "object", "networks", "networks_flattened", "ases", "countries", "bogons", "ended", "damaged"]
# Objects that have never been initialised
RAW = ("new", "sub", "failed")

# The receiver, or None when it cannot be created
def create(c, kind):
	try:
		return receiver(c, kind)
	except TypeError:
		if c != "Enumerator" and kind != "object":
			raise
		return None

def values(thorough):
	v = [None, True, False, 0, 1, -1, 2 ** 31, 2 ** 32, 2 ** 70, 1.5, "", "DE", "10.0.0.0/8", "2001:db8::/32", "x" * 300, "a\0b", "\udc80", b"DE", [], ["DE"], [1], [None], (), {}, object(), object, len,
		location.Network("10.1.2.0/24"), location.AS(7), location.Country("US"), location.Writer(), location.Database(path(2)), location.Database(path(2)).networks]
	for c in CLASSES:
		for kind in RAW[:2]:
			o = create(c, kind)
			if o is not None:
				v.append(o)
	return v

def run_op(mc, what, f, *args, **kwargs):
	mc.ops()
	try:
		r = f(*args, **kwargs)
		str(type(r)), c32.attempt(repr, r), c32.attempt(str, r), c32.attempt(hash, r)
	except Exception as e:
		# Python complains when an exception has been forgotten
		mc.check("without setting an exception" not in str(e) and "exception set" not in str(e), lambda : "python: %s: %s" % (what, e))
		mc.state(what, type(e).__name__)
		return e
	mc.state(what, type(r).__name__)
	return r

FUNCTIONS = {
	"repr" : repr, "str" : str, "hash" : hash, "bool" : bool, "iter" : iter, "next" : next, "len" : len, "list" : lambda o : list(itertools.islice(o, 5)), "dir" : dir, "sizeof" : sys.getsizeof,
	"copy" : copy.copy, "deepcopy" : copy.deepcopy, "pickle" : lambda o : pickle.dumps(o), "pickle0" : lambda o : pickle.dumps(o, 0), "format" : "{}".format, "vars" : vars, "int" : int, "fspath" : os.fspath,
	"set" : lambda o : { o }, "contains" : lambda o : 1 in o, "item" : lambda o : o[0], "call" : lambda o : o(), "index" : operator.index, "collect" : lambda o : gc.collect(0), "class" : lambda o : setattr(o, "__class__", int),
}
COMPARE = { "eq" : operator.eq, "ne" : operator.ne, "lt" : operator.lt, "le" : operator.le, "gt" : operator.gt, "ge" : operator.ge, "in" : lambda a, b : a in [b], "add" : operator.add }
KWARGS = {
	"search_networks" : [dict(country_codes=["DE"]), dict(asns=[1], flatten=True), dict(family=socket.AF_INET), dict(flags=1), dict(country_codes=[None]), dict(asns=[None]), dict(x=1)],
	"list_bogons" : [dict(family=socket.AF_INET6), dict(family="x"), dict(x=1)],
	"reverse_pointer" : [dict(suffix="x"), dict(suffix=None), dict(suffix=5), dict(x=1)],
}

def names(T):
	return sorted(n for n in dir(T) if n not in ("__class__", "__doc__", "__dir__", "__sizeof__", "__subclasshook__", "__init_subclass__", "__getstate__", "__format__"))

def initialised(c, kind):
	return kind not in RAW + ("object",)

def case_py(mc, arg):
	c, kind, name = arg
	T = cls(c)
	what = "%s of %s %s" % (name, c, kind)
	def new():
		return create(c, kind)
	if new() is None:
		mc.check(name not in names(object) or True, "")
		mc.note("cannot be created")
		return
	V = values(mc.thorough)
	if name == "functions":
		for k, f in FUNCTIONS.items():
			run_op(mc, "%s() of %s %s" % (k, c, kind), f, new())
		for k, f in COMPARE.items():
			for v in V + [new()]:
				run_op(mc, "%s of %s %s and %s" % (k, c, kind, type(v).__name__), f, new(), v)
				run_op(mc, "%s of %s and %s %s" % (k, type(v).__name__, c, kind), f, v, new())
		return
	# The value, and as found in the type
	r = run_op(mc, what, getattr, new(), name)
	d = getattr(T, name)
	if hasattr(d, "__get__"):
		run_op(mc, what, lambda : d.__get__(new(), T))
	for v in V:
		run_op(mc, "setting " + what, setattr, new(), name, v)
		if not name.startswith("__") and hasattr(d, "__set__"):
			run_op(mc, "setting " + what, d.__set__, new(), v)
	run_op(mc, "deleting " + what, delattr, new(), name)
	if name in ("__new__", "__reduce__", "__reduce_ex__"):
		return
	if callable(d):
		tuples = [()] + [(v,) for v in V] + ([(a, b) for a in V for b in V] if mc.thorough or name in ("search_networks", "__init__") else [(v, v) for v in V])
		for t in tuples:
			o = new()
			run_op(mc, "calling " + what, getattr(o, name), *t)
			# It has to be usable, or to say that it is not
			run_op(mc, "using what %s left" % what, facts, c, o)
		for t in [(v,) for v in V]:
			run_op(mc, "calling %s with other objects" % what, d, *t)
			run_op(mc, "calling %s with other objects" % what, d, *(t + t))
		for kw in KWARGS.get(name, [dict(x=1)]):
			run_op(mc, "calling " + what, getattr(new(), name), **kw)
	mc.note("Python: " + what)

# Objects that have been initialised in one way or another, in any order, are like new ones
def case_py_init(mc, arg):
	c, seq = arg
	T = cls(c)
	good, bad = inits(c)
	fresh = [facts(c, T(*g)) for g in good]
	bad = bad[:3]
	o = T.__new__(T)
	current = None
	for i in seq:
		mc.ops()
		r = attempt(o.__init__, *(good + bad)[i])
		if i < len(good):
			mc.check(not isinstance(r, Exception), lambda : "python: initialising a %s after %s: %r" % (c, seq, r))
			current = i
		else:
			mc.check(isinstance(r, Exception), lambda : "python: %s%r does not fail" % (c, (good + bad)[i]))
		if current is None:
			r = attempt(facts, c, o)
			mc.check(isinstance(r, Exception), lambda : "python: a %s that has not been initialised is %r" % (c, r))
		else:
			mc.equal(facts(c, o), fresh[current], lambda : "python: a %s initialised by %s" % (c, [(good + bad)[j] for j in seq]))
	mc.state(c, current)
	def again():
		x = T.__new__(T)
		for i in seq:
			c32.attempt(x.__init__, *(good + bad)[i])
	c32.measure(mc, "initialising a %s by %s" % (c, seq), again)
	mc.note("Python: a %s initialised by %s" % (c, [(good + bad)[j] for j in seq]))

# Enumerators, networks and so on survive whatever happens to the database they come from
def case_py_again(mc, attr):
	db = location.Database(path(1))
	want = [str(x) for x in getattr(db, attr)]
	for k in range(4):
		for second in ([path(3)], [path(NAMES.index("leaf"))], ["missing"], []):
			db = location.Database(path(1))
			e = getattr(db, attr)
			got = [str(x) for x in itertools.islice(e, k)]
			objects = list(itertools.islice(getattr(db, attr), k))
			c32.attempt(db.__init__, *second)
			got += [str(x) for x in e]
			mc.ops()
			mc.equal(got, want, lambda : "python: %s of a database that has been initialised again" % attr)
			mc.equal([str(o) for o in objects], want[:k], lambda : "python: objects of a database that has been initialised again")
			mc.state(attr, k, *second)
	mc.note("Python: %s of a database that is initialised again" % attr)

def attempt(f, *args):
	try:
		return f(*args)
	except Exception as e:
		return e

# ---- Memory runs out ----

oom = None

def setup_oom():
	global oom
	if oom is None:
		oom = ctypes.CDLL(os.path.join(BUILD, "liboom.so"))
		if oom.oom_python():
			raise pymc.HarnessError("cannot replace Python's allocators")

# Executes f while the n-th allocation fails; returns the result, and whether any has failed
def starve(f, n, burst):
	arm, disarm = oom.oom_arm, oom.oom_disarm
	r = None
	try:
		try:
			arm(n, burst)
			r = f()
		except Exception as e:
			r = e
			e.__traceback__ = e.__context__ = None
	except MemoryError as e:
		r = e
		e.__traceback__ = e.__context__ = None
	while True:
		try:
			return r, disarm()
		except MemoryError:
			pass

def nets(l):
	return [(str(n), n.country_code, n.asn) for n in l]

# Operations: what prepares them, what is executed, what it has to give
def operations():
	L = location
	p = path(1)
	key = open(os.path.join(DATA, "good"))
	pub = open(os.path.join(DATA, "good.pub"))
	def opened():
		return L.Database(p)
	def network():
		return L.Network("10.0.0.0/8")
	def rewind(f):
		f.seek(0)
		return f
	def writer():
		w = L.Writer()
		w.vendor, w.description, w.license = "Vendor", "Description", "License"
		for n in DBS[1].networks:
			x = w.add_network(str(n))
			if n.cc:
				x.country_code = n.cc
			x.asn = n.asn or 1
		for number, name in DBS[1].ases:
			w.add_as(number).name = name
		for code, continent, name in DBS[1].countries:
			w.add_country(code).name = name
		return w
	out = os.path.join(SCRATCH, "out%d" % os.getpid())
	def written(w):
		w.write(out)
		return w
	def content(w):
		d = L.Database(out)
		return d.vendor, nets(d.networks), [str(a) for a in d.ases], [str(c) for c in d.countries]
	def setter(make, attr, v):
		return (make, lambda o : (setattr(o, attr, v), o)[1], lambda o : str(getattr(o, attr)))
	nothing = lambda : None
	return {
		"Network" : (nothing, lambda _ : L.Network("10.1.0.0/16"), c20.py_net),
		"bad Network" : (nothing, lambda _ : L.Network("10.1.0.0/99"), None),
		"AS" : (nothing, lambda _ : L.AS(4294967295), c20.py_as),
		"Country" : (nothing, lambda _ : L.Country("DE"), c20.py_country),
		"bad Country" : (nothing, lambda _ : L.Country("de"), None),
		"valid" : (nothing, lambda _ : L.country_code_is_valid("DE"), bool),
		"Database" : (nothing, lambda _ : L.Database(p), lambda d : facts("Database", d)),
		"bad Database" : (nothing, lambda _ : L.Database(os.path.join(DATA, "magic")), None),
		"missing Database" : (nothing, lambda _ : L.Database(os.path.join(DATA, "missing")), None),
		"Writer" : (nothing, lambda _ : L.Writer(), lambda w : facts("Writer", w)),
		"signing Writer" : (nothing, lambda _ : L.Writer(rewind(key), None), lambda w : facts("Writer", w)),
		"lookup" : (opened, lambda d : d.lookup("10.1.2.3"), c20.py_net),
		"lookup6" : (opened, lambda d : d.lookup("2001:db8::1"), c20.py_net),
		"bad lookup" : (opened, lambda d : d.lookup("10.1.2"), None),
		"get_as" : (opened, lambda d : d.get_as(64512), c20.py_as),
		"no get_as" : (opened, lambda d : d.get_as(64513), c20.py_as),
		"get_country" : (opened, lambda d : d.get_country("DE"), c20.py_country),
		"no get_country" : (opened, lambda d : d.get_country("NL"), c20.py_country),
		"metadata" : (opened, lambda d : (d.vendor, d.description, d.license, d.created_at, repr(d)), repr),
		"verify" : (opened, lambda d : d.verify(rewind(pub)), None),
		"networks" : (opened, lambda d : nets(d.networks), repr),
		"networks_flattened" : (opened, lambda d : nets(d.networks_flattened), repr),
		"ases" : (opened, lambda d : [(a.number, a.name) for a in d.ases], repr),
		"countries" : (opened, lambda d : [(c.code, c.name) for c in d.countries], repr),
		"bogons" : (opened, lambda d : nets(itertools.islice(d.list_bogons(family=socket.AF_INET), 10)), repr),
		"search_as" : (opened, lambda d : [(a.number, a.name) for a in d.search_as("n")], repr),
		"search_networks" : (opened, lambda d : nets(d.search_networks(country_codes=["DE", "FR"], asns=[64512, 4294967295], flatten=True)), repr),
		"search by country" : (opened, lambda d : nets(d.search_networks(country_codes=["DE", "US"])), repr),
		"search by flags" : (opened, lambda d : nets(d.search_networks(flags=1, family=socket.AF_INET)), repr),
		"bad search" : (opened, lambda d : nets(d.search_networks(country_codes=["DE", "x"])), None),
		"str" : (network, str, repr),
		"attributes" : (network, lambda n : (n.country_code, n.asn, n.family, n.first_address, n.last_address, n._first_address, n._last_address, n.has_flag(1)), repr),
		"exclude" : (network, lambda n : [str(x) for x in n.exclude(L.Network("10.1.0.0/16"))], repr),
		"exclude all" : (network, lambda n : n.exclude(n), repr),
		"exclude nothing" : (network, lambda n : n.exclude(L.Network("11.0.0.0/8")), lambda l : [str(n) for n in l]),
		"reverse_pointer" : (network, lambda n : n.reverse_pointer(), repr),
		"reverse_pointer 6" : (lambda : L.Network("2001:db8::/32"), lambda n : n.reverse_pointer(suffix="x"), repr),
		"no reverse_pointer" : (lambda : L.Network("10.0.0.0/9"), lambda n : n.reverse_pointer(), repr),
		"compare" : (network, lambda n : (n == network(), n < L.Network("11.0.0.0/8"), n.is_subnet_of(n)), repr),
		"set country_code" : setter(network, "country_code", "DE"),
		"set asn" : setter(network, "asn", 4294967295),
		"set AS name" : setter(lambda : L.AS(5), "name", "Ünïcode"),
		"set country name" : setter(lambda : L.Country("DE"), "name", "Deutschland"),
		"set continent" : setter(lambda : L.Country("DE"), "continent_code", "EU"),
		"AS strings" : (lambda : L.Database(p).get_as(64512), lambda a : (str(a), repr(a), hash(a), a.name), repr),
		"country strings" : (lambda : L.Database(p).get_country("DE"), lambda c : (str(c), repr(c), hash(c), c.name, c.continent_code), repr),
		"set vendor" : setter(L.Writer, "vendor", "A Vendor"),
		"set description" : setter(writer, "description", "Another description"),
		"set license" : setter(writer, "license", "License"),
		"add_network" : (writer, lambda w : str(w.add_network("10.77.0.0/16")), repr),
		"add_network again" : (writer, lambda w : w.add_network("10.1.0.0/16"), None),
		"add_as" : (writer, lambda w : str(w.add_as(4711)), repr),
		"add_country" : (writer, lambda w : str(w.add_country("NL")), repr),
		"write" : (writer, written, content),
		"write nowhere" : (writer, lambda w : w.write("/nonexistent/x"), None),
		"init again" : (opened, lambda d : (d.__init__(path(3)), d)[1], lambda d : facts("Database", d)),
	}
OPERATIONS = ["Network", "bad Network", "AS", "Country", "bad Country", "valid", "Database", "bad Database", "missing Database", "Writer", "signing Writer", "lookup", "lookup6", "bad lookup", "get_as", "no get_as",
	"get_country", "no get_country", "metadata", "verify", "networks", "networks_flattened", "ases", "countries", "bogons", "search_as", "search_networks", "search by country", "search by flags", "bad search", "str",
	"attributes", "exclude", "exclude all", "exclude nothing", "reverse_pointer", "reverse_pointer 6", "no reverse_pointer", "compare", "set country_code", "set asn", "set AS name", "set country name", "set continent",
	"AS strings", "country strings", "set vendor", "set description", "set license", "add_network", "add_network again", "add_as", "add_country", "write", "write nowhere", "init again"]

def case_py_oom(mc, arg):
	name, burst = arg
	setup_oom()
	ops = operations()
	if list(ops) != OPERATIONS:
		raise pymc.HarnessError("the operations have changed")
	make, op, describe = ops[name]
	want = attempt(lambda : op(make()))
	fails = isinstance(want, Exception)
	if not fails and describe:
		want = describe(want)
	if fails != (describe is None and name != "verify"):
		raise pymc.HarnessError("%s: %r" % (name, want))
	n = misses = 0
	while misses < 3:
		o = make()
		r, fired = starve(lambda : op(o), n, burst)
		mc.ops()
		if not fired:
			misses += 1
		if isinstance(r, Exception):
			if not fails:
				mc.check(fired, lambda : "python: %s fails on its own: %r" % (name, r))
			# Python itself loses some when it has run out of memory
			mc.check(fired == 2 or "without setting an exception" not in str(r) and "exception set" not in str(r), lambda : "python: %s without memory (%d): %r" % (name, n, r))
			mc.state(name, n, type(r).__name__)
		else:
			# What cannot be verified is not valid
			if name == "verify" and r is False:
				r = True
			mc.check(not fails, lambda : "python: %s succeeds when memory runs out (%d): %r" % (name, n, r))
			mc.equal(describe(r) if describe else r, want, lambda : "python: %s without memory (%d)" % (name, n))
			mc.state(name, n, "right")
		# What has been used in vain still works
		del r
		if name not in ("add_network", "add_network again", "write nowhere", "set vendor", "set description", "set license"):
			again = attempt(lambda : op(o))
			if fails or name in ("add_as", "add_country"):
				pass
			else:
				mc.check(not isinstance(again, Exception), lambda : "python: %s fails after memory had run out (%d): %r" % (name, n, again))
				mc.equal(describe(again) if describe else again, want, lambda : "python: %s after memory had run out (%d)" % (name, n))
			del again
		del o
		if fired and (n < 60 or n % 8 == 0 or mc.thorough):
			def f():
				x = make()
				starve(lambda : op(x), n, burst)
			c32.measure(mc, "%s without memory (%d)" % (name, n), f)
		n += 1
	mc.note("Python: %s, with any one of %d allocations failing" % (name, n - misses))

# ---- Lua and Perl ----

def script(mc, cmd, env, what):
	p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **env), cwd=SCRATCH, timeout=60)
	out = p.stdout.decode("utf-8", "replace").splitlines()
	mc.check(p.returncode == 0 and out and out[-1] == "end", lambda : "%s ends with %s: %s %s" % (what, p.returncode, out[-3:], p.stderr[-300:]))
	for line in out:
		w = line.split()
		if w[:1] == ["ops"]:
			mc.ops(int(w[1]))
		elif w[:1] == ["fail"]:
			mc.fail("%s: %s" % (what, line[5:]))
		elif line:
			mc.state(what, line)
	mc.note(what)

def case_lua(mc, arg):
	script(mc, ["lua5.4", os.path.join(HERE, "misuse.lua"), DATA, str(int(mc.thorough))] + list(arg), { "LUA_CPATH" : os.path.join(BUILD, "lua", "?.so") }, "Lua: %s" % " ".join(arg))

def case_lua_oom(mc, _):
	script(mc, ["lua5.4", os.path.join(HERE, "oom.lua"), DATA, str(int(mc.thorough))], { "LUA_CPATH" : os.path.join(BUILD, "lua", "?.so") }, "Lua, with any one allocation failing")

def case_perl_oom(mc, _):
	script(mc, ["perl", "-I" + os.path.join(BUILD, "perl"), os.path.join(HERE, "oom.pl"), DATA, str(int(mc.thorough))], { "LIBOOM" : os.path.join(BUILD, "liboom.so") }, "Perl, with any one allocation failing")

def case_perl(mc, arg):
	script(mc, ["perl", "-I" + os.path.join(BUILD, "perl"), os.path.join(HERE, "misuse.pl"), DATA, str(int(mc.thorough))] + list(arg), {}, "Perl: %s" % " ".join(arg))

LUA_KINDS = ["Database", "Enumerator", "Network", "AS", "Country"]
PERL_OPS = ["get_vendor", "get_description", "get_license", "verify", "database_countries", "lookup_country_code", "lookup_network_has_flag", "lookup_asn", "get_country_name", "get_continent_code", "get_as_name", "DESTROY", "init"]
PERL_KINDS = ["ok", "destroyed", "copy", "undef", "number", "string", "scalar", "ref", "array", "blessed", "zero", "code", "glob", "end"]

SCRATCH = None

def init(mc):
	global location, SCRATCH
	c32.init(mc)
	location = c32.location
	SCRATCH = pymc.scratch()
	os.chdir(SCRATCH)
	# Nothing is to be read from other files
	f = os.open("/dev/null", os.O_RDWR)
	os.dup2(f, 0)
	os.close(f)

def cases(thorough):
	out = []
	for c in CLASSES:
		for kind in KINDS[c]:
			out += [("py", (c, kind, n)) for n in ["functions"] + NAMES_OF[c]]
		if c != "Enumerator":
			out += [("py_init", (c, seq)) for n in range(1, 5 if thorough else 4) for seq in itertools.product(range(5), repeat=n)]
	out += [("py_again", x) for x in ("networks", "networks_flattened", "ases", "countries")]
	out += [("py_oom", (x, burst)) for burst in ((1, 2, 5) if thorough else (1,)) for x in OPERATIONS]
	out += [("lua_oom", 0), ("perl_oom", 0)]
	out += [("lua", (k, state)) for k in LUA_KINDS for state in ("ok", "closed", "other")] + [("lua", ("exit", k)) for k in LUA_KINDS]
	out += [("lua", ("functions", str(i))) for i in range(3)]
	out += [("perl", (op, kind)) for op in PERL_OPS for kind in PERL_KINDS]
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	if not os.path.exists(os.path.join(DATA, "garbage")):
		c20.prepare()
	import location
	NAMES_OF = { c : names(cls(c)) for c in CLASSES }
	pymc.main("C34", cases, run, init, roots=None)
