"""C22: an update installs only a complete, verified and newer database"""
import ctypes, email.message, email.utils, errno, hashlib, http.client, io, lzma, os, shutil, socket, sys, time, urllib.error, urllib.request
import pymc, locfile, cli
from locfile import Net, Content

BUILD = os.environ["VERIF_BUILD"]
DATA = os.path.join(BUILD, "data")

T1, T2, T3, T4 = 1000000000, 1200000000, 1400000000, 1600000000
VERSIONS = (T1, T2, T3 - 1, T3, T4)

def noise(n, seed):
	out = ""
	while len(out) < n:
		seed = hashlib.sha256(seed.encode()).hexdigest()
		out += seed
	return out[:n]

def content(t, extra=0):
	return Content([Net("10.0.0.0/8", "DE", t & 0xffff), Net("2001:db8::/32", "FR", 5)], [(5, "Five")], [("DE", "EU", "Germany")],
		"Vendor %d" % t, noise(5000 + extra, str(t)), "License", t)

def prepare():
	os.makedirs(DATA, exist_ok=True)
	for k in ("good", "other"):
		locfile.keypair(os.path.join(DATA, k))
	good, other = os.path.join(DATA, "good"), os.path.join(DATA, "other")
	def save(name, data):
		with open(os.path.join(DATA, name), "wb") as f:
			f.write(data)
	for t in VERSIONS:
		save("db%d" % t, locfile.sign(content(t).encode(), good, 1 if t == T4 else 0))
	save("unsigned", content(T4, 9000).encode())
	save("otherkey", locfile.sign(content(T4, 7000).encode(), other))
	d = bytearray(locfile.sign(content(T4, 3000).encode(), good))
	d[4100 + 4096 + 20] ^= 4
	save("tampered", bytes(d))

def read(name):
	with open(os.path.join(DATA, name), "rb") as f:
		return f.read()

def xz(data):
	return lzma.compress(data, preset=1)

# What a mirror may do: (name, body or exception, version that it serves correctly, whether this may be accepted)
class Mirror(object):
	def __init__(self, name, body=None, status=200, error=None, breaks=None, chunk=None, version=None, either=False, honest=False):
		self.name, self.body, self.status, self.error = name, body, status, error
		self.breaks, self.chunk, self.version, self.either, self.honest = breaks, chunk, version, either, honest

def mirrors():
	good = { t : xz(read("db%d" % t)) for t in VERSIONS }
	best = good[T4]
	flipped = bytearray(best)
	flipped[len(best) // 2] ^= 16
	out = [Mirror("good %d" % t, good[t], version=t) for t in VERSIONS]
	out += [Mirror("honours If-Modified-Since, %d" % t, good[t], version=t, honest=True) for t in (T3, T4)]
	out += [Mirror("sends %d in small pieces" % T4, best, chunk=97, version=T4)]
	out += [Mirror("HTTP %d" % s, status=s) for s in (304, 404, 503)]
	out += [
		Mirror("cannot be resolved", error=lambda : urllib.error.URLError(socket.gaierror(-2, "Name or service not known"))),
		Mirror("refuses", error=lambda : urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))),
		Mirror("resets at once", error=lambda : ConnectionResetError(104, "Connection reset by peer")),
		Mirror("times out", error=lambda : TimeoutError("timed out")),
		Mirror("hangs up", error=lambda : http.client.RemoteDisconnected("Remote end closed connection without response")),
		Mirror("sends nonsense", error=lambda : http.client.BadStatusLine("nonsense")),
		Mirror("resets in the middle", best, breaks=(len(best) // 2, lambda : ConnectionResetError(104, "Connection reset by peer"))),
		Mirror("is incomplete in the middle", best, breaks=(len(best) // 3, lambda : http.client.IncompleteRead(b"", 1000))),
		Mirror("times out after all data but the last byte", best, breaks=(len(best) - 1, lambda : TimeoutError("timed out"))),
		Mirror("makes the user interrupt it", best, breaks=(len(best) // 2, lambda : KeyboardInterrupt())),
		Mirror("ends in the middle", best[:len(best) // 2]),
		Mirror("ends before the last block", best[:-40], either=T4),
		Mirror("sends nothing", b""),
		Mirror("sends a web page", b"<html><body>Please log in</body></html>\n" * 200),
		Mirror("sends an uncompressed database", read("db%d" % T4)),
		Mirror("sends a damaged file", bytes(flipped)),
		Mirror("sends more than that", best + b"x" * 3000, either=T4),
		Mirror("sends an unsigned database", xz(read("unsigned"))),
		Mirror("sends a database signed with another key", xz(read("otherkey"))),
		Mirror("sends a database changed after signing", xz(read("tampered"))),
		Mirror("sends an empty file", xz(b"")),
		Mirror("sends a database cut short", xz(read("db%d" % T4)[:-5000])),
		Mirror("sends the beginning of a database", xz(read("db%d" % T4)[:100])),
		Mirror("sends something else", xz(b"x" * 50000)),
	]
	return out

class Response(object):
	def __init__(self, m):
		self.m, self.at = m, 0
		self.code = self.status = 200
		self.reason = "OK"
		self.headers = email.message.Message()
		self.headers["Content-Type"] = "application/x-xz"
		self.closed = False

	def getheaders(self):
		return list(self.headers.items())

	def getheader(self, name, default=None):
		return self.headers.get(name, default)

	def info(self):
		return self.headers

	def read(self, n=-1):
		m = self.m
		if n is None or n < 0:
			n = len(m.body)
		if m.chunk:
			n = min(n, m.chunk)
		if m.breaks:
			at, e = m.breaks
			if self.at >= at:
				raise e()
			n = min(n, at - self.at)
		data = m.body[self.at:self.at + n]
		self.at += len(data)
		return data

	def read1(self, n=-1):
		return self.read(n)

	def readinto(self, b):
		data = self.read(len(b))
		b[:len(data)] = data
		return len(data)

	def readable(self):
		return True

	def close(self):
		self.closed = True

	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.close()

class World(object):
	"""The network as the update sees it"""
	def __init__(self, choose, announced):
		self.choose, self.announced, self.log = choose, announced, []
		self.asked = 0
		self.hosts = []

	def discover(self, *args):
		self.asked += 1
		return self.announced

	def urlopen(self, req, *args, **kwargs):
		url = req if isinstance(req, str) else req.full_url
		headers = {} if isinstance(req, str) else { k.lower() : v for k, v in req.header_items() }
		if not url.endswith("/location.db.xz"):
			raise pymc.Violation("the update requests %s" % url)
		self.hosts.append(url.split("/")[2])
		# There is no proxy
		if hasattr(req, "host") and (req.host != url.split("/")[2] or req.has_proxy()):
			raise pymc.Violation("the request for %s is sent to %s" % (url, req.host))
		m = self.choose()
		self.log.append(m)
		if m.error:
			raise m.error()
		status = m.status
		if m.honest:
			since = headers.get("if-modified-since")
			if since:
				d = email.utils.parsedate_to_datetime(since)
				if d.timestamp() >= m.version + 60:
					status = 304
		if status != 200:
			raise urllib.error.HTTPError(url, status, "Error", email.message.Message(), io.BytesIO(b""))
		return Response(m)

def init(mc):
	global location, shim, ALL, BYNAME, OLD, scratch
	import location, location.downloader
	cli.quiet()
	shim = ctypes.CDLL(None)
	shim.shim_op.restype = ctypes.c_char_p
	shim.shim_set.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long]
	shim.shim_count.restype = ctypes.c_long
	ALL = mirrors()
	BYNAME = { m.name : m for m in ALL }
	scratch = pymc.scratch()

def installed_data(which):
	if which is None:
		return None
	if which == "broken":
		return b"LOCDBXX\1" + b"\xff" * 300
	if which == "empty":
		return b""
	return read("db%d" % which)

def setup(which):
	d = os.path.join(scratch, "d")
	shutil.rmtree(d, ignore_errors=True)
	os.mkdir(d)
	p = os.path.join(d, "location.db")
	data = installed_data(which)
	if data is not None:
		with open(p, "wb") as f:
			f.write(data)
	return d, p, data

def update(w, p, n, *args, cwd=None):
	"""Runs location update with n mirrors"""
	location.discover_latest_version = w.discover
	urllib.request.urlopen = w.urlopen
	location.downloader.MIRRORS = tuple("https://mirror%d.example.org/databases/" % i for i in range(n))
	return cli.run(["--quiet", "-d", p, "-k", os.path.join(DATA, "good.pub"), "update"] + list(args))

def current(p):
	try:
		with open(p, "rb") as f:
			return f.read()
	except FileNotFoundError:
		return None

def acceptable(m, which, announced):
	"""True, False, or None if this is not defined"""
	v = m.version or m.either
	if not v:
		return False
	if announced and v < announced:
		return False
	if which in VERSIONS and v < which:
		return False
	return None if m.either else True

def judge(mc, what, w, d, p, which, old, n, r, left=True):
	"""Compares the outcome with what has to be"""
	now = current(p)
	mc.ops(1 + len(w.log))
	interrupted = w.log and w.log[-1].breaks and "interrupt" in w.log[-1].name
	mc.check(r.exception is None or interrupted, lambda : "%s: %s" % (what(), cli.traceback_of(r.exception)))
	if left:
		mc.equal(sorted(os.listdir(d)), ["location.db"] if now is not None else [], lambda : "%s: files" % what())
	# Nothing to do?
	if which in VERSIONS and w.announced and which >= w.announced:
		mc.check(now == old, lambda : "%s: replaces the latest database" % what())
		mc.check(r.code in (0, 3), lambda : "%s: exits with %s" % (what(), r.code))
		return
	if interrupted:
		mc.check(now == old, lambda : "%s: installed %s" % (what(), describe(now, old)))
		mc.check(r.code != 0, lambda : "%s: exits with %s" % (what(), r.code))
		return
	mc.check(len(set(w.hosts)) == len(w.hosts), lambda : "%s: a mirror has been asked twice" % what())
	result = None
	for i, m in enumerate(w.log):
		a = acceptable(m, which, w.announced)
		last = i == len(w.log) - 1
		if a is True:
			mc.check(last, lambda : "%s: a good database has not been used" % what())
		if last:
			if a is True or (a is None and r.code == 0):
				result = read("db%d" % (m.version or m.either))
			elif len(w.log) < n:
				mc.fail("%s: gave up after %d of %d mirrors with exit code %s: %s" % (what(), len(w.log), n, r.code, r.err))
	mc.check(w.log or n == 0, lambda : "%s: no mirror has been asked; exit code %s: %s" % (what(), r.code, r.err))
	if result is not None:
		mc.check(r.code == 0, lambda : "%s: exits with %s: %s" % (what(), r.code, r.err))
		mc.check(now == result, lambda : "%s: installed %s" % (what(), describe(now, old)))
		mc.check(os.stat(p).st_mode & 0o444 == 0o444, lambda : "%s: the database cannot be read by everyone" % what())
	else:
		mc.check(now == old, lambda : "%s: installed %s" % (what(), describe(now, old)))
		mc.check(r.code not in (0, None), lambda : "%s: exits with %s" % (what(), r.code))
	mc.state(which, w.announced, [m.name for m in w.log], r.code)

def describe(data, old):
	if data is None:
		return "nothing"
	if data == old:
		return "the previous database"
	for t in VERSIONS:
		if data == read("db%d" % t):
			return "the database of %d" % t
	return "something else (%d bytes)" % len(data)

# All sequences of behaviours
def case_mirrors(mc, arg):
	which, announced, n, first, relative = arg
	d, p, old = setup(which)
	w = World(lambda : ALL[first] if not w.log else mc.pick(ALL), announced)
	shim.shim_set(scratch.encode() + b"/", p.encode(), -1, 0, 0, -1)
	if relative:
		cwd = os.getcwd()
		os.chdir(d)
	try:
		r = update(w, "location.db" if relative else p, n)
	finally:
		if relative:
			os.chdir(cwd)
		shim.shim_set(b"", b"", -1, 0, 0, -1) if False else None
	torn = shim.shim_torn()
	shim.shim_set(b"", b"", -1, 0, 0, -1)
	what = lambda : "update of %s with %s announced, mirrors: %s" % (which, announced, "; ".join(m.name for m in w.log))
	judge(mc, what, w, d, p, which, old, n, r)
	mc.check(not torn, lambda : "%s: a power loss would leave an incomplete database" % what())
	mc.note(what())

# The process is ended, or an operation fails, at any time
SCENARIOS = [
	["good %d" % T4],
	["sends an unsigned database", "good %d" % T4],
	["resets in the middle", "sends something else", "good %d" % T3],
	["sends %d in small pieces" % T4],
	["HTTP 404", "sends a damaged file", "sends a database cut short"],
]

def case_crash(mc, arg):
	which, announced, names, how = arg
	n = len(names)
	def go(at, mode, error, cut):
		d, p, old = setup(which)
		queue = [BYNAME[x] for x in names]
		w = World(lambda : queue.pop(0), announced)
		shim.shim_set(scratch.encode() + b"/", p.encode(), at, mode, error, cut)
		r = update(w, p, n)
		return d, p, old, w, r
	d, p, old, w, r = go(-1, 0, 0, -1)
	total = shim.shim_count()
	shim.shim_set(b"", b"", -1, 0, 0, -1)
	what = lambda : "update of %s with %s announced, mirrors: %s" % (which, announced, "; ".join(names))
	judge(mc, what, w, d, p, which, old, n, r)
	if total == 0:
		raise pymc.HarnessError("no operations have been seen")
	good = [read("db%d" % v) for m in (BYNAME[x] for x in names) for v in [m.version or m.either] if acceptable(m, which, announced) is not False]
	# All operations are tried one after the other; there is one more decision for each of them
	at = mc.choose(total)
	kind, cut = how
	if kind == "kill":
		d, p, old = setup(which)
		sys.stdout.flush()
		pid = os.fork()
		if not pid:
			try:
				go(at, 1, 0, cut)
			finally:
				os._exit(0)
		_, status = os.waitpid(pid, 0)
		if os.waitstatus_to_exitcode(status) not in (99, 0):
			raise pymc.HarnessError("%s: child ended with %s" % (what(), status))
		op = "killed at operation %d" % at
		now = current(p)
		mc.ops()
		mc.check(now == old or now in good, lambda : "%s: %s, leaves %s" % (what(), op, describe(now, old)))
		mc.state("kill", which, names, describe(now, old))
		# The next update recovers
		w = World(lambda : BYNAME["good %d" % T4], T4)
		r = update(w, p, 1)
		mc.check(r.code == 0 and current(p) == read("db%d" % T4), lambda : "%s: %s, the next update exits with %s: %s" % (what(), op, r.code, r.err or r.exception))
	else:
		d, p, old, w, r = go(at, 2, kind, cut)
		op, torn = shim.shim_op().decode(), shim.shim_torn()
		shim.shim_set(b"", b"", -1, 0, 0, -1)
		now = current(p)
		mc.ops()
		text = lambda : "%s: error %s at operation %d (%s)" % (what(), errno.errorcode[kind], at, op)
		mc.check(r.exception is None, lambda : "%s: %s" % (text(), cli.traceback_of(r.exception)))
		mc.check(now == old or now in good, lambda : "%s leaves %s" % (text(), describe(now, old)))
		mc.check(r.code != 0 or now in good, lambda : "%s: reported as a success, though nothing was installed" % text())
		mc.check(r.code == 0 or now == old, lambda : "%s: reported as failure %s, though %s has been installed" % (text(), r.code, describe(now, old)))
		if not op.startswith("unlink"):
			mc.equal(sorted(os.listdir(d)), ["location.db"] if now is not None else [], lambda : "%s: files" % text())
		if not op.startswith("rename"):
			mc.check(not torn, lambda : "%s: a power loss would leave an incomplete database" % text())
		mc.state("fail", which, names, op, describe(now, old))
	mc.note("%s; %s at operation %d of %d" % (what(), how, at, total))

# Updates that are not due
def case_cron(mc, arg):
	interval, days = arg
	d, p, _ = setup(None)
	now = int(time.time())
	for age in (-3600, 0, 3600, days * 86400 - 3600, days * 86400 + 3600, days * 86400 * 2 + 5, 86400 * 400):
		c = Content([Net("10.0.0.0/8", "DE")], created_at=now - age)
		with open(p, "wb") as f:
			f.write(c.encode())
		old = current(p)
		w = World(lambda : BYNAME["HTTP 503"], now + 7200)
		r = update(w, p, 1, "--cron", interval)
		mc.ops()
		due = age >= days * 86400
		mc.equal((bool(w.log), r.code, current(p) == old), (due, 1 if due else 3, True), "update --cron %s of a database that is %d s old (requested?, exit code, unchanged?)" % (interval, age))
		mc.state("cron", interval, age, r.code)
	os.unlink(p)
	w = World(lambda : BYNAME["good %d" % T4], T4)
	r = update(w, p, 1, "--cron", interval)
	mc.check(r.code == 0 and current(p) == read("db%d" % T4), "update --cron %s without a database exits with %s" % (interval, r.code))
	mc.note("update --cron %s" % interval)

# Keys that cannot be used
def case_key(mc, arg):
	which, key = arg
	d, p, old = setup(which)
	w = World(lambda : BYNAME["good %d" % T4], T4)
	location.discover_latest_version = w.discover
	urllib.request.urlopen = w.urlopen
	location.downloader.MIRRORS = ("https://mirror0.example.org/databases/", "https://mirror1.example.org/databases/")
	r = cli.run(["--quiet", "-d", p, "-k", os.path.join(DATA, key), "update"])
	mc.ops()
	what = "update with the key %s" % key
	mc.check(r.exception is None, lambda : "%s: %s" % (what, cli.traceback_of(r.exception)))
	mc.check(r.code not in (0, None), lambda : "%s exits with %s" % (what, r.code))
	mc.check(current(p) == old, lambda : "%s installs %s" % (what, describe(current(p), old)))
	mc.equal(sorted(os.listdir(d)), ["location.db"] if old is not None else [], "%s: files" % what)
	mc.note(what)

def cases(thorough):
	out = []
	n = len(mirrors())
	for which in (None, T2, T3, "broken", "empty"):
		for announced in (None, T2, T3, T4):
			out += [("mirrors", (which, announced, 3 if thorough else 2, i, False)) for i in range(n)]
	for which, announced in ((T2, T3), (None, None)):
		out += [("mirrors", (which, announced, 3, i, True)) for i in range(n)] if thorough else []
	out += [("mirrors", (T2, T4, 1, i, True)) for i in range(n)]
	for which in (None, T2) + (("broken",) if thorough else ()):
		for names in SCENARIOS:
			for how in (("kill", -1), ("kill", 0), ("kill", 1), (errno.ENOSPC, -1), (errno.EIO, 1)):
				out.append(("crash", (which, T3, names, how)))
	out += [("cron", x) for x in (("daily", 1), ("weekly", 7), ("monthly", 30))]
	out += [("key", (which, k)) for which in (None, T2) for k in ("missing", "other.pub", "unsigned", ".")]
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	if not os.path.exists(os.path.join(DATA, "tampered")):
		prepare()
	os.environ["TZ"] = "XXX-9"
	time.tzset()
	pymc.main("C22", cases, run, init)
