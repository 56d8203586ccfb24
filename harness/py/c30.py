"""C30: the announcements are exactly the routes of the routing daemon"""
import datetime, ipaddress, itertools, socket
import pymc, cli, importer, fakepg
from minipg import Inet

HELLO = b"0001 BIRD 2.0.12 ready.\n"
END = b"0000 \n"

def init(mc):
	global EMPTY, REAL
	importer.setup(mc)
	EMPTY = importer.database()
	REAL = socket.socket

class Bird(object):
	"""The other end of the socket"""
	def __init__(self, mc, replies, chunks=None, eof=None, connect=None):
		"""chunks: how the stream is cut; eof: after how many bytes the connection is closed (each time)"""
		self.mc, self.replies, self.chunks, self.eof, self.refuse = mc, replies, chunks, eof, connect
		self.commands = []
		self.open = []

class Socket(object):
	def __init__(self, bird):
		self.bird, self.data, self.at, self.closed, self.ends, self.sent = bird, None, 0, False, 0, b""
		bird.open.append(self)

	def connect(self, path):
		self.bird.mc.check(path in ("/run/bird.ctl", b"/run/bird.ctl"), lambda : "connects to %r" % path)
		if self.bird.refuse:
			raise self.bird.refuse()
		self.data = HELLO
		self.cuts = None

	def send(self, data, flags=0):
		self.sent += bytes(data)
		while b"\n" in self.sent:
			command, _, self.sent = self.sent.partition(b"\n")
			command = command.decode()
			self.bird.commands.append(command)
			reply = self.bird.replies.get(command)
			self.data += b"9001 syntax error\n" if reply is None else reply
		return len(data)

	def sendall(self, data, flags=0):
		self.send(data)

	def recv(self, n, flags=0):
		if self.closed:
			raise OSError(9, "Bad file descriptor")
		if self.data is None:
			raise OSError(107, "Transport endpoint is not connected")
		end = len(self.data)
		if self.bird.eof is not None:
			end = min(end, self.bird.eof)
		if self.at >= end:
			if self.bird.eof is None:
				raise pymc.Violation("waits for more than all of the reply %r" % self.data[-200:])
			self.ends += 1
			if self.ends > 100:
				raise pymc.Violation("never notices that the connection has been closed")
			return b""
		if self.bird.chunks is not None:
			for c in self.bird.chunks:
				if c > self.at:
					end = min(end, c)
					break
		data = self.data[self.at:min(end, self.at + n)]
		self.at += len(data)
		return data

	def recv_into(self, b, nbytes=0, flags=0):
		data = self.recv(nbytes or len(b))
		b[:len(data)] = data
		return len(data)

	def makefile(self, mode="r", buffering=None, **kwargs):
		import io
		s = self
		class Raw(io.RawIOBase):
			def readable(self):
				return True
			def writable(self):
				return True
			def readinto(self, b):
				return s.recv_into(b)
			def write(self, b):
				return s.send(b)
		f = io.BufferedRWPair(Raw(), Raw()) if "w" in mode else io.BufferedReader(Raw())
		return f if "b" in mode else io.TextIOWrapper(f)

	def settimeout(self, t):
		pass

	def setblocking(self, b):
		pass

	def shutdown(self, how):
		pass

	def close(self):
		self.closed = True

	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.close()

def update(mc, bird, db=None):
	server = fakepg.start(db if db is not None else EMPTY.clone())
	def make(family=-1, type=-1, proto=-1, fileno=None):
		if family == socket.AF_UNIX and fileno is None:
			return Socket(bird)
		return REAL(family, type, proto, fileno)
	socket.socket = make
	mc.ops()
	try:
		r = importer.run(server, ["update-announcements", "/run/bird.ctl"])
	finally:
		socket.socket = REAL
	r.db = server.db
	r.rows = { repr(x["network"]) : x["autnum"] for x in server.db.rows("announcements") }
	return r

# ---- what a routing table looks like ----

def route(n, asn, first=False, origin="i", proto="bgp1", best=True, kind="unicast"):
	return "%s%-20s %s [%s 2024-01-01 from 10.0.0.1]%s (100) [%s%s]\n" % ("1007-" if first else " ", n, kind, proto, " *" if best else "", "AS%s" % asn if asn else "", origin)

def L(text, *routes, either=False):
	return (text.encode(), routes, either)

TABLE = L("1007-Table master4:\n")
LINES = [
	L(route("41.0.0.0/16", 5), ("41.0.0.0/16", 5)), L(route("41.0.0.0/16", 6, origin="e"), ("41.0.0.0/16", 6)), L(route("41.1.0.0/16", 4199999999, origin="?"), ("41.1.0.0/16", 4199999999)),
	L(route("2c0f:1::/32", 7), ("2c0f:1::/32", 7)), L(route("2c0f:1234:5678::/48", 131072), ("2c0f:1234:5678::/48", 131072)), L(route("1.0.0.0/8", 1), ("1.0.0.0/8", 1)), L(route("223.255.255.0/24", 64495, kind="blackhole"), ("223.255.255.0/24", 64495)),
	# Another way to the network before
	L(route("", 9, best=False)), L(route("41.0.0.0/16", 5) + route("", 8, best=False, proto="bgp2") + " \tvia 10.0.0.2 on eth1\n", ("41.0.0.0/16", 5)),
	L(" \tvia 10.0.0.1 on eth0\n"), L(" Table master6:\n"), L("1007-Table master6:\n"), L(" \n"), L("\n"), L(" 41.9.0.0/16          unicast [static1 2024-01-01] * (200)\n"), L(" \tdev eth0\n"),
]

# Aggregated routes: their AS has to be looked up
AGGREGATED = {
	"41.0.0.0/16" : (["64500 5 {6}"], 5), "42.0.0.0/16" : (["5 {64500}", "7 {8}"], 5), "2c0f:1::/32" : (["64500 4199999999 {7}"], 4199999999),
}

def all_of(n, paths):
	t = "1007-Table master4:\n %-20s unicast [bgp1 2024-01-01 from 10.0.0.1] * (100) [i]\n" % n
	for p in paths:
		t += "1008-\tType: BGP univ\n1012-\tBGP.origin: IGP\n \tBGP.as_path: %s\n \tBGP.next_hop: 10.0.0.1\n" % p
	return t.encode() + END

def expected(lines):
	out = {}
	for _, routes, _ in lines:
		for n, asn in routes:
			out[repr(Inet.parse(n))] = asn
	return out

def table(lines):
	return TABLE[0] + b"".join(t for t, _, _ in lines) + END

def check(mc, lines, chunks=None):
	bird = Bird(mc, { "show route" : table(lines) }, chunks)
	r = update(mc, bird)
	what = "the routing table %r, received in chunks ending at %s" % (table(lines), chunks)
	mc.check(r.exception is None and r.code == 0, lambda : "%s: %s" % (what, cli.traceback_of(r.exception) if r.exception else r.code))
	mc.equal(sorted(r.rows.items()), sorted(expected(lines).items()), "announcements after %s" % what)
	mc.state(sorted(r.rows.items()))

def case_lines(mc, arg):
	first, depth = arg
	for rest in itertools.product(range(len(LINES)), repeat=depth - 1):
		check(mc, [LINES[i] for i in (first,) + rest])
	mc.note("routing tables starting with %r, %d lines" % (LINES[first][0], depth))

SAMPLE = [LINES[0], LINES[9], LINES[2], LINES[13], LINES[3]]

def case_cut(mc, arg):
	"""Everything that is received in two or three parts"""
	size = len(HELLO + table(SAMPLE))
	for second in [None] + (list(range(arg + 1, size)) if mc.thorough else []):
		check(mc, SAMPLE, [arg] + ([second] if second else []))
	mc.note("received in parts: %d" % arg)

def case_size(mc, arg):
	size = len(HELLO + table(SAMPLE))
	check(mc, SAMPLE, list(range(arg, size, arg)))
	mc.note("received in chunks of %d bytes" % arg)

def case_many(mc, n):
	"""More than fits into the buffer"""
	lines = [L(route("41.%d.%d.0/24" % (i >> 8, i & 255), i + 1), ("41.%d.%d.0/24" % (i >> 8, i & 255), i + 1)) for i in range(n)]
	for chunks in (None, list(range(1000, 100000, 1000)), list(range(4096, 100000, 4096)), list(range(4095, 100000, 4095))):
		check(mc, lines, chunks)
	mc.note("%d routes" % n)

def case_aggregated(mc, arg):
	names, cut = arg
	lines = [L(" %-20s unicast [bgp1 2024-01-01] * (100) [i]\n" % n) if n in AGGREGATED else LINES[2] for n in names]
	replies = { "show route" : table(lines) }
	want = expected(lines)
	for n in names:
		if n in AGGREGATED:
			paths, asn = AGGREGATED[n]
			replies["show route %s all" % n] = all_of(n, paths)
			want[repr(Inet.parse(n))] = asn
	bird = Bird(mc, replies, list(range(cut, 2000, cut)) if cut else None)
	r = update(mc, bird)
	mc.check(r.exception is None and r.code == 0, lambda : "aggregated routes %s: %s" % (names, cli.traceback_of(r.exception) if r.exception else r.code))
	mc.equal(sorted(r.rows.items()), sorted(want.items()), "announcements of %s, in chunks of %s" % (names, cut))
	mc.state(names, cut)
	mc.note("aggregated: %s, in chunks of %s" % arg)

def case_gone(mc, arg):
	"""An aggregated network that has been withdrawn since, or has no path"""
	n, reply = arg
	lines = [LINES[2], L(" %-20s unicast [bgp1 2024-01-01] * (100) [i]\n" % n), LINES[3]]
	bird = Bird(mc, { "show route" : table(lines), "show route %s all" % n : reply })
	r = update(mc, bird)
	mc.check(r.exception is None and r.code == 0, lambda : "%r: %s" % (reply, cli.traceback_of(r.exception) if r.exception else r.code))
	mc.equal(sorted(r.rows.items()), sorted(expected(lines).items()), "announcements after %r" % reply)
	mc.state(arg)
	mc.note("%r" % reply)

def case_broken(mc, arg):
	"""Nothing is changed when something goes wrong"""
	kind, at = arg
	db = EMPTY.clone()
	db.put("announcements", network="51.0.0.0/16", autnum=51, last_seen_at=db.now - datetime.timedelta(days=3))
	before = db.rows("announcements")
	lines = [LINES[0], LINES[2], L(" 42.0.0.0/16          unicast [bgp1 2024-01-01] * (100) [i]\n")]
	replies = { "show route" : table(lines), "show route 42.0.0.0/16 all" : all_of("42.0.0.0/16", ["5 {6}"]) }
	bird = Bird(mc, replies)
	if kind == "eof":
		bird.eof = at
		if at >= len(HELLO + replies["show route"]):
			bird.replies["show route"] = table(lines[:2])[:-len(END)]
	elif kind == "refused":
		bird.refuse = (lambda : ConnectionRefusedError("refused"), lambda : FileNotFoundError("none"), lambda : PermissionError("no"))[at]
	elif kind == "error":
		bird.replies["show route"] = (b"9001 syntax error, unexpected CF_SYM_UNDEFINED\n", b"8003 No such table\n", b"1007-Table master4:\n 41.0.0.0/16          unicast [bgp1 2024-01-01] * (100) [AS5i]\n8005 Something went wrong\n", b"9000 Command too long\n", b"8007 Access denied\n", b"8000 Reply too long\n")[at]
	r = update(mc, bird, db)
	mc.check(r.code != 0, lambda : "success has been reported after %s %s" % arg)
	mc.equal(r.db.rows("announcements"), before, "announcements after %s %s" % arg)
	mc.state(arg)
	mc.note("%s %s" % arg)

# ---- what is never kept ----

BOGUS4 = ["0.0.0.0/8", "127.0.0.0/8", "10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "192.0.0.0/24", "192.0.2.0/24", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24", "100.64.0.0/10", "169.254.0.0/16", "192.88.99.0/24", "224.0.0.0/4", "240.0.0.0/4"]
BOGUS6 = ["::/3", "4000::/2", "8000::/1", "2002::/16", "fc00::/7", "fe80::/10", "ff00::/8"]

def bogus():
	"""(network, AS, kept)"""
	out = [("0.0.0.0/0", 5, False), ("::/0", 5, False)]
	blocks = [ipaddress.ip_network(b) for b in BOGUS4 + BOGUS6]
	def kept(n):
		if n.prefixlen == 0 or n.prefixlen > (24 if n.version == 4 else 48):
			return False
		if any(b.version == n.version and n.subnet_of(b) for b in blocks):
			return False
		if n.version == 6 and not n.subnet_of(ipaddress.ip_network("2000::/3")):
			return False
		return True
	for b in blocks:
		limit = 24 if b.version == 4 else 48
		for p in range(b.prefixlen, limit + 3):
			subs = { b.network_address, b.broadcast_address, b.network_address - 1 if int(b.network_address) else None, b.broadcast_address + 1 if int(b.broadcast_address) + 1 < 1 << b.max_prefixlen else None } - { None }
			for a in subs:
				n = ipaddress.ip_network((a, p), strict=False)
				out.append((str(n), 5, kept(n)))
	for p in range(1, 33):
		n = ipaddress.ip_network(("41.0.0.0", p), strict=False)
		out.append((str(n), 5, kept(n)))
	for p in range(1, 129):
		n = ipaddress.ip_network(("2c0f:8000::", p), strict=False)
		out.append((str(n), 5, kept(n)))
	for i, (asn, ok) in enumerate(((0, 0), (1, 1), (23455, 1), (23456, 0), (23457, 1), (64495, 1), (64496, 0), (64511, 0), (64512, 0), (65535, 0), (65536, 0), (65551, 0), (131071, 0), (131072, 1), (2147483647, 1), (2147483648, 1), (4199999999, 1), (4200000000, 0), (4294967294, 0), (4294967295, 0))):
		out.append(("43.%d.0.0/16" % i, asn, bool(ok)))
	return sorted(set(out))

def case_bogus(mc, arg):
	"""As announced by Bird or as they are in the database"""
	n, asn, kept = arg
	db = EMPTY.clone()
	db.put("announcements", network="51.0.0.0/16", autnum=51)
	db.put("announcements", network="2c0f:51::/32", autnum=51)
	lines = [LINES[2], L(route(n, asn)) if asn else L(" \n"), LINES[3]]
	want = expected([LINES[2], LINES[3]])
	want.update({ "51.0.0.0/16" : 51, repr(Inet.parse("2c0f:51::/32")) : 51 })
	if kept:
		want[repr(Inet.parse(n))] = asn
	r = update(mc, Bird(mc, { "show route" : table(lines) }), db)
	mc.check(r.exception is None and r.code == 0, lambda : "%s: %s" % (n, cli.traceback_of(r.exception) if r.exception else r.code))
	mc.equal(sorted(r.rows.items()), sorted(want.items()), "announcements with %s by AS%s" % (n, asn))
	mc.state(sorted(r.rows.items()))
	mc.note("%s by AS%s" % (n, asn))

def case_age(mc, arg):
	"""Routes are forgotten after 14 days"""
	days, hours, again = arg
	db = EMPTY.clone()
	seen = db.now - datetime.timedelta(days=days, hours=hours)
	first = db.now - datetime.timedelta(days=400)
	db.put("announcements", network="41.0.0.0/16", autnum=99, first_seen_at=first, last_seen_at=seen)
	db.put("announcements", network="51.0.0.0/16", autnum=51, first_seen_at=first, last_seen_at=seen)
	r = update(mc, Bird(mc, { "show route" : table([LINES[0]] if again else []) }), db)
	mc.check(r.exception is None and r.code == 0, lambda : "%s" % (cli.traceback_of(r.exception) if r.exception else r.code))
	kept = days * 24 + hours < 14 * 24
	got = sorted((repr(x["network"]), x["autnum"], x["first_seen_at"] == first, x["last_seen_at"]) for x in r.db.rows("announcements"))
	want = []
	if again:
		want.append(("41.0.0.0/16", 5, True, r.db.now))
	elif kept:
		want.append(("41.0.0.0/16", 99, True, seen))
	if kept:
		want.append(("51.0.0.0/16", 51, True, seen))
	mc.equal(got, want, "announcements which were last seen %s days and %s hours ago" % (days, hours))
	mc.state(got)
	mc.note("last seen %s days and %s hours ago" % (days, hours))

def cases(thorough):
	out = []
	for i in range(len(LINES)):
		for depth in range(1, (4 if thorough else 3) + 1):
			out.append(("lines", (i, depth)))
	size = len(HELLO + table(SAMPLE))
	for i in range(1, size):
		out.append(("cut", i))
		out.append(("size", i))
	for n in (50, 60, 200):
		out.append(("many", n))
	for k in (1, 2, 3):
		for names in itertools.permutations(list(AGGREGATED) + ["x"], k):
			for cut in (None, 1, 2, 3, 7, 50, 100):
				out.append(("aggregated", (names, cut)))
	for reply in (b"8001 Network not found\n", b"1007-Table master4:\n" + END, END, b"1007-Table master4:\n 42.0.0.0/16          unicast [bgp1 2024-01-01] * (100) [i]\n1012-\tBGP.as_path: \n" + END):
		out.append(("gone", ("42.0.0.0/16", reply)))
	for i in range(0, size + 30):
		out.append(("broken", ("eof", i)))
	for i in range(3):
		out.append(("broken", ("refused", i)))
	for i in range(6):
		out.append(("broken", ("error", i)))
	for b in bogus():
		out.append(("bogus", b))
	for days, hours in ((0, 0), (0, 1), (7, 0), (13, 0), (13, 23), (14, 1), (15, 0), (100, 0)):
		for again in (False, True):
			out.append(("age", (days, hours, again)))
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	pymc.main("C30", cases, run, init)
