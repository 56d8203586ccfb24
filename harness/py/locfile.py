"""
	What a database holds, and an independent encoder of the file format (version 1).
	All addresses are 128 bit integers; IPv4 lives in ::ffff:0:0/96.
"""
import ipaddress, socket, struct, subprocess

V4 = 0xffff << 32
ALL = (1 << 128) - 1

ANON, SAT, ANYCAST, DROP = 1, 2, 4, 8
FLAGS = { "A1" : ANON, "A2" : SAT, "A3" : ANYCAST, "XD" : DROP }

class Net(object):
	def __init__(self, what, cc="", asn=0, flags=0):
		if isinstance(what, str):
			n = ipaddress.ip_network(what)
			self.first, self.plen = int(n.network_address), n.prefixlen
			if n.version == 4:
				self.first |= V4
				self.plen += 96
		else:
			self.first, self.plen = what
		self.cc, self.asn, self.flags = cc, asn, flags

	@property
	def last(self):
		return self.first | ((1 << (128 - self.plen)) - 1)

	@property
	def v4(self):
		return self.plen >= 96 and self.first >> 32 == 0xffff

	@property
	def family(self):
		return socket.AF_INET if self.v4 else socket.AF_INET6

	def __contains__(self, address):
		return self.first <= address <= self.last

	def __str__(self):
		return "%s/%d" % (address_str(self.first), self.plen - 96 if self.v4 else self.plen)

	def __repr__(self):
		return "%s(%s,%s,%s)" % (self, self.cc or "-", self.asn, self.flags)

	@property
	def key(self):
		return (self.first, self.plen)

	@property
	def props(self):
		return (self.cc, self.asn, self.flags)

def address_str(a):
	if a >> 32 == 0xffff:
		return socket.inet_ntop(socket.AF_INET, (a & 0xffffffff).to_bytes(4, "big"))
	return socket.inet_ntop(socket.AF_INET6, a.to_bytes(16, "big"))

def parse_address(s):
	a = ipaddress.ip_address(s)
	return int(a) | (V4 if a.version == 4 else 0)

class Content(object):
	def __init__(self, networks=(), ases=(), countries=(), vendor="", description="", license="", created_at=1600000000):
		self.networks = sorted(networks, key=lambda n : n.key)
		self.ases = sorted(ases)				# (number, name)
		self.countries = sorted(countries)		# (code, continent, name)
		self.vendor, self.description, self.license, self.created_at = vendor, description, license, created_at

	def lookup(self, address):
		best = None
		for n in self.networks:
			if address in n and (best is None or n.plen > best.plen):
				best = n
		return best

	def cuts(self):
		"""All addresses at which what a lookup says may change"""
		c = { 0, V4, V4 + (1 << 32) }
		for n in self.networks:
			c.add(n.first)
			c.add(n.last + 1)
		c.discard(ALL + 1)
		return sorted(c)

	def encode(self):
		pool = bytearray(b"\0")
		index = { b"" : 0 }
		def string(s):
			s = s.encode("utf-8", "surrogateescape") if isinstance(s, str) else (s or b"")
			if s not in index:
				index[s] = len(pool)
				pool.extend(s + b"\0")
			return index[s]
		header = bytearray(4200)
		header[:8] = b"LOCDBXX\1"
		struct.pack_into(">Q", header, 8, self.created_at)
		struct.pack_into(">III", header, 16, string(self.vendor), string(self.description), string(self.license))
		out = header
		def align():
			out.extend(bytes(-len(out) % 4096))
		def section(at, data):
			align()
			struct.pack_into(">II", out, at, len(out), len(data))
			out.extend(data)
		section(28, b"".join(struct.pack(">II", n, string(name)) for n, name in self.ases))
		nodes = [[0, 0, 0xffffffff]]
		for i, n in enumerate(self.networks):
			at = 0
			for d in range(n.plen):
				bit = (n.first >> (127 - d)) & 1
				if not nodes[at][bit]:
					nodes.append([0, 0, 0xffffffff])
					nodes[at][bit] = len(nodes) - 1
				at = nodes[at][bit]
			nodes[at][2] = i
		section(44, b"".join(struct.pack(">III", *n) for n in nodes))
		section(36, b"".join(struct.pack(">2sHIHH", n.cc.encode(), 0, n.asn, n.flags, 0) for n in self.networks))
		section(52, b"".join(struct.pack(">2s2sI", code.encode(), (continent or "").encode(), string(name)) for code, continent, name in self.countries))
		section(60, pool)
		return bytes(out)

def keypair(path):
	"""Creates a key pair in path and path.pub"""
	subprocess.run(["openssl", "genpkey", "-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-256", "-out", path],
		check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
	subprocess.run(["openssl", "pkey", "-in", path, "-pubout", "-out", path + ".pub"], check=True)

def sign(data, key, slot=0):
	"""Signs a file"""
	c = bytearray(data)
	c[68:72 + 4096] = bytes(4 + 4096)
	r = subprocess.run(["openssl", "dgst", "-sha256", "-sign", key], input=bytes(c), stdout=subprocess.PIPE, check=True)
	out = bytearray(data)
	struct.pack_into(">H", out, 70 if slot else 68, len(r.stdout))
	at = 72 + (2048 if slot else 0)
	out[at:at + len(r.stdout)] = r.stdout
	return bytes(out)
