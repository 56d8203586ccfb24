"""The C library itself, called directly: what the bindings are compared with"""
import ctypes, os, socket
from ctypes import c_int, c_uint, c_uint32, c_char_p, c_void_p, byref, POINTER, c_size_t, c_int64

class CLib(object):
	def __init__(self, path):
		l = self.l = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
		libc = self.libc = ctypes.CDLL(None, use_errno=True)
		libc.fopen.restype = c_void_p
		libc.fopen.argtypes = [c_char_p, c_char_p]
		libc.fclose.argtypes = [c_void_p]
		libc.free.argtypes = [c_void_p]
		for name in """loc_database_get_vendor loc_database_get_description loc_database_get_license loc_network_str
				loc_network_get_country_code loc_as_get_name loc_country_get_code loc_country_get_name
				loc_country_get_continent_code loc_network_format_first_address loc_network_format_last_address""".split():
			f = getattr(l, name)
			f.restype, f.argtypes = c_char_p, [c_void_p]
		for name in """loc_database_created_at loc_network_get_asn loc_as_get_number loc_network_address_family""".split():
			getattr(l, name).argtypes = [c_void_p]
		l.loc_database_created_at.restype = c_int64
		l.loc_network_get_asn.restype = c_uint32
		l.loc_as_get_number.restype = c_uint32
		for name in "unref new".split():
			pass
		for name in "loc_database_unref loc_network_unref loc_as_unref loc_country_unref loc_network_list_unref loc_as_list_unref loc_country_list_unref loc_database_enumerator_unref".split():
			getattr(l, name).argtypes = [c_void_p]
			getattr(l, name).restype = c_void_p
		l.loc_network_has_flag.argtypes = [c_void_p, c_uint32]
		l.loc_network_reverse_pointer.argtypes = [c_void_p, c_char_p]
		l.loc_network_reverse_pointer.restype = c_void_p
		l.loc_network_exclude.argtypes = [c_void_p, c_void_p]
		l.loc_network_exclude.restype = c_void_p
		l.loc_network_list_pop.argtypes = [c_void_p]
		l.loc_network_list_pop.restype = c_void_p
		l.loc_network_list_empty.argtypes = [c_void_p]
		l.loc_network_cmp.argtypes = [c_void_p, c_void_p]
		l.loc_network_is_subnet.argtypes = [c_void_p, c_void_p]
		l.loc_as_cmp.argtypes = l.loc_country_cmp.argtypes = [c_void_p, c_void_p]
		l.loc_network_get_first_address.restype = l.loc_network_get_last_address.restype = c_void_p
		l.loc_network_get_first_address.argtypes = l.loc_network_get_last_address.argtypes = [c_void_p]
		self.ctx = c_void_p()
		if l.loc_new(byref(self.ctx)):
			raise RuntimeError("loc_new")

	# Executes f; returns the messages that were logged meanwhile
	def messages(self, level, f):
		out = []
		CB = ctypes.CFUNCTYPE(None, c_void_p, c_void_p, c_int, c_char_p, c_int, c_char_p, c_char_p, c_void_p)
		self.libc.vsnprintf.argtypes = [c_char_p, c_size_t, c_char_p, c_void_p]
		def receive(ctx, data, priority, file, line, fn, format, args):
			b = ctypes.create_string_buffer(4096)
			self.libc.vsnprintf(b, 4096, format, args)
			out.append((priority, b.value))
		cb = CB(receive)
		self.l.loc_set_log_callback(self.ctx, cb, None)
		self.l.loc_set_log_priority(self.ctx, level)
		try:
			f()
		finally:
			self.l.loc_set_log_priority(self.ctx, 0)
			self.l.loc_set_log_callback(self.ctx, CB(0), None)
		return out

	def open(self, path):
		f = self.libc.fopen(os.fsencode(path), b"r")
		if not f:
			return None
		db = c_void_p()
		r = self.l.loc_database_new(self.ctx, byref(db), c_void_p(f))
		self.libc.fclose(f)
		return db if not r else None

	def close(self, db):
		self.l.loc_database_unref(db)

	def meta(self, db):
		l = self.l
		return (l.loc_database_get_vendor(db), l.loc_database_get_description(db), l.loc_database_get_license(db), l.loc_database_created_at(db))

	def verify(self, db, key):
		f = self.libc.fopen(os.fsencode(key), b"r")
		if not f:
			return None
		r = self.l.loc_database_verify(db, c_void_p(f))
		self.libc.fclose(f)
		return r == 0

	# Descriptions of objects; all strings are bytes
	def net(self, n):
		l = self.l
		fam = l.loc_network_address_family(n)
		def address(p):
			b = ctypes.string_at(p, 16)
			return b[12:] if fam == socket.AF_INET else b
		return {
			"str" : l.loc_network_str(n), "family" : fam, "cc" : l.loc_network_get_country_code(n) or b"",
			"asn" : l.loc_network_get_asn(n), "flags" : sum(1 << i for i in range(16) if l.loc_network_has_flag(n, 1 << i)),
			"first" : l.loc_network_format_first_address(n), "last" : l.loc_network_format_last_address(n),
			"_first" : address(l.loc_network_get_first_address(n)), "_last" : address(l.loc_network_get_last_address(n)),
		}

	def as_(self, a):
		return { "number" : self.l.loc_as_get_number(a), "name" : self.l.loc_as_get_name(a) }

	def country(self, c):
		l = self.l
		return { "code" : l.loc_country_get_code(c), "name" : l.loc_country_get_name(c), "continent" : l.loc_country_get_continent_code(c) }

	# Each returns "error", None (nothing found), or a description
	def lookup(self, db, address):
		n = c_void_p()
		r = self.l.loc_database_lookup_from_string(db, address, byref(n))
		if r:
			return "error"
		if not n:
			return None
		d = self.net(n)
		self.l.loc_network_unref(n)
		return d

	def get_as(self, db, number):
		a = c_void_p()
		r = self.l.loc_database_get_as(db, byref(a), c_uint32(number))
		if r:
			return None if r == 1 else "error"
		d = self.as_(a)
		self.l.loc_as_unref(a)
		return d

	def get_country(self, db, code):
		c = c_void_p()
		r = self.l.loc_database_get_country(db, byref(c), code)
		if r:
			return "error"
		if not c:
			return None
		d = self.country(c)
		self.l.loc_country_unref(c)
		return d

	def enumerate(self, db, mode, flatten=False, countries=None, asns=None, flags=0, family=0, string=None):
		"""mode: 1 networks, 2 ASes, 3 countries, 4 bogons. Returns a list or "error"."""
		l = self.l
		e = c_void_p()
		if l.loc_database_enumerator_new(byref(e), db, mode, 1 if flatten else 0):
			return "error"
		try:
			if countries is not None:
				cl = c_void_p()
				l.loc_country_list_new(self.ctx, byref(cl))
				try:
					for code in countries:
						c = c_void_p()
						if l.loc_country_new(self.ctx, byref(c), code):
							return "error"
						l.loc_country_list_append(cl, c)
						l.loc_country_unref(c)
					if l.loc_database_enumerator_set_countries(e, cl):
						return "error"
				finally:
					l.loc_country_list_unref(cl)
			if asns is not None:
				al = c_void_p()
				l.loc_as_list_new(self.ctx, byref(al))
				try:
					for number in asns:
						a = c_void_p()
						if l.loc_as_new(self.ctx, byref(a), c_uint32(number)):
							return "error"
						l.loc_as_list_append(al, a)
						l.loc_as_unref(a)
					if l.loc_database_enumerator_set_asns(e, al):
						return "error"
				finally:
					l.loc_as_list_unref(al)
			if flags and l.loc_database_enumerator_set_flag(e, c_int(flags)):
				return "error"
			if family and l.loc_database_enumerator_set_family(e, family):
				return "error"
			if string is not None:
				l.loc_database_enumerator_set_string(e, string)
			fn, describe, unref = {
				1 : (l.loc_database_enumerator_next_network, self.net, l.loc_network_unref),
				2 : (l.loc_database_enumerator_next_as, self.as_, l.loc_as_unref),
				3 : (l.loc_database_enumerator_next_country, self.country, l.loc_country_unref),
				4 : (l.loc_database_enumerator_next_network, self.net, l.loc_network_unref),
			}[mode]
			out = []
			while True:
				x = c_void_p()
				if fn(e, byref(x)):
					return "error"
				if not x:
					return out
				out.append(describe(x))
				unref(x)
		finally:
			l.loc_database_enumerator_unref(e)

	def network_new(self, s):
		n = c_void_p()
		if self.l.loc_network_new_from_string(self.ctx, byref(n), s):
			return None
		return n

	def country_new(self, s):
		n = c_void_p()
		if self.l.loc_country_new(self.ctx, byref(n), s):
			return None
		return n

	def reverse_pointer(self, n, suffix):
		p = self.l.loc_network_reverse_pointer(n, suffix)
		if not p:
			return None
		s = ctypes.string_at(p)
		self.libc.free(p)
		return s

	def exclude(self, a, b):
		p = self.l.loc_network_exclude(a, b)
		out = []
		if p:
			while not self.l.loc_network_list_empty(p):
				n = self.l.loc_network_list_pop(p)
				out.append(self.net(n))
				self.l.loc_network_unref(n)
			self.l.loc_network_list_unref(p)
		return out

	def subnets(self, n):
		a, b = c_void_p(), c_void_p()
		if self.l.loc_network_subnets(n, byref(a), byref(b)):
			return None
		out = [self.net(a), self.net(b)]
		self.l.loc_network_unref(a)
		self.l.loc_network_unref(b)
		return out
