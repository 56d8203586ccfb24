"""
	A small relational database that understands the dialect of SQL which PostgreSQL speaks, as far as
	the importer needs it: typed columns, NOT NULL and UNIQUE constraints, inet, transactions with
	savepoints, sessions that do not see what others have not committed, temporary tables, CTEs, joins,
	window functions, ON CONFLICT, and statements that fail as a whole and abort their transaction.
	Anything that it does not understand is a HarnessError, never an answer.
"""
import datetime, functools, ipaddress, re, pymc

class Error(Exception):
	"""psycopg.Error"""

class DataError(Error):
	pass

class IntegrityError(Error):
	pass

class ProgrammingError(Error):
	pass

class InternalError(Error):
	pass

def unsupported(what):
	raise pymc.HarnessError("minipg: cannot handle %s" % (what,))

# ---- values ----

@functools.total_ordering
class Inet(object):
	__slots__ = ("version", "address", "plen")

	def __init__(self, version, address, plen):
		self.version, self.address, self.plen = version, address, plen

	@classmethod
	@functools.lru_cache(100000)
	def parse(cls, s):
		try:
			i = ipaddress.ip_interface(s.strip())
		except ValueError:
			raise DataError("invalid input syntax for type inet: %r" % s)
		return cls(i.version, int(i.ip), i.network.prefixlen)

	@property
	def bits(self):
		return 32 if self.version == 4 else 128

	def prefix(self, n):
		return self.address >> (self.bits - n)

	def contains(self, other, strict):
		return self.version == other.version and (self.plen < other.plen or (not strict and self.plen == other.plen)) \
			and self.prefix(self.plen) == other.prefix(self.plen)

	def key(self):
		# As PostgreSQL sorts them: family, common bits, length, everything
		return (self.version, self.prefix(self.plen) << (self.bits - self.plen), self.plen, self.address)

	def __eq__(self, other):
		return isinstance(other, Inet) and self.key() == other.key()

	def __lt__(self, other):
		a, b = self.key(), other.key()
		if a[0] != b[0]:
			return a[0] < b[0]
		n = min(self.plen, other.plen)
		if self.prefix(n) != other.prefix(n):
			return self.prefix(n) < other.prefix(n)
		if self.plen != other.plen:
			return self.plen < other.plen
		return self.address < other.address

	def __hash__(self):
		return hash(self.key())

	def __repr__(self):
		return "%s/%d" % (ipaddress.ip_address(self.address) if self.version == 4 else ipaddress.IPv6Address(self.address), self.plen)

	def python(self):
		"""What psycopg returns"""
		cls = (ipaddress.IPv4Address, ipaddress.IPv4Interface) if self.version == 4 else (ipaddress.IPv6Address, ipaddress.IPv6Interface)
		if self.plen == self.bits:
			return cls[0](self.address)
		return cls[1]((self.address, self.plen))

RANGES = { "smallint" : 15, "integer" : 31, "int" : 31, "int4" : 31, "int2" : 15, "serial" : 31, "bigint" : 63, "int8" : 63, "bigserial" : 63 }

def coerce(value, type, column=""):
	if value is None:
		return None
	if type.endswith("[]"):
		if not isinstance(value, (list, tuple)):
			raise DataError("malformed array literal: %r" % (value,))
		return tuple(coerce(v, type[:-2], column) for v in value)
	if type in RANGES:
		if isinstance(value, bool):
			raise ProgrammingError("column %s is of type %s but expression is of type boolean" % (column, type))
		if isinstance(value, str):
			if not re.fullmatch(r"\s*[+-]?[0-9]+\s*", value, re.A):
				raise DataError("invalid input syntax for type %s: %r" % (type, value))
			value = int(value)
		if isinstance(value, float):
			value = round(value)
		if not isinstance(value, int):
			raise ProgrammingError("column %s is of type %s but expression is of type %s" % (column, type, value.__class__.__name__))
		if not -(1 << RANGES[type]) <= value < 1 << RANGES[type]:
			raise DataError("%s out of range" % type)
		return value
	if type in ("text", "varchar", "character varying"):
		if isinstance(value, bool):
			return "true" if value else "false"
		if isinstance(value, (int, Inet)):
			return "%s" % (value,)
		if not isinstance(value, str):
			raise ProgrammingError("column %s is of type text but expression is of type %s" % (column, value.__class__.__name__))
		return value
	if type in ("boolean", "bool"):
		if isinstance(value, str):
			v = value.strip().lower()
			if v and any(w.startswith(v) for w in ("true", "yes")) or v in ("on", "1"):
				return True
			if v and any(w.startswith(v) for w in ("false", "no")) or v in ("off", "of", "0"):
				return False
			raise DataError("invalid input syntax for type boolean: %r" % value)
		if not isinstance(value, bool):
			raise ProgrammingError("column %s is of type boolean but expression is of type %s" % (column, value.__class__.__name__))
		return value
	if type in ("inet", "cidr"):
		if isinstance(value, str):
			value = Inet.parse(value)
		if not isinstance(value, Inet):
			raise ProgrammingError("column %s is of type inet but expression is of type %s" % (column, value.__class__.__name__))
		return value
	if type.startswith("timestamp"):
		if not isinstance(value, datetime.datetime):
			unsupported("timestamp %r" % (value,))
		return value
	unsupported("type %s" % type)

def parameter(value):
	"""Something passed by the client"""
	if isinstance(value, str):
		if "\0" in value:
			raise DataError("PostgreSQL text fields cannot contain NUL (0x00) bytes")
		try:
			value.encode("utf-8")
		except UnicodeEncodeError as e:
			raise e
		return value
	if value is None or isinstance(value, (bool, int, float, datetime.datetime)):
		return value
	if isinstance(value, (list, tuple)):
		return tuple(parameter(v) for v in value)
	if isinstance(value, (ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Interface, ipaddress.IPv6Interface)):
		return Inet.parse(str(value))
	raise ProgrammingError("cannot adapt type %r" % value.__class__.__name__)

# ---- the parser ----

TOKEN = re.compile(r"""
	(?P<space>\s+|--[^\n]*|/\*.*?\*/) |
	(?P<param>%s|%\(\w+\)s) |
	(?P<percent>%%) |
	(?P<number>\d+(?:\.\d+)?) |
	(?P<string>'(?:[^']|'')*') |
	(?P<quoted>"[^"]+") |
	(?P<name>[A-Za-z_][A-Za-z_0-9]*) |
	(?P<op><<=|>>=|<>|!=|<=|>=|<<|>>|\|\||&&|::|[-+*/<>=(),.;\[\]])
""", re.X | re.S)

@functools.lru_cache(None)
def tokenize(sql):
	out, at = [], 0
	while at < len(sql):
		m = TOKEN.match(sql, at)
		if not m:
			unsupported("%r" % sql[at:at + 40])
		at = m.end()
		k, v = m.lastgroup, m.group()
		if k == "space":
			continue
		if k == "name":
			v = v.lower()
		elif k == "quoted":
			k, v = "ident", v[1:-1]
		elif k == "string":
			v = v[1:-1].replace("''", "'")
		elif k == "percent":
			k, v = "op", "%"
		out.append((k, v))
	return out

RESERVED = set("select from where group order by having limit offset union intersect except on join left right inner outer full cross natural using as and or not in is null set values with returning "
	"insert update delete into do when then else end case distinct all any over partition asc desc nulls first last window exists between like conflict nothing default fetch for".split())

class Parser(object):
	def __init__(self, sql):
		self.t, self.i = tokenize(sql), 0
		self.params = 0
		self.named = []

	def peek(self, k=0):
		return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

	def word(self, k=0):
		t = self.peek(k)
		return t[1] if t[0] in ("name", "op") else None

	def next(self):
		t = self.peek()
		self.i += 1
		return t

	def accept(self, *words):
		for k, w in enumerate(words):
			if self.word(k) != w:
				return False
		self.i += len(words)
		return True

	def expect(self, *words):
		if not self.accept(*words):
			raise ProgrammingError("syntax error at or near %r, expected %s" % (self.peek()[1], " ".join(words)))

	def ident(self):
		k, v = self.next()
		if k not in ("name", "ident"):
			raise ProgrammingError("syntax error at or near %r" % v)
		return v

	def script(self):
		out = []
		while self.peek()[0] != "end":
			if self.accept(";"):
				continue
			out.append(self.statement())
			if self.peek()[0] != "end":
				self.expect(";")
		return out

	def statement(self):
		ctes = []
		if self.accept("with"):
			if self.accept("recursive"):
				unsupported("WITH RECURSIVE")
			while True:
				name = self.ident()
				columns = self.columns() if self.word() == "(" else None
				self.expect("as")
				if self.accept("materialized") or self.accept("not", "materialized"):
					pass
				self.expect("(")
				ctes.append((name, columns, self.statement()))
				self.expect(")")
				if not self.accept(","):
					break
		w = self.word()
		if w in ("select", "values", "("):
			s = self.query()
		elif w == "insert":
			s = self.insert()
		elif w == "update":
			s = self.update()
		elif w == "delete":
			s = self.delete()
		elif not ctes:
			s = self.utility()
		else:
			unsupported("WITH ... %s" % w)
		return ("with", ctes, s) if ctes else s

	def columns(self):
		self.expect("(")
		out = [self.ident()]
		while self.accept(","):
			out.append(self.ident())
		self.expect(")")
		return out

	def type(self):
		t = self.ident()
		if t == "timestamp":
			if self.accept("without", "time", "zone") or self.accept("with", "time", "zone"):
				pass
		elif t == "character":
			self.expect("varying")
			t = "text"
		elif t == "double":
			self.expect("precision")
		if self.accept("("):
			while not self.accept(")"):
				self.next()
		if self.accept("["):
			self.expect("]")
			t += "[]"
		return t

	def column(self):
		c = { "name" : self.ident(), "type" : self.type(), "notnull" : False, "default" : None, "unique" : False, "references" : None }
		while True:
			if self.accept("not", "null"):
				c["notnull"] = True
			elif self.accept("null"):
				pass
			elif self.accept("default"):
				c["default"] = self.expr()
			elif self.accept("primary", "key"):
				c["notnull"] = c["unique"] = True
			elif self.accept("unique"):
				c["unique"] = True
			elif self.accept("references"):
				c["references"] = (self.ident(), self.columns() if self.word() == "(" else None, None)
				while self.accept("on"):
					what = self.ident()
					how = self.ident()
					if what == "delete":
						c["references"] = c["references"][:2] + (how,)
			else:
				return c

	def utility(self):
		if self.accept("create"):
			temp = self.accept("temporary") or self.accept("temp")
			unlogged = self.accept("unlogged")
			if self.accept("table"):
				exists = self.accept("if", "not", "exists")
				name = self.ident()
				if self.accept("as"):
					return ("create_as", name, temp, exists, self.statement())
				self.expect("(")
				columns = [self.column()]
				while self.accept(","):
					columns.append(self.column())
				self.expect(")")
				drop = False
				while True:
					if self.accept("with"):
						self.expect("(")
						while not self.accept(")"):
							self.next()
					elif self.accept("on", "commit"):
						if self.accept("drop"):
							drop = True
						else:
							unsupported("ON COMMIT")
					else:
						break
				return ("create", name, temp, exists, columns, drop)
			unique = self.accept("unique")
			if self.accept("index"):
				self.accept("concurrently")
				exists = self.accept("if", "not", "exists")
				name = self.ident() if self.word() != "on" else None
				self.expect("on")
				table = self.ident()
				if self.accept("using"):
					self.ident()
				self.expect("(")
				exprs = []
				while True:
					exprs.append(self.expr())
					# Operator classes and the like
					while self.word() not in (",", ")"):
						self.next()
					if not self.accept(","):
						break
				self.expect(")")
				if self.accept("where"):
					unsupported("partial index")
				return ("index", name, table, unique, exists, exprs)
			unsupported("CREATE %s" % self.word())
		if self.accept("alter", "table"):
			exists = self.accept("if", "exists")
			table = self.ident()
			actions = []
			while True:
				if self.accept("add"):
					self.accept("column")
					e = self.accept("if", "not", "exists")
					actions.append(("add", e, self.column()))
				elif self.accept("drop"):
					self.accept("column")
					e = self.accept("if", "exists")
					actions.append(("drop", e, self.ident()))
				elif self.accept("alter"):
					self.accept("column")
					c = self.ident()
					if self.accept("set", "not", "null"):
						actions.append(("notnull", c, True))
					elif self.accept("drop", "not", "null"):
						actions.append(("notnull", c, False))
					elif self.accept("set", "data", "type") or self.accept("type"):
						actions.append(("type", c, self.type()))
					elif self.accept("set", "default"):
						actions.append(("default", c, self.expr()))
					else:
						unsupported("ALTER COLUMN %s" % self.word())
				else:
					unsupported("ALTER TABLE %s" % self.word())
				if not self.accept(","):
					break
			return ("alter", table, actions)
		if self.accept("drop"):
			kind = self.ident()
			if kind not in ("table", "index"):
				unsupported("DROP %s" % kind)
			exists = self.accept("if", "exists")
			names = [self.ident()]
			while self.accept(","):
				names.append(self.ident())
			self.accept("cascade")
			return ("drop", kind, exists, names)
		if self.accept("truncate"):
			self.accept("table")
			names = [self.ident()]
			while self.accept(","):
				names.append(self.ident())
			self.accept("cascade")
			return ("truncate", names)
		if self.accept("analyze") or self.accept("vacuum"):
			while self.peek()[0] != "end" and self.word() != ";":
				self.next()
			return ("nothing",)
		if self.accept("begin") or self.accept("start", "transaction"):
			return ("begin",)
		if self.accept("commit") or self.accept("rollback"):
			return (self.t[self.i - 1][1],)
		if self.word() in ("set", "lock"):
			while self.peek()[0] != "end" and self.word() != ";":
				self.next()
			return ("nothing",)
		if self.peek()[0] == "name":
			unsupported("statement %s" % self.peek()[1].upper())
		raise ProgrammingError("syntax error at or near %r" % self.peek()[1])

	def alias(self):
		if self.accept("as"):
			return self.ident()
		if self.peek()[0] == "ident" or (self.peek()[0] == "name" and self.peek()[1] not in RESERVED):
			return self.ident()

	def query(self):
		q = self.select()
		while True:
			if self.accept("union"):
				a = self.accept("all")
				self.accept("distinct")
				q = ("union", a, q, self.select())
			elif self.accept("except"):
				q = ("except", q, self.select())
			elif self.accept("intersect"):
				q = ("intersect", q, self.select())
			else:
				break
		order, limit, offset = self.tail()
		if order or limit or offset:
			if q[0] == "select":
				return q[:-3] + (order, limit, offset)
			return ("sorted", q, order, limit, offset)
		return q

	def tail(self):
		order, limit, offset = [], None, None
		while True:
			if self.accept("order", "by"):
				order = self.order()
			elif self.accept("limit"):
				limit = self.expr() if not self.accept("all") else None
			elif self.accept("offset"):
				offset = self.expr()
				self.accept("rows") or self.accept("row")
			else:
				return order, limit, offset

	def order(self):
		out = []
		while True:
			e = self.expr()
			desc = self.accept("desc")
			if not desc:
				self.accept("asc")
			first = desc
			if self.accept("nulls"):
				first = self.ident() == "first"
			out.append((e, desc, first))
			if not self.accept(","):
				return out

	def select(self):
		if self.accept("("):
			q = self.query()
			self.expect(")")
			return q
		if self.accept("values"):
			rows = []
			while True:
				self.expect("(")
				rows.append(self.exprs())
				self.expect(")")
				if not self.accept(","):
					return ("values", rows)
		self.expect("select")
		distinct = None
		if self.accept("distinct"):
			distinct = True
			if self.accept("on"):
				self.expect("(")
				distinct = self.exprs()
				self.expect(")")
		else:
			self.accept("all")
		items = []
		while True:
			if self.accept("*"):
				items.append(("*", None))
			elif self.peek()[0] in ("name", "ident") and self.word(1) == "." and self.word(2) == "*":
				items.append(("*", self.ident()))
				self.i += 2
			else:
				e = self.expr()
				a = self.alias()
				items.append((e, a or self.default_name(e)))
			if not self.accept(","):
				break
		source = self.source() if self.accept("from") else None
		where = self.expr() if self.accept("where") else None
		group = None
		if self.accept("group", "by"):
			group = self.exprs()
		having = self.expr() if self.accept("having") else None
		return ("select", distinct, items, source, where, group, having, [], None, None)

	def default_name(self, e):
		return e[2] if e[0] == "col" else e[1] if e[0] in ("call", "agg") else "row_number" if e[0] == "window" else "coalesce" if e[0] == "coalesce" else "?column?"

	def source(self):
		s = self.joined()
		while self.accept(","):
			s = ("join", "cross", s, self.joined(), None)
		return s

	def joined(self):
		s = self.primary_source()
		while True:
			kind = None
			if self.accept("join") or self.accept("inner", "join"):
				kind = "inner"
			elif self.accept("left", "join") or self.accept("left", "outer", "join"):
				kind = "left"
			elif self.accept("cross", "join"):
				kind = "cross"
			elif self.word() in ("right", "full", "natural"):
				unsupported("%s JOIN" % self.word())
			else:
				return s
			r = self.primary_source()
			on = None
			if kind != "cross":
				if self.accept("using"):
					on = ("using", self.columns())
				else:
					self.expect("on")
					on = self.expr()
			s = ("join", kind, s, r, on)

	def primary_source(self):
		self.accept("lateral")
		if self.accept("("):
			if self.word() in ("select", "values", "with", "("):
				q = self.statement()
				self.expect(")")
				a = self.alias()
				cols = self.columns() if a and self.word() == "(" else None
				return ("sub", q, a or "?", cols)
			s = self.source()
			self.expect(")")
			return s
		name = self.ident()
		if self.word() == "(":
			unsupported("table function %s()" % name)
		return ("table", name, self.alias() or name)

	def exprs(self):
		out = [self.expr()]
		while self.accept(","):
			out.append(self.expr())
		return out

	def returning(self):
		if self.accept("returning"):
			items = []
			while True:
				if self.accept("*"):
					items.append(("*", None))
				else:
					e = self.expr()
					items.append((e, self.alias() or self.default_name(e)))
				if not self.accept(","):
					return items

	def insert(self):
		self.expect("insert", "into")
		table = self.ident()
		alias = self.ident() if self.accept("as") else table
		columns = None
		if self.word() == "(" and self.word(1) not in ("select", "with", "values"):
			columns = self.columns()
		if self.accept("default", "values"):
			unsupported("DEFAULT VALUES")
		source = self.statement() if self.word() == "with" else self.query()
		conflict = None
		if self.accept("on", "conflict"):
			target = self.columns() if self.word() == "(" else None
			self.expect("do")
			if self.accept("nothing"):
				conflict = (target, None, None)
			else:
				self.expect("update", "set")
				sets = self.sets()
				conflict = (target, sets, self.expr() if self.accept("where") else None)
		return ("insert", table, alias, columns, source, conflict, self.returning())

	def sets(self):
		out = []
		while True:
			c = self.ident()
			self.expect("=")
			out.append((c, self.expr()))
			if not self.accept(","):
				return out

	def update(self):
		self.expect("update")
		table = self.ident()
		alias = self.alias() or table
		self.expect("set")
		sets = self.sets()
		source = self.source() if self.accept("from") else None
		where = self.expr() if self.accept("where") else None
		return ("update", table, alias, sets, source, where, self.returning())

	def delete(self):
		self.expect("delete", "from")
		table = self.ident()
		alias = self.alias() or table
		source = self.source() if self.accept("using") else None
		where = self.expr() if self.accept("where") else None
		return ("delete", table, alias, source, where, self.returning())

	# Expressions, by increasing precedence
	def expr(self):
		e = self.conjunction()
		while self.accept("or"):
			e = ("or", e, self.conjunction())
		return e

	def conjunction(self):
		e = self.negation()
		while self.accept("and"):
			e = ("and", e, self.negation())
		return e

	def negation(self):
		if self.accept("not"):
			return ("not", self.negation())
		return self.predicate()

	def predicate(self):
		e = self.comparison()
		while self.accept("is"):
			no = self.accept("not")
			if self.accept("null"):
				e = ("isnull", e)
			elif self.accept("true"):
				e = ("istrue", e, True)
			elif self.accept("false"):
				e = ("istrue", e, False)
			elif self.accept("distinct", "from"):
				e = ("distinct", e, self.comparison())
			else:
				unsupported("IS %s" % self.word())
			if no:
				e = ("not", e)
		return e

	def comparison(self):
		e = self.containment()
		while self.word() in ("=", "<>", "!=", "<", "<=", ">", ">="):
			op = self.next()[1]
			if self.word() in ("any", "all", "some") and self.word(1) == "(":
				kind = self.next()[1]
				self.expect("(")
				if self.word() in ("select", "with"):
					q = ("subquery", self.statement())
				else:
					q = self.expr()
				self.expect(")")
				e = ("any" if kind != "all" else "all", op, e, q)
			else:
				e = ("cmp", "<>" if op == "!=" else op, e, self.containment())
		return e

	def containment(self):
		e = self.additive()
		while True:
			no = False
			if self.word() == "not" and self.word(1) in ("in", "between", "like", "ilike"):
				self.next()
				no = True
			if self.accept("in"):
				self.expect("(")
				if self.word() in ("select", "with"):
					x = ("in", e, ("subquery", self.statement()))
				else:
					x = ("in", e, ("list", self.exprs()))
				self.expect(")")
			elif self.accept("between"):
				lo = self.additive()
				self.expect("and")
				x = ("and", ("cmp", ">=", e, lo), ("cmp", "<=", e, self.additive()))
			elif self.word() in ("like", "ilike"):
				unsupported("LIKE")
			elif self.word() in ("<<", "<<=", ">>", ">>=", "&&", "||"):
				x = ("op", self.next()[1], e, self.additive())
			else:
				return e
			e = ("not", x) if no else x

	def additive(self):
		e = self.multiplicative()
		while self.word() in ("+", "-"):
			e = ("op", self.next()[1], e, self.multiplicative())
		return e

	def multiplicative(self):
		e = self.unary()
		while self.word() in ("*", "/", "%"):
			e = ("op", self.next()[1], e, self.unary())
		return e

	def unary(self):
		if self.accept("-"):
			return ("neg", self.unary())
		if self.accept("+"):
			return self.unary()
		e = self.primary()
		while self.accept("::"):
			e = ("cast", e, self.type())
		return e

	def primary(self):
		k, v = self.next()
		if k == "param":
			if v == "%s":
				self.params += 1
				return ("param", self.params - 1)
			self.named.append(v[2:-2])
			return ("param", v[2:-2])
		if k == "number":
			return ("const", float(v) if "." in v else int(v))
		if k == "string":
			return ("const", v)
		if k == "op" and v == "(":
			if self.word() in ("select", "with"):
				q = self.statement()
				self.expect(")")
				return ("scalar", q)
			e = self.exprs()
			self.expect(")")
			return e[0] if len(e) == 1 else ("row", e)
		if k not in ("name", "ident"):
			raise ProgrammingError("syntax error at or near %r" % v)
		if k == "name":
			if v in ("true", "false"):
				return ("const", v == "true")
			if v == "null":
				return ("const", None)
			if v == "default":
				return ("default",)
			if v in ("current_timestamp", "localtimestamp"):
				return ("now",)
			if v == "interval" and self.peek()[0] == "string":
				return ("interval", self.next()[1])
			if v in ("inet", "cidr", "text", "bigint", "integer") and self.peek()[0] == "string":
				return ("cast", ("const", self.next()[1]), v)
			if v == "cast" and self.word() == "(":
				self.next()
				e = self.expr()
				self.expect("as")
				t = self.type()
				self.expect(")")
				return ("cast", e, t)
			if v == "exists" and self.word() == "(":
				self.next()
				q = self.statement()
				self.expect(")")
				return ("exists", q)
			if v == "array" and self.word() == "[":
				self.next()
				e = self.exprs() if self.word() != "]" else []
				self.expect("]")
				return ("row", e)
			if v == "case":
				base = self.expr() if self.word() != "when" else None
				arms = []
				while self.accept("when"):
					c = self.expr()
					self.expect("then")
					arms.append((c if base is None else ("cmp", "=", base, c), self.expr()))
				other = self.expr() if self.accept("else") else ("const", None)
				self.expect("end")
				return ("case", arms, other)
		if self.word() == "(":
			self.next()
			if v in ("count", "min", "max", "sum", "bool_or", "bool_and", "array_agg", "every"):
				d = self.accept("distinct")
				if self.accept("*"):
					a = None
				else:
					a = self.expr()
				self.expect(")")
				if self.word() in ("over", "filter"):
					unsupported("%s() OVER" % v)
				return ("agg", v, a, d)
			args = self.exprs() if self.word() != ")" else []
			self.expect(")")
			if v in ("row_number", "rank", "dense_rank", "first_value"):
				self.expect("over")
				self.expect("(")
				part, order = [], []
				if self.accept("partition", "by"):
					part = self.exprs()
				if self.accept("order", "by"):
					order = self.order()
				self.expect(")")
				return ("window", v, args, tuple(map(repr, part)), part, order)
			if v == "coalesce":
				return ("coalesce", args)
			return ("call", v, args)
		if self.word() == "." and self.peek(1)[0] in ("name", "ident"):
			self.next()
			return ("col", v, self.ident())
		return ("col", None, v)

@functools.lru_cache(None)
def parse(sql):
	p = Parser(sql)
	return p.script(), p.params, p.named

# ---- storage ----

class Version(object):
	"""A version of a row"""
	__slots__ = ("values", "xmin", "xmax")

	def __init__(self, values, xmin):
		self.values, self.xmin, self.xmax = values, xmin, None

class Table(object):
	def __init__(self, name, columns):
		self.name, self.columns = name, list(columns)
		self.versions = []
		self.unique = { }		# name -> tuple of expressions
		self.indexes = set()
		self.drop = False
		self.serial = 0
		for c in self.columns:
			if c["unique"]:
				self.unique[name + "_" + c["name"] + "_key"] = (("col", None, c["name"]),)

	def column(self, name):
		for c in self.columns:
			if c["name"] == name:
				return c
		raise ProgrammingError("column %r of relation %r does not exist" % (name, self.name))

class Transaction(object):
	__slots__ = ("state",)
	def __init__(self):
		self.state = "active"

BOOT = Transaction()
BOOT.state = "committed"

class Database(object):
	def __init__(self, now=datetime.datetime(2026, 1, 1)):
		self.tables = {}
		self.now = now

	def rows(self, table):
		"""All committed rows, as tuples"""
		t = self.tables[table]
		return [dict(v.values) for v in t.versions if v.xmin.state == "committed" and (v.xmax is None or v.xmax.state != "committed")]

	def put(self, table, **values):
		"""Stores a row, behind everybody's back"""
		t = self.tables[table]
		t.versions.append(Version({ c["name"] : coerce(parameter(values.get(c["name"])), c["type"]) for c in t.columns }, BOOT))

	def clone(self):
		d = Database(self.now)
		for name, t in self.tables.items():
			n = Table(name, t.columns)
			n.unique, n.indexes, n.serial = dict(t.unique), set(t.indexes), t.serial
			n.versions = [Version(dict(v.values), BOOT) for v in t.versions if v.xmin.state == "committed" and (v.xmax is None or v.xmax.state != "committed")]
			d.tables[name] = n
		return d

class Session(object):
	def __init__(self, db):
		self.db = db
		self.temp = {}
		self.xact = None
		self.failed = False
		self.undo = []
		self.ctes = []

	# -- transactions --
	def begin(self):
		self.xact = Transaction()
		self.failed = False
		self.undo = []

	def commit(self):
		if self.failed:
			return self.rollback()
		self.xact.state = "committed"
		self._end()
		for name in [n for n, t in self.temp.items() if t.drop]:
			del self.temp[name]

	def rollback(self):
		self.rollback_to(0)
		self.xact.state = "aborted"
		self._end()

	def _end(self):
		self.xact, self.failed, self.undo = None, False, []

	def rollback_to(self, mark):
		while len(self.undo) > mark:
			what, table, v = self.undo.pop()
			if what == "insert":
				table.versions.remove(v)
			elif what == "delete":
				v.xmax = None
			elif what == "create":
				self.temp.pop(table, None) if v else self.db.tables.pop(table, None)

	def visible(self, v):
		if not (v.xmin.state == "committed" or v.xmin is self.xact):
			return False
		return v.xmax is None or not (v.xmax.state == "committed" or v.xmax is self.xact)

	def table(self, name):
		t = self.temp.get(name) or self.db.tables.get(name)
		if t is None:
			raise ProgrammingError("relation %r does not exist" % name)
		return t

	# -- statements --
	def execute(self, sql, params=None, single=False):
		"""Runs a script and returns the columns and rows of the last statement"""
		statements, n, named = parse(sql)
		if isinstance(params, dict):
			missing = [x for x in named if x not in params]
			if n:
				raise ProgrammingError("positional placeholders (%s) cannot be used with a mapping")
			if missing:
				raise ProgrammingError("query parameter missing: %s" % missing)
			params = { k : parameter(v) for k, v in params.items() }
		else:
			params = tuple(parameter(v) for v in params or ())
			if len(params) != n or named:
				raise ProgrammingError("the query has %d placeholders but %d parameters were passed" % (n, len(params)))
		if (params or single) and len(statements) > 1:
			raise ProgrammingError("cannot insert multiple commands into a prepared statement")
		result = None
		implicit = self.xact is None
		if implicit:
			self.begin()
		mark = len(self.undo)
		if self.failed:
			raise InternalError("current transaction is aborted, commands ignored until end of transaction block")
		try:
			for s in statements:
				self.params = params
				result = self.run(s, [])
		except BaseException:
			if implicit:
				self.rollback()
			else:
				self.rollback_to(mark)
				self.failed = True
			raise
		if implicit:
			self.commit()
		return result

	def run(self, s, outer):
		kind = s[0]
		if kind == "with":
			scope = {}
			self.ctes.append(scope)
			try:
				for name, columns, q in s[1]:
					names, rows = self.run(q, outer)
					scope[name] = (columns or names, rows)
				return self.run(s[2], outer)
			finally:
				self.ctes.pop()
		if kind in ("select", "union", "except", "intersect", "values", "sorted"):
			return self.query(s, outer)
		return getattr(self, "do_" + kind)(*s[1:], *([outer] if kind in ("insert", "update", "delete") else []))

	def do_nothing(self):
		return None

	def do_begin(self):
		unsupported("BEGIN")

	do_commit = do_rollback = do_begin

	def do_create(self, name, temp, exists, columns, drop):
		where = self.temp if temp else self.db.tables
		if name in where:
			if exists:
				return
			raise ProgrammingError("relation %r already exists" % name)
		t = Table(name, columns)
		t.drop = drop
		where[name] = t
		self.undo.append(("create", name, temp))

	def do_create_as(self, name, temp, exists, q):
		unsupported("CREATE TABLE AS")

	def do_index(self, name, table, unique, exists, exprs):
		t = self.table(table)
		if name in t.indexes:
			if exists:
				return
			raise ProgrammingError("relation %r already exists" % name)
		t.indexes.add(name)
		if unique:
			t.unique[name] = tuple(exprs)
			seen = set()
			for v in t.versions:
				if self.visible(v):
					k = self.unique_key(t, t.unique[name], v.values)
					if k is not None and k in seen:
						raise IntegrityError("could not create unique index %r" % name)
					seen.add(k)

	def do_alter(self, table, actions):
		t = self.table(table)
		for a in actions:
			if a[0] == "add":
				if any(c["name"] == a[2]["name"] for c in t.columns):
					if a[1]:
						continue
					raise ProgrammingError("column %r already exists" % a[2]["name"])
				t.columns.append(a[2])
				d = self.eval(a[2]["default"], [], {}) if a[2]["default"] else None
				if a[2]["notnull"] and d is None and any(map(self.visible, t.versions)):
					raise IntegrityError("column %r contains null values" % a[2]["name"])
				for v in t.versions:
					v.values[a[2]["name"]] = d
			elif a[0] == "drop":
				if not any(c["name"] == a[2] for c in t.columns):
					if a[1]:
						continue
				t.column(a[2])
				t.columns = [c for c in t.columns if c["name"] != a[2]]
				for v in t.versions:
					v.values.pop(a[2], None)
			elif a[0] == "notnull":
				t.column(a[1])["notnull"] = a[2]
			elif a[0] == "type":
				c = t.column(a[1])
				c["type"] = a[2]
				for v in t.versions:
					v.values[a[1]] = coerce(v.values[a[1]], a[2])
			elif a[0] == "default":
				t.column(a[1])["default"] = a[2]

	def do_drop(self, kind, exists, names):
		for n in names:
			if kind == "index":
				for t in list(self.temp.values()) + list(self.db.tables.values()):
					t.indexes.discard(n)
					t.unique.pop(n, None)
			elif n in self.temp:
				del self.temp[n]
			elif n in self.db.tables:
				del self.db.tables[n]
			elif not exists:
				raise ProgrammingError("table %r does not exist" % n)

	def do_truncate(self, names):
		for n in names:
			t = self.table(n)
			for v in t.versions:
				if self.visible(v):
					self.remove(t, v, cascade=False)

	def remove(self, t, v, cascade=True):
		if v.xmax is not None and v.xmax is not self.xact and v.xmax.state == "active":
			unsupported("a statement that would wait for another transaction")
		v.xmax = self.xact
		self.undo.append(("delete", t, v))
		if cascade:
			for other in self.db.tables.values():
				for c in other.columns:
					if c["references"] and c["references"][0] == t.name:
						key = (c["references"][1] or ["id"])[0]
						for w in other.versions:
							if self.visible(w) and w.values[c["name"]] is not None and w.values[c["name"]] == v.values[key]:
								if c["references"][2] == "cascade":
									self.remove(other, w)
								else:
									raise IntegrityError("update or delete on table %r violates foreign key constraint" % t.name)

	def add(self, t, values):
		v = Version(values, self.xact)
		t.versions.append(v)
		self.undo.append(("insert", t, v))
		return v

	def unique_key(self, t, exprs, values):
		k = tuple(self.eval(e, [{ t.name : values }], {}) for e in exprs)
		return None if any(x is None for x in k) else k

	def conflict(self, t, values, names, skip=None):
		"""A row with which this one conflicts"""
		for n in names:
			k = self.unique_key(t, t.unique[n], values)
			if k is None:
				continue
			for v in t.versions:
				if v is skip or v.xmin.state == "aborted":
					continue
				if v.xmax is not None and (v.xmax.state == "committed" or v.xmax is self.xact):
					continue
				if self.unique_key(t, t.unique[n], v.values) == k:
					if (v.xmin.state == "active" and v.xmin is not self.xact) or (v.xmax is not None and v.xmax.state == "active"):
						unsupported("a statement that would wait for another transaction")
					return v, n
		return None, None

	def constraints(self, t, values):
		for c in t.columns:
			if c["notnull"] and values[c["name"]] is None:
				raise IntegrityError("null value in column %r of relation %r violates not-null constraint" % (c["name"], t.name))
			if c["references"] and values[c["name"]] is not None:
				r = self.table(c["references"][0])
				key = (c["references"][1] or ["id"])[0]
				if not any(self.visible(v) and v.values[key] == values[c["name"]] for v in r.versions):
					raise IntegrityError("insert or update on table %r violates foreign key constraint" % t.name)

	def do_insert(self, table, alias, columns, source, conflict, returning, outer):
		t = self.table(table)
		columns = columns or [c["name"] for c in t.columns]
		types = [t.column(c) for c in columns]
		names, rows = self.run(source, outer)
		if len(names) != len(columns):
			raise ProgrammingError("INSERT has %d expressions and %d target columns" % (len(names), len(columns)))
		touched, out = set(), []
		for row in rows:
			values = {}
			given = dict(zip(columns, row))
			for c in t.columns:
				x = given.get(c["name"], DEFAULT)
				if x is DEFAULT:
					if c["type"] in ("serial", "bigserial"):
						t.serial += 1
						x = t.serial
					else:
						x = self.eval(c["default"], [], {}) if c["default"] else None
				values[c["name"]] = coerce(x, c["type"], c["name"])
			self.constraints(t, values)
			if conflict:
				target = list(t.unique)
				if conflict[0]:
					want = set(conflict[0])
					target = [n for n, e in t.unique.items() if { x[2] if x[0] == "col" else None for x in e } == want]
					if not target:
						raise ProgrammingError("there is no unique or exclusion constraint matching the ON CONFLICT specification")
				elif conflict[1] is not None:
					raise ProgrammingError("ON CONFLICT DO UPDATE requires inference specification or constraint name")
				v, n = self.conflict(t, values, target)
				if v is not None:
					if conflict[1] is None:
						continue
					if id(v) in touched:
						raise IntegrityError("ON CONFLICT DO UPDATE command cannot affect row a second time")
					env = [{ "excluded" : values, alias : v.values }]
					if conflict[2] is not None and self.eval(conflict[2], env, {}) is not True:
						continue
					new = self.change(t, v, conflict[1], env)
					touched.add(id(new))
					out.append(new.values)
					continue
			v, n = self.conflict(t, values, t.unique)
			if v is not None:
				raise IntegrityError("duplicate key value violates unique constraint %r" % n)
			v = self.add(t, values)
			touched.add(id(v))
			out.append(v.values)
		return self.returned(returning, alias, out)

	def returned(self, returning, alias, rows):
		if not returning:
			return None
		names, out = [], []
		for r in rows:
			o, names = [], []
			for e, a in returning:
				if e == "*":
					o += r.values()
					names += r.keys()
				else:
					o.append(self.eval(e, [{ alias : r }], {}))
					names.append(a)
			out.append(tuple(o))
		return names, out

	def change(self, t, v, sets, env):
		values = dict(v.values)
		for c, e in sets:
			col = t.column(c)
			x = self.eval(e, env, {})
			if x is DEFAULT:
				x = self.eval(col["default"], [], {}) if col["default"] else None
			values[c] = coerce(x, col["type"], c)
		self.constraints(t, values)
		w, n = self.conflict(t, values, t.unique, skip=v)
		if w is not None:
			raise IntegrityError("duplicate key value violates unique constraint %r" % n)
		self.remove(t, v, cascade=False)
		return self.add(t, values)

	def do_update(self, table, alias, sets, source, where, returning, outer):
		t = self.table(table)
		out = []
		sources = self.source(source, outer) if source else [{}]
		for v in [v for v in t.versions if self.visible(v)]:
			for s in sources:
				env = outer + [dict(s, **{ alias : v.values })]
				if where is None or self.eval(where, env, {}) is True:
					# Only the first match counts
					out.append(self.change(t, v, sets, env).values)
					break
		return self.returned(returning, alias, out)

	def do_delete(self, table, alias, source, where, returning, outer):
		t = self.table(table)
		out = []
		sources = self.source(source, outer) if source else [{}]
		gone = []
		for v in [v for v in t.versions if self.visible(v)]:
			for s in sources:
				if where is None or self.eval(where, outer + [dict(s, **{ alias : v.values })], {}) is True:
					gone.append(v)
					out.append(v.values)
					break
		for v in gone:
			if self.visible(v):
				self.remove(t, v)
		return self.returned(returning, alias, out)

	# -- queries --
	def relation(self, name):
		for scope in reversed(self.ctes):
			if name in scope:
				names, rows = scope[name]
				return names, [dict(zip(names, r)) for r in rows]
		t = self.table(name)
		return [c["name"] for c in t.columns], [v.values for v in t.versions if self.visible(v)]

	def source_columns(self, s):
		"""(alias, column) of everything in a FROM clause"""
		if s is None:
			return []
		if s[0] == "table":
			return [(s[2], n) for n in self.relation(s[1])[0]]
		if s[0] == "sub":
			return [(s[2], n) for n in self._subcolumns[id(s)]]
		return self.source_columns(s[2]) + self.source_columns(s[3])

	_subcolumns = {}

	def source(self, s, outer):
		if s[0] == "table":
			return [{ s[2] : r } for r in self.relation(s[1])[1]]
		if s[0] == "sub":
			names, rows = self.run(s[1], outer)
			names = s[3] or names
			self._subcolumns[id(s)] = names
			return [{ s[2] : dict(zip(names, r)) } for r in rows]
		_, kind, a, b, on = s
		left, right = self.source(a, outer), self.source(b, outer)
		out = []
		for l in left:
			found = False
			for r in right:
				env = { **l, **r }
				if on is None:
					ok = True
				elif on[0] == "using":
					ok = all(self.column([l], None, c) == self.column([r], None, c) is not None for c in on[1])
				else:
					ok = self.eval(on, outer + [env], {}) is True
				if ok:
					found = True
					out.append(env)
			if kind == "left" and not found:
				env = dict(l)
				for alias, c in self.source_columns(b):
					env.setdefault(alias, {})[c] = None
				out.append(env)
		return out

	def has(self, e, kind):
		if isinstance(e, tuple):
			if e and e[0] == kind:
				return True
			if e and e[0] in ("scalar", "subquery", "exists"):
				return False
			return any(self.has(x, kind) for x in e)
		if isinstance(e, list):
			return any(self.has(x, kind) for x in e)
		return False

	def windows(self, e, out):
		if isinstance(e, tuple) and e and e[0] == "window":
			out.append(e)
		elif isinstance(e, (tuple, list)):
			for x in e:
				self.windows(x, out)
		return out

	def sort(self, rows, order, value):
		"""Sorts rows by [(expression, desc, nulls first)]"""
		rows = list(rows)
		for e, desc, first in reversed(order):
			keyed = [(value(e, r), r) for r in rows]
			nulls = [r for k, r in keyed if k is None]
			others = sorted([(k, r) for k, r in keyed if k is not None], key=lambda x : Key(x[0]), reverse=desc)
			others = [r for _, r in others]
			rows = nulls + others if first else others + nulls
		return rows

	def query(self, q, outer):
		kind = q[0]
		if kind == "values":
			rows = [tuple(self.eval(e, outer, {}) for e in r) for r in q[1]]
			return ["column%d" % (i + 1) for i in range(len(q[1][0]))], rows
		if kind in ("union", "except", "intersect"):
			a, b = (self.run(x, outer) for x in q[-2:])
			if len(a[0]) != len(b[0]):
				raise ProgrammingError("each %s query must have the same number of columns" % kind.upper())
			if kind == "union":
				rows = a[1] + b[1]
				return a[0], rows if q[1] else list(dict.fromkeys(rows))
			keep = set(b[1])
			return a[0], [r for r in dict.fromkeys(a[1]) if (r in keep) == (kind == "intersect")]
		if kind == "sorted":
			names, rows = self.run(q[1], outer)
			rows = self.sort(rows, q[2], lambda e, r : r[e[1] - 1] if e[0] == "const" else self.eval(e, outer + [{ "" : dict(zip(names, r)) }], {}))
			return names, self.cut(rows, q[3], q[4], outer)
		_, distinct, items, source, where, group, having, order, limit, offset = q
		envs = self.source(source, outer) if source else [{}]
		if where is not None:
			envs = [e for e in envs if self.eval(where, outer + [e], {}) is True]
		columns = self.source_columns(source)
		# Expand all stars
		expanded = []
		for e, a in items:
			if e == "*":
				for alias, c in columns:
					if a is None or a == alias:
						expanded.append((("col", alias, c), c))
			else:
				expanded.append((e, a))
		names = [a for _, a in expanded]
		contexts = [(e, {}) for e in envs]
		if group is not None or any(self.has(e, "agg") for e, _ in expanded) or having is not None:
			groups = {}
			for e in envs:
				groups.setdefault(tuple(self.eval(g, outer + [e], {}) for g in group or ()), []).append(e)
			if not groups and not group:
				groups[()] = []
			contexts = []
			for members in groups.values():
				ctx = { "group" : members }
				e = members[0] if members else {}
				if having is None or self.eval(having, outer + [e], ctx) is True:
					contexts.append((e, ctx))
		for w in self.windows([e for e, _ in expanded], []):
			parts = {}
			for e, ctx in contexts:
				parts.setdefault(tuple(self.eval(p, outer + [e], ctx) for p in w[4]), []).append((e, ctx))
			for members in parts.values():
				members = self.sort(members, w[5], lambda x, r : self.eval(x, outer + [r[0]], r[1]))
				last, rank, dense = None, 0, 0
				for i, (e, ctx) in enumerate(members):
					k = tuple(self.eval(o[0], outer + [e], ctx) for o in w[5])
					if i == 0 or k != last:
						last, rank, dense = k, i + 1, dense + 1
					ctx[id(w)] = i + 1 if w[1] == "row_number" else rank if w[1] == "rank" else dense if w[1] == "dense_rank" \
						else self.eval(w[2][0], outer + [members[0][0]], members[0][1])
		rows = [(tuple(self.eval(e, outer + [env], ctx) for e, _ in expanded), env, ctx) for env, ctx in contexts]
		def value(e, r):
			if e[0] == "const" and isinstance(e[1], int):
				return r[0][e[1] - 1]
			if e[0] == "col" and e[1] is None and e[2] in names:
				return r[0][names.index(e[2])]
			return self.eval(e, outer + [r[1]], r[2])
		if order:
			rows = self.sort(rows, order, value)
		if distinct is True:
			seen, out = set(), []
			for r in rows:
				if r[0] not in seen:
					seen.add(r[0])
					out.append(r)
			rows = out
		elif distinct:
			if order and [repr(e) for e, _, _ in order[:len(distinct)]] != [repr(d) for d in distinct] and \
					set(repr(e) for e, _, _ in order[:len(distinct)]) != set(repr(d) for d in distinct):
				raise ProgrammingError("SELECT DISTINCT ON expressions must match initial ORDER BY expressions")
			seen, out = set(), []
			for r in rows:
				k = tuple(value(d, r) for d in distinct)
				if k not in seen:
					seen.add(k)
					out.append(r)
			rows = out
		return names, self.cut([r[0] for r in rows], limit, offset, outer)

	def cut(self, rows, limit, offset, outer):
		if offset is not None:
			rows = rows[self.eval(offset, outer, {}):]
		if limit is not None:
			rows = rows[:self.eval(limit, outer, {})]
		return rows

	# -- expressions --
	def column(self, scopes, alias, name):
		for scope in reversed(scopes):
			if alias is not None:
				if alias in scope:
					r = scope[alias]
					if name not in r:
						raise ProgrammingError("column %s.%s does not exist" % (alias, name))
					return r[name]
			else:
				hits = [r for r in scope.values() if name in r]
				if len(hits) > 1 and len(scope) > 1 and "excluded" not in scope:
					raise ProgrammingError("column reference %r is ambiguous" % name)
				if hits:
					return hits[-1][name]
		if alias is not None:
			raise ProgrammingError("missing FROM-clause entry for table %r" % alias)
		raise ProgrammingError("column %r does not exist" % name)

	def eval(self, e, scopes, ctx):
		return getattr(self, "e_" + e[0])(e, scopes, ctx)

	def e_const(self, e, scopes, ctx):
		return e[1]

	def e_param(self, e, scopes, ctx):
		return self.params[e[1]]

	def e_default(self, e, scopes, ctx):
		return DEFAULT

	def e_now(self, e, scopes, ctx):
		return self.db.now

	def e_interval(self, e, scopes, ctx):
		m = re.fullmatch(r"\s*(\d+)\s*(second|minute|hour|day|week)s?\s*", e[1])
		if not m:
			unsupported("INTERVAL %r" % e[1])
		return datetime.timedelta(**{ m.group(2) + "s" : int(m.group(1)) })

	def e_col(self, e, scopes, ctx):
		return self.column(scopes, e[1], e[2])

	def e_row(self, e, scopes, ctx):
		return tuple(self.eval(x, scopes, ctx) for x in e[1])

	def e_and(self, e, scopes, ctx):
		a = self.eval(e[1], scopes, ctx)
		if a is False:
			return False
		b = self.eval(e[2], scopes, ctx)
		return False if b is False else None if a is None or b is None else True

	def e_or(self, e, scopes, ctx):
		a = self.eval(e[1], scopes, ctx)
		if a is True:
			return True
		b = self.eval(e[2], scopes, ctx)
		return True if b is True else None if a is None or b is None else False

	def e_not(self, e, scopes, ctx):
		a = self.eval(e[1], scopes, ctx)
		return None if a is None else not a

	def e_isnull(self, e, scopes, ctx):
		return self.eval(e[1], scopes, ctx) is None

	def e_istrue(self, e, scopes, ctx):
		return self.eval(e[1], scopes, ctx) is e[2]

	def e_distinct(self, e, scopes, ctx):
		a, b = self.unify(self.eval(e[1], scopes, ctx), self.eval(e[2], scopes, ctx))
		return a != b

	def unify(self, a, b):
		"""A literal takes the type of the other operand"""
		for x, y in ((a, b), (b, a)):
			if isinstance(x, str):
				if isinstance(y, Inet):
					x2 = Inet.parse(x)
				elif isinstance(y, bool):
					x2 = coerce(x, "boolean")
				elif isinstance(y, int):
					x2 = coerce(x, "bigint")
				else:
					continue
				return (x2, y) if x is a else (y, x2)
		return a, b

	def compare(self, op, a, b):
		if a is None or b is None:
			return None
		a, b = self.unify(a, b)
		if isinstance(a, bool) != isinstance(b, bool) or (type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)))):
			raise ProgrammingError("operator does not exist: %s %s %s" % (type(a).__name__, op, type(b).__name__))
		return { "=" : lambda : a == b, "<>" : lambda : a != b, "<" : lambda : a < b, "<=" : lambda : a <= b, ">" : lambda : a > b, ">=" : lambda : a >= b }[op]()

	def e_cmp(self, e, scopes, ctx):
		return self.compare(e[1], self.eval(e[2], scopes, ctx), self.eval(e[3], scopes, ctx))

	def members(self, q, scopes, ctx):
		if q[0] == "subquery":
			names, rows = self.run(q[1], scopes)
			return [r[0] if len(r) == 1 else r for r in rows]
		if q[0] == "list":
			return [self.eval(x, scopes, ctx) for x in q[1]]
		return self.eval(q, scopes, ctx)

	def e_in(self, e, scopes, ctx):
		return self.some("=", self.eval(e[1], scopes, ctx), self.members(e[2], scopes, ctx))

	def some(self, op, a, members):
		if members is None:
			return None
		result = False
		for m in members:
			r = self.compare(op, a, m)
			if r is True:
				return True
			if r is None:
				result = None
		return result

	def e_any(self, e, scopes, ctx):
		return self.some("<>" if e[1] == "!=" else e[1], self.eval(e[2], scopes, ctx), self.members(e[3], scopes, ctx))

	def e_all(self, e, scopes, ctx):
		inverse = { "=" : "<>", "<>" : "=", "!=" : "=", "<" : ">=", "<=" : ">", ">" : "<=", ">=" : "<" }[e[1]]
		r = self.some(inverse, self.eval(e[2], scopes, ctx), self.members(e[3], scopes, ctx))
		return None if r is None else not r

	def e_op(self, e, scopes, ctx):
		a, b = self.eval(e[2], scopes, ctx), self.eval(e[3], scopes, ctx)
		op = e[1]
		if a is None or b is None:
			return None
		if op == "||":
			return a + b if isinstance(a, tuple) else "%s%s" % (a, b)
		if op in ("<<", "<<=", ">>", ">>=", "&&"):
			a, b = self.unify(a, b)
			if isinstance(a, str) and isinstance(b, str):
				a, b = Inet.parse(a), Inet.parse(b)
			if not (isinstance(a, Inet) and isinstance(b, Inet)):
				raise ProgrammingError("operator does not exist: %s %s %s" % (type(a).__name__, op, type(b).__name__))
			if op == "&&":
				return a.contains(b, False) or b.contains(a, False)
			return a.contains(b, op == ">>") if op[0] == ">" else b.contains(a, op == "<<")
		a, b = self.unify(a, b)
		if op == "+":
			return a + b
		if op == "-":
			return a - b
		if op == "*":
			return a * b
		if b == 0:
			raise DataError("division by zero")
		if op == "%":
			return abs(a) % abs(b) * (1 if a >= 0 else -1)
		return int(a / b) if isinstance(a, int) and isinstance(b, int) else a / b

	def e_neg(self, e, scopes, ctx):
		a = self.eval(e[1], scopes, ctx)
		return None if a is None else -a

	def e_cast(self, e, scopes, ctx):
		return coerce(self.eval(e[1], scopes, ctx), e[2])

	def e_coalesce(self, e, scopes, ctx):
		for x in e[1]:
			v = self.eval(x, scopes, ctx)
			if v is not None:
				return v

	def e_case(self, e, scopes, ctx):
		for c, v in e[1]:
			if self.eval(c, scopes, ctx) is True:
				return self.eval(v, scopes, ctx)
		return self.eval(e[2], scopes, ctx)

	def e_scalar(self, e, scopes, ctx):
		names, rows = self.run(e[1], scopes)
		if len(rows) > 1:
			raise ProgrammingError("more than one row returned by a subquery used as an expression")
		return rows[0][0] if rows else None

	def e_exists(self, e, scopes, ctx):
		return bool(self.run(e[1], scopes)[1])

	def e_window(self, e, scopes, ctx):
		return ctx[id(e)]

	def e_agg(self, e, scopes, ctx):
		if "group" not in ctx:
			raise ProgrammingError("aggregate functions are not allowed here")
		if e[2] is None:
			return len(ctx["group"])
		values = [self.eval(e[2], scopes[:-1] + [env], {}) for env in ctx["group"]]
		if e[1] == "array_agg":
			return tuple(dict.fromkeys(values)) if e[3] else tuple(values)
		values = [v for v in values if v is not None]
		if e[3]:
			values = list(dict.fromkeys(values))
		if e[1] == "count":
			return len(values)
		if not values:
			return None
		return { "min" : min, "max" : max, "sum" : sum, "bool_or" : any, "bool_and" : all, "every" : all }[e[1]](values)

	def e_call(self, e, scopes, ctx):
		args = [self.eval(x, scopes, ctx) for x in e[2]]
		name = e[1]
		if name == "now":
			return self.db.now
		if name not in FUNCTIONS:
			unsupported("function %s()" % name)
		if any(a is None for a in args):
			return None
		if name in ("masklen", "family", "host", "network", "set_masklen", "text", "abbrev", "broadcast"):
			args[0] = coerce(args[0], "inet")
		return FUNCTIONS[name](*args)

FUNCTIONS = {
	"masklen" : lambda n : n.plen,
	"family"  : lambda n : n.version,
	"host"    : lambda n : repr(n).split("/")[0],
	"network" : lambda n : Inet(n.version, n.prefix(n.plen) << (n.bits - n.plen), n.plen),
	"lower"   : lambda s : s.lower(),
	"upper"   : lambda s : s.upper(),
	"trim"    : lambda s : s.strip(" "),
	"length"  : lambda s : len(s),
	"greatest" : max, "least" : min, "abs" : abs,
	"nullif"  : lambda a, b : None if a == b else a,
}

class Default(object):
	pass

DEFAULT = Default()

@functools.total_ordering
class Key(object):
	def __init__(self, v):
		self.v = v
	def __eq__(self, o):
		return self.v == o.v
	def __lt__(self, o):
		return self.v < o.v

# ---- the client library ----

def result(v):
	return v.python() if isinstance(v, Inet) else [result(x) for x in v] if isinstance(v, tuple) else v
