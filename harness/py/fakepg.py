"""The modules psycopg and psycopg_pool, with minipg behind them"""
import sys, types
import pymc, minipg

class Server(object):
	"""One database, and everything that happens to it"""
	def __init__(self, db=None):
		self.db = db or minipg.Database()
		self.connections = []
		self.log = []			# (connection, what, sql, parameters)
		self.fault = None		# called with (connection, what, sql) before anything is done
		self.watch = None		# called after everything

	def event(self, conn, what, sql=None, params=None):
		if self.watch:
			self.watch(conn, what, sql, params)
		if self.fault:
			self.fault(conn, what, sql)
		self.log.append((conn, what, sql, params))

server = None

class OperationalError(minipg.Error):
	pass

class Cursor(object):
	def __init__(self, conn, row_factory=None):
		self.conn, self.result, self.at, self.closed = conn, None, 0, False
		self.row_factory = row_factory or conn.row_factory

	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.close()

	def close(self):
		self.closed = True

	def execute(self, query, params=None, *, prepare=None, binary=None):
		if self.closed:
			raise OperationalError("the cursor is closed")
		self.result, self.at = self.conn._execute(query, params), 0
		return self

	def executemany(self, query, params_seq, *, returning=False):
		if self.closed:
			raise OperationalError("the cursor is closed")
		for p in params_seq:
			self.conn._execute(query, p)

	@property
	def rowcount(self):
		return len(self.result[1]) if self.result else -1

	@property
	def description(self):
		return [(n,) for n in self.result[0]] if self.result else None

	def _rows(self):
		if self.result is None:
			raise minipg.ProgrammingError("the last operation didn't produce a result")
		names, rows = self.result
		while self.at < len(rows):
			r = tuple(minipg.result(v) for v in rows[self.at])
			self.at += 1
			yield dict(zip(names, r)) if self.row_factory is dict_row else r

	def __iter__(self):
		return self._rows()

	def fetchone(self):
		return next(self._rows(), None)

	def fetchall(self):
		return list(self._rows())

	def fetchmany(self, size=1):
		return [r for _, r in zip(range(size), self._rows())]

class Block(object):
	"""A transaction or a savepoint"""
	def __init__(self, conn, force_rollback=False):
		self.conn, self.force = conn, force_rollback

	def __enter__(self):
		c = self.conn
		c._check()
		self.outer = c.session.xact is None
		if self.outer:
			server.event(c, "BEGIN")
			c.session.begin()
			self.mark = 0
		else:
			c._event("SAVEPOINT")
			if c.session.failed:
				raise minipg.InternalError("current transaction is aborted, commands ignored until end of transaction block")
			self.mark = len(c.session.undo)
		c.blocks.append(self)
		return self

	def __exit__(self, type, value, tb):
		c = self.conn
		if c.blocks and c.blocks[-1] is self:
			c.blocks.pop()
		elif self in c.blocks:
			# psycopg refuses this
			c.blocks.remove(self)
			raise minipg.ProgrammingError("transaction commit at the wrong nesting level")
		if c.closed:
			if type is None:
				raise OperationalError("the connection is closed")
			return False
		if c.session.xact is None:
			return False
		if type is None and not self.force:
			if self.outer:
				try:
					server.event(c, "COMMIT")
				except minipg.Error:
					# The transaction is over in any case
					if c.session.xact is not None:
						c.session.rollback()
					raise
				c.session.commit()
			else:
				c._event("RELEASE")
		else:
			if self.outer:
				server.event(c, "ROLLBACK")
				c.session.rollback()
			else:
				server.event(c, "ROLLBACK TO")
				c.session.rollback_to(self.mark)
				c.session.failed = False
		return False

class Pipeline(object):
	def __init__(self, conn):
		self.conn = conn

	def __enter__(self):
		self.conn._check()
		self.conn.pipelines += 1
		return self

	def __exit__(self, type, value, tb):
		c = self.conn
		c.pipelines -= 1
		if not c.pipelines:
			e, c.pending = c.pending, None
			if e is not None and type is None:
				raise e
		return False

	def sync(self):
		e, self.conn.pending = self.conn.pending, None
		if e is not None:
			raise e

class Connection(object):
	def __init__(self):
		self.session = minipg.Session(server.db)
		self._autocommit = False
		self.row_factory = tuple_row
		self.closed = False
		self.blocks = []
		self.pipelines, self.pending = 0, None
		self.number = len(server.connections)
		server.connections.append(self)

	def __repr__(self):
		return "<Connection %d>" % self.number

	@property
	def autocommit(self):
		return self._autocommit

	@autocommit.setter
	def autocommit(self, value):
		if self.session.xact is not None:
			raise minipg.ProgrammingError("can't change 'autocommit' now: connection in transaction status INTRANS")
		self._autocommit = bool(value)

	def set_autocommit(self, value):
		self.autocommit = value

	def _check(self):
		if self.closed:
			raise OperationalError("the connection is closed")

	def _event(self, *args):
		try:
			server.event(self, *args)
		except minipg.Error:
			# An error aborts the transaction
			if self.session.xact is not None:
				self.session.failed = True
			raise

	def _execute(self, query, params):
		self._check()
		if isinstance(query, bytes):
			query = query.decode()
		if self.pending is not None:
			return None
		try:
			self._event("EXECUTE", query, params)
			if not self._autocommit and self.session.xact is None:
				self.session.begin()
			return self.session.execute(query, params, single=self.pipelines > 0)
		except minipg.Error as e:
			# Errors surface when the pipeline is synchronised
			if self.pipelines:
				self.pending = e
				return None
			raise

	def execute(self, query, params=None, **kwargs):
		return self.cursor().execute(query, params)

	def cursor(self, *args, row_factory=None, **kwargs):
		self._check()
		return Cursor(self, row_factory)

	def transaction(self, savepoint_name=None, force_rollback=False):
		return Block(self, force_rollback)

	def pipeline(self):
		return Pipeline(self)

	def commit(self):
		self._check()
		if self.session.xact is not None:
			server.event(self, "COMMIT")
			self.session.commit()

	def rollback(self):
		self._check()
		if self.session.xact is not None:
			server.event(self, "ROLLBACK")
			self.session.rollback()

	def drop(self):
		"""The connection is lost"""
		self.closed = True
		if self.session.xact is not None:
			self.session.rollback()
		self.session.temp.clear()

	def close(self):
		if not self.closed:
			self.drop()

	def __enter__(self):
		return self

	def __exit__(self, type, value, tb):
		if not self.closed:
			self.rollback() if type else self.commit()
		self.close()

class PoolTimeout(OperationalError):
	pass

class PoolClosed(OperationalError):
	pass

class ConnectionPool(object):
	def __init__(self, conninfo="", *, configure=None, min_size=4, max_size=None, kwargs=None, open=True, timeout=30, connection_class=None, check=None, reset=None, name=None, max_idle=600, max_lifetime=3600, **options):
		self.conninfo, self.configure, self.max_size, self.kwargs, self.reset = conninfo, configure, max_size or min_size, kwargs or {}, reset
		self.idle, self.used = [], []
		self.closed = False
		server.pools = getattr(server, "pools", []) + [self]

	def open(self, wait=False, timeout=30):
		pass

	def wait(self, timeout=30):
		pass

	def getconn(self, timeout=None):
		if self.closed:
			raise PoolClosed("the pool is closed")
		while self.idle:
			c = self.idle.pop()
			if not c.closed:
				break
		else:
			if len(self.used) >= self.max_size:
				raise PoolTimeout("couldn't get a connection")
			if server.fault:
				server.fault(None, "CONNECT", None)
			c = Connection()
			if "autocommit" in self.kwargs:
				c.autocommit = self.kwargs["autocommit"]
			if "row_factory" in self.kwargs:
				c.row_factory = self.kwargs["row_factory"]
			if self.configure:
				self.configure(c)
				if c.session.xact is not None:
					c.close()
					raise OperationalError("connection left in status INTRANS by configure function: discarded")
		self.used.append(c)
		return c

	def putconn(self, conn):
		if conn not in self.used:
			raise ValueError("can't return connection to pool, it doesn't come from any pool")
		self.used.remove(conn)
		conn.blocks, conn.pipelines, conn.pending = [], 0, None
		if conn.closed or self.closed:
			conn.close()
			return
		if conn.session.xact is not None:
			server.event(conn, "ROLLBACK")
			conn.session.rollback()
		self.idle.append(conn)

	def connection(self, timeout=None):
		return Lease(self)

	def close(self, timeout=5):
		self.closed = True
		for c in self.idle:
			c.close()

class Lease(object):
	def __init__(self, pool):
		self.pool = pool

	def __enter__(self):
		self.conn = self.pool.getconn()
		return self.conn

	def __exit__(self, type, value, tb):
		try:
			if self.conn.session.xact is not None and not self.conn.closed:
				self.conn.rollback() if type else self.conn.commit()
		finally:
			self.pool.putconn(self.conn)

def dict_row(cursor):
	return dict

def tuple_row(cursor):
	return tuple

def install():
	pg = types.ModuleType("psycopg")
	rows = types.ModuleType("psycopg.rows")
	rows.dict_row, rows.tuple_row = dict_row, tuple_row
	errors = types.ModuleType("psycopg.errors")
	pg.rows, pg.errors = rows, errors
	pg.Connection, pg.Cursor = Connection, Cursor
	pg.Error = minipg.Error
	pg.DatabaseError = minipg.Error
	pg.OperationalError = OperationalError
	for n in ("DataError", "IntegrityError", "ProgrammingError", "InternalError"):
		setattr(pg, n, getattr(minipg, n))
	pool = types.ModuleType("psycopg_pool")
	pool.ConnectionPool, pool.PoolTimeout, pool.PoolClosed = ConnectionPool, PoolTimeout, PoolClosed
	sys.modules.update({ "psycopg" : pg, "psycopg.rows" : rows, "psycopg.errors" : errors, "psycopg_pool" : pool })

def start(db=None):
	global server
	server = Server(db)
	return server
