"""C26: concurrent tasks never share a database session"""
import asyncio, itertools, logging
import pymc, fakepg, importer, minipg

# What a task does, one letter per step. Before each step, any other task may run.
#   i  inserts a row           m  inserts two rows (executemany)
#   q  reads all rows          g  reads one row (get)
#   (  begins a transaction    )  ends it
#   !  raises an exception that is caught outside of the innermost transaction
#   x  raises an exception that nobody catches
#   [  begins a pipeline       ]  ends it
#   e  a statement that fails, the error is caught outside of the innermost transaction
# Finally, all tasks may be cancelled before a step. Some clean up after that, using the
# database, before they end; others ignore it.

class Stop(Exception):
	pass

class Fail(Exception):
	pass

def programs(length, ops, depth=2):
	"""All programs up to a length"""
	def grow(prefix, n, stack):
		if len(prefix) + len(stack) > n:
			return
		if not stack:
			yield prefix
		if len(prefix) == n:
			return
		for o in ops:
			if o in "([":
				if len(stack) < depth and "[" not in stack:
					yield from grow(prefix + o, n, stack + o)
			elif o in ")]":
				if stack and stack[-1] == { ")" : "(", "]" : "[" }[o]:
					yield from grow(prefix + o, n, stack[:-1])
			elif o in "!e":
				# Leaves the innermost block (what happens to a pipeline then is up to the database)
				if "[" in stack:
					pass
				elif stack:
					yield from grow(prefix + o, n, stack[:-1])
				elif o == "e":
					yield from grow(prefix + o, n, stack)
			elif o == "x":
				yield prefix + o
			elif o == "q" and "[" in stack:
				pass
			elif o == "g" and "[" in stack:
				pass
			else:
				yield from grow(prefix + o, n, stack)
	return sorted(set(p for p in grow("", length, "") if p), key=lambda p : (len(p), p))

class World(object):
	"""The expected state"""
	def __init__(self, mc):
		self.mc = mc
		self.committed = set()
		self.pending = {}	# task -> stack of sets
		self.gates = {}
		self.conns = {}		# task -> connection
		self.done = set()
		self.errors = []
		self.counter = 0

class Runner(object):
	def __init__(self, mc, db, w, name, program, cleanup=None):
		self.mc, self.db, self.w, self.name, self.program, self.cleanup = mc, db, w, name, program, cleanup
		self.stack = []
		self.finished = False

	async def step(self):
		f = asyncio.get_running_loop().create_future()
		self.w.gates[self.name] = f
		try:
			await f
		finally:
			self.w.gates.pop(self.name, None)

	def used(self):
		"""Which connection do we use?"""
		pass

	def visible(self):
		v = set(self.w.committed)
		for s in self.stack:
			v |= s
		return v

	def insert(self, rows):
		for r in rows:
			(self.stack[-1] if self.stack else self.w.committed).add(r)

	async def block(self, pos, kind):
		"""Runs until the block has been closed; returns where to go on"""
		while pos < len(self.program):
			await self.step()
			o = self.program[pos]
			self.mc.ops()
			if o == "i":
				self.w.counter += 1
				self.db.execute("INSERT INTO t(v, who) VALUES(%s, %s)", self.w.counter, self.name)
				self.insert([self.w.counter])
			elif o == "m":
				rows = [self.w.counter + 1, self.w.counter + 2]
				self.w.counter += 2
				self.db.executemany("INSERT INTO t(v, who) VALUES(%s, %s)", [(r, self.name) for r in rows])
				self.insert(rows)
			elif o == "q":
				got = [r.v for r in self.db.query("SELECT v FROM t ORDER BY v")]
				self.mc.equal(got, sorted(self.visible()), "rows that task %s reads" % self.name)
			elif o == "g":
				r = self.db.get("SELECT COUNT(*) AS n FROM t WHERE who = %(who)s", who=self.name)
				self.mc.check(isinstance(r, dict) and r.n == r["n"], "%r" % r)
			elif o in "([":
				pos = await self.enter(pos + 1, o)
				continue
			elif o in ")]":
				return pos + 1
			elif o == "!":
				raise Stop(pos + 1)
			elif o == "e":
				try:
					self.db.execute("SELECT * FROM nowhere")
				except minipg.Error as e:
					if not kind:
						pos += 1
						continue
					raise Stop(pos + 1)
				self.mc.check(False, "the error of a statement has been lost")
			elif o == "x":
				raise Fail()
			pos += 1
		return pos

	async def enter(self, pos, kind):
		outer = self.stack
		try:
			if kind == "(":
				with self.db.transaction():
					self.stack = outer + [set()]
					pos = await self.block(pos, kind)
				# It has been committed
				rows = self.stack[-1]
				self.stack = outer
				self.insert(rows)
			else:
				with self.db.pipeline():
					pos = await self.block(pos, kind)
		except Stop as e:
			self.stack = outer
			return e.args[0]
		except BaseException:
			self.stack = outer
			raise
		return pos

	async def run(self):
		try:
			await self.block(0, "")
		except asyncio.CancelledError:
			if not self.cleanup:
				raise
			kind, self.program = self.cleanup
			await self.block(0, "")
			if kind == "raise":
				raise
		finally:
			self.finished = True

def explore(mc, programs, cancel, fault=None, later=None, cleanup=None):
	import location.database
	server = fakepg.start(EMPTY.clone())
	w = World(mc)
	owner = {}		# connection -> task

	def watch(conn, what, sql, params):
		task = asyncio.current_task()
		if task is None:
			# Released after the task has ended
			mc.check(what == "ROLLBACK", lambda : "%s outside of any task" % what)
			return
		name = task.get_name()
		mc.check(owner.get(conn, name) == name, lambda : "%s uses the session of task %s, which is still running: %s %s" % (name, owner.get(conn), what, sql))
		owner[conn] = name
		mc.check(w.conns.setdefault(name, conn) is conn, lambda : "task %s uses more than one session" % name)
	server.watch = watch
	state = { "n" : 0 }
	if fault:
		kind, at = fault
		def f(conn, what, sql):
			if what not in ("EXECUTE", "CONNECT", "BEGIN", "COMMIT", "SAVEPOINT", "RELEASE"):
				return
			state["n"] += 1
			if state["n"] == at:
				mc.ops()
				if conn is not None and kind == "lost":
					conn.drop()
				raise fakepg.OperationalError("broken by the test")
		server.fault = f

	loop = asyncio.SelectorEventLoop()
	problems = []
	loop.set_exception_handler(lambda l, c : problems.append(c))
	tasks = {}
	cancelled = set()
	log = []

	async def settle():
		for _ in range(6):
			await asyncio.sleep(0)

	async def driver():
		db = location.database.Connection("h", "n", "u", "p")
		todo = list(enumerate(programs))
		for i, p in todo:
			start(db, i, p)
		await settle()
		lates = list(later or ())
		while True:
			waiting = sorted(n for n in w.gates if not w.gates[n].done())
			for n, t in tasks.items():
				if t.done() and n in [owner[c] for c in owner]:
					for c in [c for c in owner if owner[c] == n]:
						del owner[c]
			if not waiting:
				if lates:
					start(db, len(tasks), lates.pop(0))
					await settle()
					continue
				break
			moves = [(n, False) for n in waiting]
			if cancel and len(cancelled) < cancel:
				moves += [(n, True) for n in waiting]
			n, c = moves[mc.choose(len(moves)) if len(moves) > 1 else 0]
			log.append(n + ("!" if c else ""))
			if c:
				cancelled.add(n)
				tasks[n].cancel()
			else:
				w.gates.pop(n).set_result(None)
			await settle()
		return db

	def start(db, i, p):
		name = "T%d" % i
		r = Runner(mc, db, w, name, p, cleanup)
		tasks[name] = asyncio.get_running_loop().create_task(r.run(), name=name)
		tasks[name].program = p

	asyncio.set_event_loop(loop)
	try:
		t = loop.create_task(driver(), name="driver")
		loop.run_until_complete(t)
		del t
	finally:
		asyncio.set_event_loop(None)
		loop.close()
	what = "tasks %s, run in the order %s%s" % (", ".join("%s=%s" % (n, t.program) for n, t in tasks.items()), " ".join(log), ", with %s at %d" % fault if fault else "")
	for n, t in tasks.items():
		mc.check(t.done(), lambda : "%s: %s has not ended" % (what, n))
		e = None if t.cancelled() else t.exception()
		if isinstance(e, (pymc.Violation, pymc.HarnessError, pymc.Prune)):
			raise e
		ok = e is None or (isinstance(e, Fail) and "x" in t.program) or (fault and isinstance(e, minipg.Error))
		mc.check(ok and t.cancelled() <= (n in cancelled), lambda : "%s: %s ended with %r" % (what, n, e))
	mc.check(not problems, lambda : "%s: %s" % (what, problems))
	server.watch = server.fault = None
	mc.equal(sorted(r["v"] for r in server.db.rows("t")), sorted(w.committed), "rows after %s" % what)
	# All sessions have been returned
	pool = server.pools[0]
	mc.check(not pool.used, lambda : "%s: %s have not been returned" % (what, pool.used))
	for c in server.connections:
		mc.check(c.session.xact is None and not c.blocks, lambda : "%s: %s has been returned within a transaction" % (what, c))
		mc.check(c.closed or c.autocommit, "autocommit has been disabled")
	mc.state(programs, log, sorted(w.committed), fault)
	return state["n"]

def init(mc):
	global EMPTY
	fakepg.install()
	import location
	import cli
	cli.quiet()
	EMPTY = minipg.Database()
	fakepg.start(EMPTY)
	s = minipg.Session(EMPTY)
	s.execute("CREATE TABLE t(v integer, who text)")

def case_pair(mc, arg):
	explore(mc, *arg)
	mc.note("programs %s, %d cancelled" % arg)

def case_cleanup(mc, arg):
	programs, cancel, cleanup = arg
	explore(mc, programs, cancel, None, ("(iq)",), cleanup)
	mc.note("programs %s, %d cancelled, which then execute %s" % (programs, cancel, cleanup))

def case_later(mc, arg):
	explore(mc, arg[0], arg[1], None, arg[2])
	mc.note("programs %s, %d cancelled, followed by %s" % arg)

def case_fault(mc, arg):
	programs, kind, at = arg
	n = explore(mc, programs, 0, (kind, at), ("(iq)",))
	if n < at:
		raise pymc.Prune()
	mc.note("programs %s, %s at statement %d" % arg)

def case_pool(mc, arg):
	"""The pool has no more connections"""
	import location.database
	server = fakepg.start(EMPTY.clone())
	async def main():
		db = location.database.Connection("h", "n", "u", "p")
		server.pools[0].max_size = arg
		gate = asyncio.Event()
		results = []
		async def task():
			try:
				db.execute("INSERT INTO t(v, who) VALUES(%s, %s)", 1, "x")
				results.append(True)
			except fakepg.PoolTimeout:
				results.append(False)
				await gate.wait()
				# There is one again
				db.execute("INSERT INTO t(v, who) VALUES(%s, %s)", 1, "x")
				return
			await hold.wait()
		hold = asyncio.Event()
		tasks = [asyncio.get_running_loop().create_task(task()) for _ in range(4)]
		for _ in range(5):
			await asyncio.sleep(0)
		mc.equal(sorted(results), [False] * (4 - arg) + [True] * arg, "tasks which got a session")
		hold.set()
		for _ in range(5):
			await asyncio.sleep(0)
		server.pools[0].max_size = 4
		gate.set()
		for t in tasks:
			await t
		await asyncio.sleep(0)
	loop = asyncio.SelectorEventLoop()
	problems = []
	loop.set_exception_handler(lambda l, c : problems.append(c))
	try:
		loop.run_until_complete(loop.create_task(main()))
	finally:
		loop.close()
	mc.ops(4)
	mc.check(not problems, lambda : "%s" % problems)
	mc.equal(len(server.db.rows("t")), 4, "rows with %d sessions" % arg)
	mc.check(not server.pools[0].used, lambda : "%s have not been returned" % server.pools[0].used)
	mc.state(arg)
	mc.note("%d connections" % arg)

def case_rows(mc, arg):
	"""How results look like"""
	import location.database
	server = fakepg.start(EMPTY.clone())
	for i in range(arg):
		server.db.put("t", v=i, who="w%d" % i)
	async def main():
		db = location.database.Connection("h", "n", "u", "p")
		rows = db.query("SELECT v, who FROM t WHERE v >= %s AND v < %s ORDER BY v", 0, 10)
		mc.equal([(r.v, r["who"], dict(r)) for r in rows], [(i, "w%d" % i, { "v" : i, "who" : "w%d" % i }) for i in range(arg)], "rows")
		for r in rows:
			try:
				r.nothing
			except AttributeError:
				pass
			else:
				mc.check(False, "an attribute that does not exist")
		try:
			one = db.get("SELECT v FROM t WHERE v >= %(min)s", min=0)
		except minipg.Error:
			raise
		except Exception as e:
			mc.check(arg > 1, "get() raises %r for %d rows" % (e, arg))
		else:
			mc.check(arg < 2, "get() returns one of %d rows" % arg)
			mc.equal(one, { "v" : 0 } if arg else None, "row")
		await asyncio.sleep(0)
	loop = asyncio.SelectorEventLoop()
	try:
		loop.run_until_complete(loop.create_task(main()))
	finally:
		loop.close()
	mc.ops(2)
	mc.state(arg)
	mc.note("%d rows" % arg)

def cases(thorough):
	out = []
	# Pairs of all short programs
	short = programs(4 if thorough else 3, "imq()!ex[]g" if thorough else "iq()!x")
	for a, b in itertools.combinations_with_replacement(short, 2):
		out.append(("pair", ((a, b), 1)))
	# Pairs of longer programs
	long = ["(iqi)", "(iq)q", "((i)q)", "((i!q)q", "(i!iq", "i(q)i", "(iix", "q(iq)", "(qiq)", "[ii]q", "([ii])q", "(mq)q", "(ie(i)q", "eiq", "(gi)g", "((ix"]
	for a, b in itertools.combinations_with_replacement(long, 2):
		out.append(("pair", ((a, b), 1 if thorough else 0)))
	if thorough:
		for a, b in itertools.combinations_with_replacement(programs(6, "iq()!"), 2):
			if "(" in a and "(" in b:
				out.append(("pair", ((a, b), 0)))
	# Three at once
	for t in itertools.combinations_with_replacement(["(i)", "iq", "(q)", "(i!", "ix"] + (["(iq)", "q", "((i))"] if thorough else []), 3):
		out.append(("pair", (t, 1 if thorough else 0)))
	# Tasks which are started when others have ended
	for a, b, c in itertools.product(["(i)", "i", "(ix", "(i!", "[i]", "x"], ["(iq)", "q"], ["(q)", "(iq)"]):
		out.append(("later", ((a, b), 1, (c, "q"))))
	# Tasks which go on after they have been cancelled
	for a, b in itertools.product(["(i)", "iq", "(iq)q", "((i)q)", "[i]q"], ["(iq)", "q"]):
		for cleanup in itertools.product(("raise", "ignore"), ("i", "(iq)", "i(i)q") if thorough else ("i", "(iq)")):
			out.append(("cleanup", ((a, b), 2 if thorough else 1, cleanup)))
	# Failures
	for a, b in itertools.product(["(i)", "i", "(iq)", "((i)i)", "(i!q", "([i])"], ["(iq)", "iq"]):
		for kind in ("error", "lost"):
			for at in range(1, 9):
				out.append(("fault", ((a, b), kind, at)))
	for n in range(1, 5):
		out.append(("pool", n))
	for n in range(4):
		out.append(("rows", n))
	return out

def run(case, mc):
	kind, arg = case
	globals()["case_" + kind](mc, arg)

if __name__ == "__main__":
	pymc.main("C26", cases, run, init)
