"""
	A stateless explicit model checker for Python programs.

	cases() enumerates all cases of a bounded space in a fixed order, run() executes
	one of them on the real code. Within a case, every nondeterministic decision goes
	through mc.choose(), whose outcomes are all explored by depth-first search.
	Cases are distributed over worker processes. A failed check, an exception raised by
	the code under test, a crash or a hang is a violation, identified by the number of
	the case and the decisions taken, and can be replayed from these.
"""
import argparse, hashlib, json, mmap, os, pickle, select, shutil, signal, struct, sys, tempfile, time, traceback

class Violation(BaseException):
	pass

class HarnessError(BaseException):
	pass

class Prune(BaseException):
	pass

SLOT = 8192

# Shows two values, only where they differ when they are long
def difference(a, b):
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(repr(a)) + len(repr(b)) > 1000:
		if len(a) == len(b):
			i = next((i for i in range(len(a)) if a[i] != b[i]), 0)
			return "[%d] %r" % (i, a[i]), "%r" % (b[i],)
		extra = [x for x in a if x not in b][:3]
		missing = [x for x in b if x not in a][:3]
		return "%d items with extra %r" % (len(a), extra), "%d items, missing %r" % (len(b), missing)
	return repr(a)[:1500], repr(b)[:1500]

class MC(object):
	def __init__(self, thorough=False):
		self.thorough = thorough
		self.path, self.limits, self.pos = [], [], 0
		self.n_ops = self.n_checks = self.n_exec = 0
		self.max_decisions = 0
		self.states = set()
		self.notes = []
		self.samples = []
		self.index = 0
		self.slot = None
		self.replaying = False

	def choose(self, n):
		if n <= 0:
			raise HarnessError("choose(%d)" % n)
		if self.pos == len(self.path):
			if self.replaying:
				pass
			self.path.append(0)
			self.limits.append(n)
		elif self.pos == len(self.limits):
			self.limits.append(n)
		if self.limits[self.pos] != n:
			raise HarnessError("nondeterministic: %d outcomes instead of %d" % (n, self.limits[self.pos]))
		r = self.path[self.pos]
		if r >= n:
			raise HarnessError("decision %d of %d" % (r, n))
		self.pos += 1
		self.publish()
		return r

	def pick(self, seq):
		return seq[self.choose(len(seq))]

	def publish(self):
		if self.slot is not None:
			shm, at = self.slot
			data = json.dumps([self.index] + self.path[:self.pos]).encode()[:SLOT - 32]
			shm[at + 24:at + 28] = struct.pack("I", len(data))
			shm[at + 28:at + 28 + len(data)] = data
			shm[at:at + 8] = struct.pack("d", time.monotonic())

	def ops(self, n=1):
		self.n_ops += n
		# This is progress
		if self.slot is not None:
			shm, at = self.slot
			shm[at:at + 8] = struct.pack("d", time.monotonic())

	def checks(self, n=1):
		self.n_checks += n

	def state(self, *what):
		self.states.add(hashlib.blake2b(repr(what).encode("utf-8", "surrogateescape"), digest_size=8).digest())

	def note(self, text):
		self.notes.append(text)

	def fail(self, message):
		raise Violation(message)

	def check(self, cond, message):
		self.n_checks += 1
		if not cond:
			raise Violation(message() if callable(message) else message)

	def equal(self, got, want, what):
		self.n_checks += 1
		if got != want:
			raise Violation("%s: got %s instead of %s" % ((what() if callable(what) else what,) + difference(got, want)))

	# Runs all executions of one case
	def explore(self, index, case, run):
		self.index = index
		self.path, self.limits = [], []
		while True:
			self.pos = 0
			self.notes = []
			self.publish()
			try:
				run(case, self)
				self.n_exec += 1
			except Prune:
				pass
			self.max_decisions = max(self.max_decisions, self.pos)
			if len(self.samples) < 3 and (self.n_exec in (1, 2) or self.n_exec % 101 == 0):
				self.samples.append(("case %d%s: %s" % (index, "".join(",%d" % c for c in self.path), "; ".join(self.notes)))[:600])
			del self.path[self.pos:]
			del self.limits[self.pos:]
			while self.path and self.path[-1] + 1 >= self.limits[-1]:
				self.path.pop()
				self.limits.pop()
			if not self.path:
				return
			self.path[-1] += 1

# A directory of this process, which main() removes in the end
def scratch():
	return tempfile.mkdtemp(dir=SCRATCH)

SCRATCH = None

# Was this exception raised by (or passed through) the code under test?
HERE = os.path.dirname(os.path.abspath(__file__))

def blame(e, roots):
	"""Is this exception the fault of the code under test?"""
	if roots is None:
		return True
	# A stand-in cannot do what it was asked for
	if isinstance(e, AttributeError):
		m = sys.modules.get(type(e.obj).__module__)
		if m and os.path.abspath(getattr(m, "__file__", None) or "/").startswith(HERE):
			return False
	if isinstance(e, (NotImplementedError, SyntaxError, MemoryError, KeyboardInterrupt)):
		return any(f.f_code.co_filename.startswith(tuple(roots)) for f, _ in traceback.walk_tb(e.__traceback__))
	return True

def describe(e):
	return "".join(traceback.format_exception(e))[-3000:]

def worker(number, jobs, shm, out, cases, run, init, thorough, deadline, roots):
	mc = MC(thorough)
	mc.slot = (shm, number * SLOT)
	result = { "violation" : None, "error" : None, "complete" : True }
	try:
		if init:
			init(mc)
		for index, case in enumerate(cases):
			if index % jobs != number:
				continue
			if time.monotonic() > deadline:
				result["complete"] = False
				break
			mc.explore(index, case, run)
	except Violation as e:
		result["violation"] = { "kind" : "check", "message" : str(e), "path" : [mc.index] + mc.path[:mc.pos] }
	except BaseException as e:
		if not isinstance(e, HarnessError) and blame(e, roots):
			result["violation"] = { "kind" : "exception", "message" : describe(e), "path" : [mc.index] + mc.path[:mc.pos] }
		else:
			result["error"] = describe(e)
	result.update(executions=mc.n_exec, ops=mc.n_ops, checks=mc.n_checks, states=mc.states,
		max_decisions=mc.max_decisions, samples=mc.samples)
	data = pickle.dumps(result)
	while data:
		n = os.write(out, data)
		data = data[n:]
	os.close(out)
	sys.stdout.flush()
	os._exit(0)

def main(prop, cases, run, init=None, roots=()):
	"""roots: where the code under test lies; None: any exception is to be blamed on it"""
	global SCRATCH
	SCRATCH = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else os.environ["VERIF_BUILD"])
	try:
		_main(prop, cases, run, init, roots)
	finally:
		shutil.rmtree(SCRATCH, ignore_errors=True)

def _main(prop, cases, run, init, roots):
	p = argparse.ArgumentParser()
	p.add_argument("--jobs", type=int, default=8)
	p.add_argument("--out")
	p.add_argument("--deadline", type=float, default=420)
	p.add_argument("--hang", type=float, default=60)
	p.add_argument("--thorough", action="store_true")
	p.add_argument("--replay")
	a = p.parse_args()
	if roots is not None:
		roots = [os.environ["VERIF_BUILD"] + "/", os.environ["VERIF_REPO"] + "/"] + list(roots)
		roots = [r for r in roots if not os.path.abspath(__file__).startswith(r)] or ["/nonexistent/"]
	todo = list(cases(a.thorough))

	if a.replay:
		path = [int(c) for c in a.replay.split(",")]
		mc = MC(a.thorough)
		mc.index, mc.path = path[0], path[1:]
		mc.replaying = True
		signal.alarm(int(a.hang))
		if path[0] >= len(todo):
			print("no such case")
			sys.exit(2)
		try:
			if init:
				init(mc)
			run(todo[path[0]], mc)
		except Violation as e:
			print("; ".join(mc.notes))
			print("VIOLATED: %s" % e)
			sys.exit(1)
		except Prune:
			pass
		except BaseException as e:
			print("; ".join(mc.notes))
			print(describe(e))
			sys.exit(1 if not isinstance(e, HarnessError) and blame(e, roots) else 2)
		print("; ".join(mc.notes))
		print("held")
		sys.exit(0)

	jobs = max(1, min(a.jobs, len(todo)))
	shm = mmap.mmap(-1, SLOT * jobs)
	start = time.monotonic()
	procs = {}
	sys.stdout.flush()
	for i in range(jobs):
		r, w = os.pipe()
		shm[i * SLOT:i * SLOT + 8] = struct.pack("d", time.monotonic())
		shm[i * SLOT + 24:i * SLOT + 28] = struct.pack("I", 0)
		pid = os.fork()
		if not pid:
			os.close(r)
			for _, (rr, _) in procs.items():
				os.close(rr)
			worker(i, jobs, shm, w, todo, run, init, a.thorough, start + a.deadline, roots)
		os.close(w)
		procs[i] = (r, pid)

	total = dict(executions=0, ops=0, checks=0, max_decisions=0, complete=True, error=None, samples=[], violation=None)
	states = set()
	data = { i : b"" for i in procs }
	violations = []
	live = set(procs)
	stop = None
	while live:
		ready, _, _ = select.select([procs[i][0] for i in live], [], [], 0.5)
		for i in sorted(live):
			r, pid = procs[i]
			if r in ready:
				buf = os.read(r, 1 << 20)
				if buf:
					data[i] += buf
					continue
				_, status = os.waitpid(pid, 0)
				live.discard(i)
				os.close(r)
				n, = struct.unpack("I", shm[i * SLOT + 24:i * SLOT + 28])
				path = json.loads(shm[i * SLOT + 28:i * SLOT + 28 + n]) if n else []
				if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 and data[i]:
					res = pickle.loads(data[i])
					for k in ("executions", "ops", "checks"):
						total[k] += res[k]
					total["max_decisions"] = max(total["max_decisions"], res["max_decisions"])
					total["complete"] = total["complete"] and res["complete"]
					total["samples"] += res["samples"]
					states |= res["states"]
					if res["error"]:
						total["error"] = res["error"]
					if res["violation"]:
						violations.append(res["violation"])
				elif i == stop:
					violations.append({ "kind" : "hang", "message" : "did not terminate within %d s" % a.hang, "path" : path })
				elif stop is None:
					kind = "killed by signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) \
						else "crashed (exit code %d)" % os.WEXITSTATUS(status)
					if path:
						violations.append({ "kind" : kind, "message" : "", "path" : path })
					else:
						total["error"] = "worker %s" % kind
			elif stop is None:
				t, = struct.unpack("d", shm[i * SLOT:i * SLOT + 8])
				if time.monotonic() - t > a.hang:
					stop = i
					os.kill(pid, signal.SIGKILL)
		if (violations or total["error"]) and live:
			if stop is None:
				stop = -1
			for i in live:
				try:
					os.kill(procs[i][1], signal.SIGKILL)
				except ProcessLookupError:
					pass

	total["states"] = len(states)
	total["samples"] = total["samples"][:8]
	if violations:
		total["violation"] = min(violations, key=lambda v : v["path"])
		total["complete"] = False
	elif total["error"]:
		print("HARNESS ERROR: %s" % total["error"])
		sys.exit(2)
	with open(a.out, "w") as f:
		json.dump(total, f)
	sys.exit(1 if violations else 0)
