"""
	Runs the importer in this process: on a small database (minipg), with an Internet of our own,
	and with an event loop that decides in which order concurrent downloads end.
"""
import asyncio, concurrent.futures, email.message, http.client, io, os, selectors, sys, urllib.error, urllib.request
import pymc, cli, minipg, fakepg

code = None
net = None

class Net(object):
	"""What is to be found at which URL: bytes, a Page or an exception factory"""
	def __init__(self, pages=None):
		self.pages = pages or {}
		self.requests = []

	def urlopen(self, req, data=None, timeout=None, **kwargs):
		url = req.full_url if hasattr(req, "full_url") else req
		self.requests.append(url)
		# There is no proxy
		if hasattr(req, "host") and (req.host != url.split("/")[2] or req.has_proxy()):
			raise pymc.Violation("the request for %s is sent to %s" % (url, req.host))
		page = self.pages.get(url)
		if page is None:
			page = Page(status=404)
		if not isinstance(page, Page):
			page = Page(page)
		if page.error:
			raise page.error()
		if page.status != 200:
			raise urllib.error.HTTPError(url, page.status, "Error", email.message.Message(), io.BytesIO(b""))
		return Response(page, url)

class Page(object):
	def __init__(self, body=b"", status=200, error=None, breaks=None, type="text/plain", length=None):
		"""breaks: (after so many bytes, exception factory or None for an early end)"""
		self.body, self.status, self.error, self.breaks, self.type = body, status, error, breaks, type
		self.length = len(body) if length is None else length

class Response(object):
	def __init__(self, page, url):
		self.page, self.at, self.url = page, 0, url
		self.code = self.status = 200
		self.reason = "OK"
		self.headers = email.message.Message()
		if page.type:
			self.headers["Content-Type"] = page.type
		self.headers["Content-Length"] = str(page.length)
		self.length = page.length
		self.closed = False

	def getheaders(self):
		return list(self.headers.items())

	def getheader(self, name, default=None):
		return self.headers.get(name, default)

	def info(self):
		return self.headers

	def geturl(self):
		return self.url

	def read(self, n=-1):
		p = self.page
		whole = n is None or n < 0
		end = len(p.body)
		if p.breaks:
			end = min(end, p.breaks[0])
		if whole:
			n = len(p.body)
		data = p.body[self.at:min(end, self.at + n)]
		if not data and p.breaks and self.at >= end and p.breaks[1]:
			raise p.breaks[1]()
		self.at += len(data)
		self.length -= len(data)
		if whole and self.length > 0:
			raise http.client.IncompleteRead(data, self.length)
		return data

	def read1(self, n=-1):
		return self.read(n)

	def readinto(self, b):
		data = self.read(len(b))
		b[:len(data)] = data
		return len(data)

	def readable(self):
		return True

	def __iter__(self):
		return iter(self.read().splitlines(True))

	def close(self):
		self.closed = True

	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.close()

# ---- the event loop ----

class Executor(concurrent.futures.ThreadPoolExecutor):
	"""Runs jobs when the loop has nothing else to do, one at a time, in any order"""
	def __init__(self):
		super().__init__(max_workers=1)
		self.jobs = []

	def submit(self, fn, /, *args, **kwargs):
		f = concurrent.futures.Future()
		self.jobs.append((f, fn, args, kwargs))
		return f

	def step(self, choose):
		jobs = [j for j in self.jobs if not j[0].cancelled()]
		if not jobs:
			self.jobs = []
			return False
		j = jobs[choose(len(jobs)) if len(jobs) > 1 else 0]
		self.jobs = [x for x in jobs if x is not j]
		f, fn, args, kwargs = j
		if not f.set_running_or_notify_cancel():
			return True
		try:
			r = fn(*args, **kwargs)
		except (pymc.Violation, pymc.HarnessError, pymc.Prune):
			raise
		except BaseException as e:
			f.set_exception(e)
		else:
			f.set_result(r)
		return True

class Selector(selectors.DefaultSelector):
	loop = None

	def select(self, timeout=None):
		if (timeout is None or timeout > 0) and self.loop is not None:
			if self.loop.executor.step(self.loop.choose):
				timeout = 0
			elif timeout is None and not self.loop._ready:
				# Nothing will ever happen again
				r = super().select(0.05)
				if not r:
					raise pymc.Violation("all tasks wait for something that never happens")
				return r
		return super().select(timeout)

class Loop(asyncio.SelectorEventLoop):
	def __init__(self, choose):
		s = Selector()
		super().__init__(s)
		self.executor = Executor()
		self.choose = choose
		self.set_default_executor(self.executor)
		s.loop = self

	async def shutdown_default_executor(self, timeout=None):
		self.executor.shutdown(wait=False)

class Policy(asyncio.DefaultEventLoopPolicy):
	choose = None
	def new_event_loop(self):
		return Loop(self.choose)

ARGS = ["--database-host", "h", "--database-name", "n", "--database-username", "u", "--database-password", "p"]

def setup(mc):
	fakepg.install()
	import location
	cli.quiet()

SCHEMA = None

def database():
	"""A database with all tables, as the importer creates them"""
	global SCHEMA
	if SCHEMA is None:
		server = fakepg.start()
		r = run(server, ["import-countries", os.devnull])
		if r.code != 0:
			raise pymc.Violation("the importer cannot create its tables: %s" % (cli.traceback_of(r.exception) if r.exception else r.err))
		SCHEMA = server.db
	return SCHEMA.clone()

def run(server, argv, pages=None, choose=None):
	"""Runs the importer; returns the exit code, exception and messages"""
	global code, net
	if code is None:
		code = cli.load("location-importer")
	net = Net(pages)
	fakepg.server = server
	r = cli.Result()
	r.exception = None
	saved = sys.stdout, sys.stderr, sys.argv, urllib.request.urlopen
	policy = asyncio.get_event_loop_policy()
	p = Policy()
	p.choose = choose or (lambda n : 0)
	asyncio.set_event_loop_policy(p)
	sys.stdout, sys.stderr, sys.argv = io.StringIO(), io.StringIO(), ["location-importer"] + ARGS + list(argv)
	urllib.request.urlopen = net.urlopen
	try:
		exec(code, { "__name__" : "__main__", "__file__" : code.co_filename })
		r.code = 0
	except SystemExit as e:
		r.code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
	except (pymc.Violation, pymc.HarnessError, pymc.Prune):
		raise
	except BaseException as e:
		r.code, r.exception = None, e
		check(e)
	finally:
		r.out, r.err = sys.stdout.getvalue(), sys.stderr.getvalue()
		sys.stdout, sys.stderr, sys.argv, urllib.request.urlopen = saved
		asyncio.set_event_loop_policy(policy)
	r.net = net
	# The process ends here
	for c in server.connections:
		c.close()
	return r

def check(e):
	"""Is one of ours hidden in a group?"""
	if isinstance(e, BaseExceptionGroup):
		for x in e.exceptions:
			if isinstance(x, (pymc.Violation, pymc.HarnessError, pymc.Prune)):
				raise x
			check(x)
