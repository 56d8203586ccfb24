"""Runs the command-line program in this process"""
import io, logging, os, sys, traceback, warnings
import pymc

BUILD = os.environ["VERIF_BUILD"]
code = None

class Pipe(io.RawIOBase):
	"""A stream that cannot be rewound"""
	def __init__(self):
		self.data = b""

	def writable(self):
		return True

	def write(self, b):
		self.data += bytes(b)
		return len(b)

class Result(object):
	pass

def quiet():
	import location
	location.set_log_level(0)
	for h in list(logging.getLogger("location").handlers):
		logging.getLogger("location").removeHandler(h)
	logging.getLogger("location").addHandler(logging.NullHandler())

def load(name="location"):
	path = os.path.join(BUILD, "py", name + ".script")
	with open(path) as f:
		with warnings.catch_warnings():
			warnings.simplefilter("ignore")
			return compile(f.read(), path, "exec")

def run(argv, stdout=None, namespace=None, patch=None):
	"""
		Runs the program with these arguments. The result has the exit code (None after any
		unhandled exception, which is in .exception), and what has been written.
	"""
	global code
	if code is None:
		code = load()
	r = Result()
	raw = None
	if stdout is None:
		raw = Pipe()
		stdout = io.TextIOWrapper(io.BufferedWriter(raw), encoding="utf-8", errors="surrogateescape", write_through=False)
	saved = sys.stdout, sys.stderr, sys.argv
	sys.stdout, sys.stderr, sys.argv = stdout, io.StringIO(), ["location"] + list(argv)
	r.exception = None
	try:
		exec(code, { "__name__" : "__main__", "__file__" : code.co_filename })
		r.code = 0
	except SystemExit as e:
		r.code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
	except (pymc.Violation, pymc.HarnessError, pymc.Prune):
		raise
	except BaseException as e:
		r.code, r.exception = None, e
	finally:
		r.err = sys.stderr.getvalue()
		sys.stdout, sys.stderr, sys.argv = saved
	stdout.flush()
	if raw is not None:
		r.out = raw.data.decode("utf-8", "surrogateescape")
	return r

def traceback_of(e):
	return "".join(traceback.format_exception(e))[-1500:]
