-- Executes operations on the Lua binding; one line in, one line out
local location = require("location")

local function unhex(s)
	return (s:gsub("..", function(c) return string.char(tonumber(c, 16)) end))
end
local function hex(s)
	return (s:gsub(".", function(c) return string.format("%02x", c:byte()) end))
end
local function value(t)
	local k, v = t:sub(1, 1), t:sub(2)
	if k == "s" then return unhex(v) end
	if k == "i" then return math.tointeger(tonumber(v)) or tonumber(v) end
	if k == "f" then return tonumber(v) end
	if k == "n" then return nil end
	if k == "b" then return v == "1" end
	if k == "t" then return {} end
	error("bad token " .. t)
end
local function show(v)
	if v == nil then return "n" end
	if type(v) == "string" then return "s" .. hex(v) end
	if type(v) == "boolean" then return v and "b1" or "b0" end
	if type(v) == "number" then
		local i = math.tointeger(v)
		return i and "i" .. string.format("%d", i) or "f" .. v
	end
	return "?" .. type(v)
end
local function net(n)
	if n == nil then return "n" end
	local flags = 0
	for i = 0, 15 do
		if n:has_flag(1 << i) then flags = flags | (1 << i) end
	end
	return table.concat({ "net", show(tostring(n)), show(n:get_family()), show(n:get_country_code()), show(n:get_asn()), "i" .. flags }, " ")
end
local function as(a)
	if a == nil then return "n" end
	return table.concat({ "as", show(a:get_number()), show(a:get_name()), show(tostring(a)) }, " ")
end
local function country(c)
	if c == nil then return "n" end
	return table.concat({ "country", show(c:get_code()), show(c:get_name()), show(c:get_continent_code()), show(tostring(c)) }, " ")
end

local cache = {}
local function db(path)
	if not cache[path] then cache[path] = location.Database.open(path) end
	return cache[path]
end

local R = {}
local function registers()
	return table.concat({ net(R.N), as(R.A), country(R.C) }, " | ")
end

local ops = {
	open = function(p) local d = location.Database.open(p); d = nil; collectgarbage(); return "ok" end,
	meta = function(p) local d = db(p); return table.concat({ show(d:get_vendor()), show(d:get_description()), show(d:get_license()), show(d:created_at()) }, " ") end,
	verify = function(p, k) return show(db(p):verify(k)) end,
	lookup = function(p, a) return net(db(p):lookup(a)) end,
	get_as = function(p, n) return as(db(p):get_as(n)) end,
	get_country = function(p, c) return country(db(p):get_country(c)) end,
	networks = function(p)
		local out = {}
		for n in db(p):list_networks() do table.insert(out, net(n)) end
		return table.concat(out, " | ")
	end,
	network = function(s) return net(location.Network.new(s)) end,
	as = function(n) return as(location.AS.new(n)) end,
	country = function(c) return country(location.Country.new(c)) end,
	reverse_pointer = function(s, suffix) return show(location.Network.new(s):reverse_pointer(suffix)) end,
	subnets = function(s)
		local t = location.Network.new(s):subnets()
		return net(t[1]) .. " | " .. net(t[2]) .. " " .. #t
	end,
	country_eq = function(a, b) return show(location.Country.new(a) == location.Country.new(b)) end,
	constants = function()
		return table.concat({ show(location.NETWORK_FLAG_ANONYMOUS_PROXY), show(location.NETWORK_FLAG_SATELLITE_PROVIDER),
			show(location.NETWORK_FLAG_ANYCAST), show(location.NETWORK_FLAG_DROP) }, " ")
	end,
	-- Life of objects
	reset = function() R = {}; collectgarbage(); return registers() end,
	D = function(p) R.D = location.Database.open(p); collectgarbage(); return registers() end,
	E = function() if R.D then R.E = R.D:list_networks() end; collectgarbage(); return registers() end,
	next = function() if R.E then R.N = R.E() end; collectgarbage(); return registers() end,
	lookupN = function(a) if R.D then R.N = R.D:lookup(a) end; collectgarbage(); return registers() end,
	A = function(n) if R.D then R.A = R.D:get_as(n) end; collectgarbage(); return registers() end,
	C = function(c) if R.D then R.C = R.D:get_country(c) end; collectgarbage(); return registers() end,
	sub = function() if R.N then R.N = R.N:subnets()[2] end; collectgarbage(); return registers() end,
	drop = function(w) R[w] = nil; collectgarbage(); collectgarbage(); return registers() end,
}

-- Logging
local log = {}
local busy = false
local function logger(name)
	return function(priority, message)
		table.insert(log, table.concat({ "m", name, show(priority), show((message:gsub("\n$", ""):gsub(": [^:]*$", ""))) }, ","))
		if name == "use" and not busy then
			busy = true
			pcall(location.Network.new, "inner")
			busy = false
		end
		if name == "bad" then error("oops") end
	end
end
local function attempt(f, ...)
	local ok, r = pcall(f, ...)
	table.insert(log, (ok and "ok" or "failed") .. (tostring(r):find("oops") and ",oops" or ""))
end
local logops = {
	A = function() location.set_log_callback(logger("A")) end,
	B = function() location.set_log_callback(logger("B"), 5) end,
	use = function() location.set_log_callback(logger("use")) end,
	bad = function() location.set_log_callback(logger("bad")) end,
	co = function()
		local co = coroutine.create(function() location.set_log_callback(logger("co")) end)
		coroutine.resume(co)
		co = nil
		collectgarbage(); collectgarbage()
		local t = {}
		for i = 1, 100 do t[i] = string.rep("x", i * 3) end
	end,
	none = function() pcall(location.set_log_callback, "x") end,
	l0 = function() location.set_log_level(0) end,
	l3 = function() location.set_log_level(3) end,
	l7 = function() location.set_log_level(7) end,
	ok = function() attempt(location.Network.new, "10.0.0.0/8") end,
	fail = function() attempt(location.Network.new, "10.0.0.0/80") end,
	open = function(p) attempt(location.Database.open, p) end,
	infail = function()
		local co = coroutine.create(function() attempt(location.Network.new, "x"); coroutine.yield() end)
		coroutine.resume(co)
		coroutine.resume(co)
	end,
}
ops.log = function(p, ...)
	log = {}
	location.set_log_level(0)
	logops.A()
	for _, op in ipairs({ ... }) do logops[op](p) end
	location.set_log_level(0)
	logops.A()
	local r = table.concat(log, " ")
	log = {}
	return r
end

-- Executes operations one after the other, each with one argument
ops.sequence = function(...)
	local a = table.pack(...)
	for i = 1, a.n, 2 do ops[a[i]](a[i + 1]) end
	ops.reset()
end

-- Executes an operation n times and returns by how many bytes the memory in use has grown
ops.grow = function(n, op, ...)
	for i = 1, 3 do pcall(ops[op], ...) end
	collectgarbage(); collectgarbage()
	local before = os.clock()
	for i = 1, n do pcall(ops[op], ...) end
	collectgarbage(); collectgarbage()
	return string.format("i%d", math.floor(os.clock() - before))
end

for line in io.lines() do
	local words = {}
	for w in line:gmatch("%S+") do table.insert(words, w) end
	local args = {}
	for i = 2, #words do args[i - 1] = value(words[i]) end
	local ok, r = pcall(ops[words[1]], table.unpack(args, 1, #words - 1))
	if not ok and not ops[words[1]] then r = "bad operation"; os.exit(3) end
	print(ok and r or ("e " .. hex(tostring(r))))
	io.stdout:flush()
end
