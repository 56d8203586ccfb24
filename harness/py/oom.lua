-- Lets any one allocation of the library and the binding fail in everything there is in Lua
local data, thorough = arg[1], arg[2] == "1"
local location = require("location")
location.set_log_level(0)
local ops = 0

local function arm(n) pcall(location.Database.open, "oom:" .. n) end
local function disarm()
	local _, e = pcall(location.Database.open, "oom:?")
	return tostring(e):find("Argument list too long", 1, true) ~= nil
end
local function db() return location.Database.open(data .. "/db1") end
local function net(n)
	if n == nil then return "nil" end
	return table.concat({ tostring(n), n:get_family(), tostring(n:get_country_code()), tostring(n:get_asn()) }, " ")
end
local function nothing() end
local function network() return location.Network.new("10.0.0.0/8") end

-- what prepares it, what is executed, whether nil is an answer to an error
local programs = {
	{ "open", nothing, function() local d = db(); return d:get_vendor() .. d:get_description() end },
	{ "open something bad", nothing, function() return location.Database.open(data .. "/magic") end, error = true },
	{ "lookup", db, function(d) return net(d:lookup("10.1.2.3")) end },
	{ "lookup 6", db, function(d) return net(d:lookup("2001:db8::1")) end },
	{ "lookup nothing", db, function(d) return d:lookup("x") end, error = true },
	{ "get_as", db, function(d) local a = d:get_as(64512); return a and (a:get_number() .. a:get_name()) end, absent = true },
	{ "get_country", db, function(d) local c = d:get_country("DE"); return c and (c:get_code() .. c:get_name() .. c:get_continent_code()) end, absent = true },
	{ "verify", db, function(d) return tostring(d:verify(data .. "/good.pub")) end, absent = "false" },
	{ "list_networks", db, function(d)
		local t = {}
		for n in d:list_networks() do table.insert(t, net(n)) end
		return table.concat(t, ",")
	end },
	{ "Network.new", nothing, function() return net(network()) end },
	{ "Network.new with something bad", nothing, function() return location.Network.new("x") end, error = true },
	{ "subnets", network, function(n) local t = n:subnets(); return net(t[1]) .. net(t[2]) end },
	{ "reverse_pointer", network, function(n) return tostring(n:reverse_pointer()) end },
	{ "reverse_pointer 2", network, function(n) return tostring(n:reverse_pointer("x")) end },
	{ "AS.new", nothing, function() return tostring(location.AS.new(5)) end },
	{ "Country.new", nothing, function() return location.Country.new("DE"):get_code() end },
	{ "Country.new with something bad", nothing, function() return location.Country.new("de") end, error = true },
}

for _, p in ipairs(programs) do
	local what, make, op = table.unpack(p)
	local ok, want = pcall(function() return op(make()) end)
	if ok == (p.error or false) then print("fail " .. what .. " gives " .. tostring(want)) end
	local n, misses = 0, 0
	while misses < 3 do
		local function once()
			local o = make()
			arm(n)
			local ok, r = pcall(op, o)
			return o, disarm(), ok, r
		end
		local o, fired, ok, r = once()
		ops = ops + 1
		if not fired then misses = misses + 1 end
		if ok and p.error then
			print("fail " .. what .. " succeeds when memory runs out (" .. n .. "): " .. tostring(r))
		elseif ok then
			if r ~= want and not (fired and p.absent and (r == nil or r == p.absent)) then
				print("fail " .. what .. " without memory (" .. n .. "): " .. tostring(r) .. " instead of " .. tostring(want))
			end
		elseif not p.error and not fired then
			print("fail " .. what .. " fails on its own (" .. n .. "): " .. tostring(r))
		end
		print(what .. " " .. n .. " " .. (ok and "ok" or "error"))
		-- What was used in vain still works
		local ok, r = pcall(op, o)
		if ok == (p.error or false) or (ok and r ~= want) then
			print("fail " .. what .. " after memory had run out (" .. n .. "): " .. tostring(r))
		end
		o, r = nil, nil
		-- Nothing is lost (growth that is not caused by each attempt does not count)
		local grown
		for _ = 1, 4 do
			for _ = 1, 4 do once() end
			collectgarbage(); collectgarbage()
			local before = os.clock()
			for _ = 1, 20 do once() end
			collectgarbage(); collectgarbage()
			grown = os.clock() - before
			if grown < 20 * 16 then break end
		end
		if grown >= 20 * 16 then print("fail " .. what .. " without memory (" .. n .. ") loses " .. grown .. " bytes in 20 attempts") end
		n = n + 1
	end
end
print("ops " .. ops)
print("end")
