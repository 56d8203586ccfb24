-- Calls everything there is in Lua with all sorts of objects
local data, thorough, kind, state = arg[1], arg[2] == "1", arg[3], arg[4]
local location = require("location")
location.set_log_level(0)
local n = 0

local makers = {
	Database = function() return location.Database.open(data .. "/db1") end,
	Network = function() return location.Network.new("10.1.2.0/24") end,
	AS = function() return location.AS.new(5) end,
	Country = function() return location.Country.new("DE") end,
}
-- The enumerator is found where the iterator keeps it
makers.Enumerator = function()
	local e = makers.Database():list_networks()
	local _, u = debug.getupvalue(e, 1)
	return u
end
local order = { "Database", "Enumerator", "Network", "AS", "Country" }

local function sorted(t)
	local k = {}
	for x in pairs(t) do table.insert(k, x) end
	table.sort(k)
	return k
end
local function use(f, ...)
	n = n + 1
	local ok, r = pcall(f, ...)
	if ok and type(r) == "userdata" then pcall(tostring, r) end
	return ok, r
end
local function closed(k)
	local o = makers[k]()
	getmetatable(o).__gc(o)
	return o
end
local function values()
	local v = { true, 0, -1, 5, 1.5, 2 ^ 31, 4294967296, 1e300, "", "DE", "10.1.2.3", "a\0b", string.rep("x", 300), data .. "/good.pub", data .. "/db2", {}, print, coroutine.create(print), io.stdout, setmetatable({}, getmetatable(makers.AS())) }
	for _, k in ipairs(order) do
		table.insert(v, makers[k]())
		table.insert(v, closed(k))
	end
	return v
end
local lookup = { "10.1.2.3", "DE", 5, data .. "/good.pub", "in-addr.arpa", 8 }

-- All functions of a class
local function everything(k, o, brief)
	local m = getmetatable(o)
	for _, name in ipairs(sorted(m)) do
		local f = m[name]
		if type(f) == "function" then
			use(f)
			use(f, nil)
			use(f, o)
			for _, v in ipairs(lookup) do use(f, o, v) end
			if not brief then
				for _, v in ipairs(values()) do
					use(f, v)
					use(f, o, v)
					use(f, v, o)
					use(f, nil, v)
					use(f, o, nil, v)
					if thorough then
						for _, w in ipairs(values()) do
							use(f, v, w)
							use(f, o, v, w)
						end
					end
				end
			end
		end
	end
	use(tostring, o)
	use(function() return o == o end)
	use(function() return o < o end)
	use(function() return #o end)
	use(function() return o() end)
	use(function() return o.x end)
	use(function() o.x = 1 end)
	use(function() return o .. "x" end)
	for _, v in ipairs(brief and {} or values()) do
		use(function() return o == v end)
		use(function() return v == o end)
		use(function() return o[v] end)
	end
end

if kind == "exit" then
	-- Finalizers run in reverse order: objects are used when these have been finalized already
	local held = {}
	local iterators = {}
	setmetatable({}, { __gc = function()
		for k, o in pairs(held) do everything(k, o, true) end
		for _, e in ipairs(iterators) do
			for i = 1, 3 do use(e) end
		end
		print("ops " .. n)
		print("end")
	end })
	local keep = setmetatable({}, { __gc = function() for k, o in pairs(held) do everything(k, o, true) end end })
	held[state] = makers[state]()
	local db = makers.Database()
	for i = 0, 3 do
		local e = db:list_networks()
		for j = 1, i do e() end
		table.insert(iterators, e)
	end
	if state == "Database" then
		table.insert(iterators, held[state]:list_networks())
	end
	_G.everything_lives = { held, iterators, keep }
	return
end

if kind == "functions" then
	local v = values()
	if state == "0" then
		for _, class in ipairs({ "AS", "Country", "Database", "DatabaseEnumerator", "Network" }) do
			for _, name in ipairs(sorted(location[class])) do
				local f = location[class][name]
				if type(f) == "function" then
					use(f)
					for _, a in ipairs(v) do
						use(f, a)
						for _, b in ipairs(v) do use(f, a, b) end
					end
				end
			end
		end
	elseif state == "1" then
		for _, name in ipairs({ "version", "set_log_level", "set_log_callback" }) do
			use(location[name])
			for _, a in ipairs(v) do
				use(location[name], a)
				use(location[name], a, a)
				pcall(location.Network.new, "x")
			end
		end
		location.set_log_level(0)
	else
		-- Iterators in all states
		for i = 0, 12 do
			local db = makers.Database()
			local e = db:list_networks()
			for j = 1, i do use(e) end
			getmetatable(db).__gc(db)
			db = nil
			collectgarbage()
			for j = 1, 12 do use(e) end
			local _, u = debug.getupvalue(e, 1)
			getmetatable(u).__gc(u)
			local ok, r = use(e)
			if ok and r then print("fail a closed iterator gives " .. tostring(r)) end
			getmetatable(u).__gc(u)
			for _, a in ipairs(v) do use(e, a) end
		end
	end
else
	local o
	if state == "other" then
		-- The functions of this class, with objects of the others
		local m = getmetatable(makers[kind]())
		for _, k in ipairs(order) do
			for _, x in ipairs({ makers[k](), closed(k) }) do
				for _, name in ipairs(sorted(m)) do
					if type(m[name]) == "function" then
						local ok = use(m[name], x)
						for _, v in ipairs(lookup) do use(m[name], x, v) end
						if ok and k ~= kind and name ~= "new" then print("fail " .. kind .. "." .. name .. " accepts a " .. k) end
					end
				end
			end
		end
	else
		everything(kind, state == "ok" and makers[kind]() or closed(kind))
		if state == "closed" then
			local m = getmetatable(makers[kind]())
			for _, name in ipairs(sorted(m)) do
				if type(m[name]) == "function" and not ({ open = 1, new = 1, __gc = 1 })[name] then
					for _, v in ipairs(lookup) do
						if use(m[name], closed(kind), v) then print("fail a closed " .. kind .. " answers " .. name) end
					end
				end
			end
		end
	end
end
collectgarbage()
print("ops " .. n)
print("end")
