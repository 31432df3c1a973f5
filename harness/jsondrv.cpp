// JSON values in slots
#include "util.hpp"
#include "core/json/json.hpp"
#include <algorithm>
#include <exception>
#include <map>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace drv;
using namespace Lambda;

static std::map<std::string, JSON::Property> S;

static JSON::Property make(const std::vector<std::string>& w, size_t& i) {
	const auto t = w.at(i++);
	switch (t[0]) {
		case 'n': return JSON::Property(nullptr);
		case 't': return JSON::Property(true);
		case 'f': return JSON::Property(false);
		case 'i': return JSON::Property(static_cast<int32_t>(std::stol(t.substr(1))));
		case 's': return JSON::Property(unhex(t.substr(1)));
		case 'a': {
			JSON::Array a;
			for (size_t n = std::stoul(t.substr(1)); n; n--) a.push_back(make(w, i));
			return JSON::Property(a);
		}
		default: {
			JSON::Map m;
			for (size_t n = std::stoul(t.substr(1)); n; n--) {
				const auto k = unhex(w.at(i++));
				m.emplace(k, make(w, i));
			}
			return JSON::Property(m);
		}
	}
}

static std::string dump(const JSON::Property& p) {
	switch (p.type()) {
		case JSON::JSTypes::Null: return " n";
		case JSON::JSTypes::Boolean: return p.asBool() ? " t" : " f";
		case JSON::JSTypes::Integer: return " i" + std::to_string(p.asInt());
		case JSON::JSTypes::String: return " s" + hex(p.asString());
		case JSON::JSTypes::Array: {
			std::string r = " a" + std::to_string(p.asArray().size());
			for (const auto& x : p.asArray()) r += dump(x);
			return r;
		}
		case JSON::JSTypes::Map: {
			std::map<std::string, const JSON::Property*> m;
			for (const auto& x : p.asMap()) m[x.first] = &x.second;
			std::string r = " o" + std::to_string(m.size());
			for (const auto& x : m) r += " " + hex(x.first) + dump(*x.second);
			return r;
		}
		case JSON::JSTypes::Float: return " d";
		default: return " u";
	}
}

static const JSON::Property& part(const JSON::Property& p, const std::vector<std::string>& w, size_t i) {
	if (i >= w.size()) return p;
	const auto n = unhex(w[i]);
	return part(p.type() == JSON::JSTypes::Array ? p.asArray().at(n.size()) : p.asMap().at(n), w, i + 1);
}

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	try {
		if (op == "reset") { S.clear(); for (auto s : { "p", "q", "r" }) S.emplace(s, JSON::Property(nullptr)); return "done"; }
		if (op == "held") return "n " + std::to_string(__sanitizer_get_current_allocated_bytes() / 1024);
		auto& s = S.at(w[1]);
		if (op == "build") { size_t i = 2; s = make(w, i); return "done"; }
		if (op == "parse") { s = JSON::parse(unhex(w[2])); return "done"; }
		if (op == "copy") { JSON::Property c(S.at(w[2])); S.erase(w[1]); S.emplace(w[1], std::move(c)); return "done"; }
		if (op == "assign") { s = S.at(w[2]); return "done"; }
		if (op == "part") { s = part(S.at(w[2]), w, 3); return "done"; }
		if (op == "put") {
			const auto n = unhex(w[3]);
			if (s.type() == JSON::JSTypes::Array) { auto a = s.asArray(); a.at(n.size()) = S.at(w[2]); s = JSON::Property(a); }
			else { auto m = s.asMap(); m[n] = S.at(w[2]); s = JSON::Property(m); }
			return "done";
		}
		if (op == "dump") return "val" + dump(s);
		if (op == "str") return "v " + hex(JSON::stringify(s));
		if (op == "rt") return "val" + dump(JSON::parse(JSON::stringify(s)));
	} catch (const std::exception& e) { return "throw"; }
	catch (...) { return "throw"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		out(apply(w));
	}
	return 0;
}
