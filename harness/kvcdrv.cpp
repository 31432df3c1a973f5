// header collections, cookies, URLs
#include "util.hpp"
#include "core/http/http.hpp"
#include <exception>
#include <map>
#include <memory>

using namespace drv;
using namespace Lambda::HTTP;

static std::map<std::string, std::unique_ptr<Headers>> H;
static std::map<std::string, std::unique_ptr<Cookies>> C;
static std::map<std::string, std::unique_ptr<Response>> R;

static std::string list(const std::vector<std::string>& v) {
	std::string r = "l";
	for (const auto& x : v) r += " " + hex(x);
	return r;
}
static std::string list(const std::vector<KVpair>& v) {
	std::string r = "l";
	for (const auto& x : v) r += " " + hex(x.first) + " " + hex(x.second);
	return r;
}

static std::unique_ptr<Headers> built(const std::vector<std::string>& a) {
	switch (a.size() / 2) {
		case 0: return std::make_unique<Headers>();
		case 1: return std::unique_ptr<Headers>(new Headers({ { a[0], a[1] } }));
		case 2: return std::unique_ptr<Headers>(new Headers({ { a[0], a[1] }, { a[2], a[3] } }));
		case 3: return std::unique_ptr<Headers>(new Headers({ { a[0], a[1] }, { a[2], a[3] }, { a[4], a[5] } }));
		default: return std::unique_ptr<Headers>(new Headers({ { a[0], a[1] }, { a[2], a[3] }, { a[4], a[5] }, { a[6], a[7] } }));
	}
}

static void setWith(Cookies& c, const std::string& k, const std::string& v, int attrs) {
	switch (attrs) {
		case 0: c.set(k, v); break;
		case 1: c.set(k, v, { "Secure" }); break;
		case 2: c.set(k, v, { "HttpOnly", { "Path", "/" } }); break;
		case 3: c.set(k, v, { { "expires", "23 Oct 2077 08:28:00 GMT" }, "Secure" }); break;
		case 4: c.set(k, v, { { "Max-Age", "3600" }, { "SameSite", "Lax" }, "Partitioned" }); break;
		default: c.set(k, v, { { "Domain", "example.com" } }); break;
	}
}

static std::string fields(const URL& u, const std::vector<std::string>& names) {
	std::string r = "u " + hex(u.protocol) + " " + hex(u.username) + " " + hex(u.password) + " " + hex(u.host) + " " + hex(u.hostname) + " " + hex(u.port) + " " + hex(u.pathname) + " " + hex(u.hash);
	for (const auto& n : names) r += " " + hex(u.searchParams.get(n));
	return r;
}

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	std::vector<std::string> a;
	for (size_t i = 2; i < w.size(); i++) a.push_back(unhex(w[i]));
	try {
		if (op == "reset") { H.clear(); C.clear(); R.clear(); return "done"; }
		if (op[0] == 'h') {
			auto& s = H[w[1]];
			if (op == "hnew") { s = built(a); return "done"; }
			if (op == "hcopy") { s = std::make_unique<Headers>(*H[w[2]]); return "done"; }
			if (op == "hmove") { auto& o = H[w[2]]; auto t = std::make_unique<Headers>(std::move(*o)); o = std::make_unique<Headers>(); s = std::move(t); return "done"; }
			if (op == "hassign") { *s = *H[w[2]]; return "done"; }
			if (op == "hmassign") { auto& o = H[w[2]]; *s = std::move(*o); o = std::make_unique<Headers>(); return "done"; }
			if (op == "hset") { s->set(a[0], a[1]); return "done"; }
			if (op == "happend") { s->append(a[0], a[1]); return "done"; }
			if (op == "hdel") { s->del(a[0]); return "done"; }
			if (op == "hget") return "v " + hex(s->get(a[0]));
			if (op == "hhas") return s->has(a[0]) ? "true" : "false";
			if (op == "hall") return list(s->getAll(a[0]));
			if (op == "hentries") return list(s->entries());
			if (op == "hsize") return "n " + std::to_string(s->size());
		}
		if (op[0] == 'c') {
			auto& s = C[w[1]];
			if (op == "cempty") { s = std::make_unique<Cookies>(); return "done"; }
			if (op == "cnew") { s = std::make_unique<Cookies>(a[0]); return "done"; }
			if (op == "creq") { Request q("/"); q.headers.set("Cookie", a[0]); s = std::make_unique<Cookies>(q.getCookies()); return "done"; }
			if (op == "ccopy") { s = std::make_unique<Cookies>(*C[w[2]]); return "done"; }
			if (op == "cmove") { auto& o = C[w[2]]; auto t = std::make_unique<Cookies>(std::move(*o)); o = std::make_unique<Cookies>(); s = std::move(t); return "done"; }
			if (op == "cassign") { *s = *C[w[2]]; return "done"; }
			if (op == "cmassign") { auto& o = C[w[2]]; *s = std::move(*o); o = std::make_unique<Cookies>(); return "done"; }
			if (op == "cset") { setWith(*s, a[0], a[1], std::stoi(a[2])); return "done"; }
			if (op == "cdel") { s->del(a[0]); return "done"; }
			if (op == "cget") return "v " + hex(s->get(a[0]));
			if (op == "chas") return s->has(a[0]) ? "true" : "false";
			if (op == "centries") return list(s->entries());
			if (op == "csize") return "n " + std::to_string(s->size());
			if (op == "cser") return list(s->serialize());
			if (op == "cresp") {
				Response r(200);
				r.headers.set("set-cookie", "first=1");
				r.setCookies(*s);
				return list(r.headers.getAll("Set-Cookie"));
			}
		}
		if (op == "url") {
			std::vector<std::string> names(a.begin(), a.end());
			const auto src = unhex(w[1]);
			std::string r;
			URL u(src);
			r = fields(u, names);
			std::string h;
			try { h = u.href(); } catch (...) { return r + " | nohref"; }
			r += " | " + hex(h);
			try { return r + " | " + fields(URL(h), names); } catch (...) { return r + " | throw"; }
		}
		if (op == "usp") {
			URLSearchParams q(unhex(w[1]));
			std::vector<std::string> v;
			for (const auto& n : a) v.push_back(q.get(n));
			URLSearchParams again(q.stringify());
			for (const auto& n : a) v.push_back(again.get(n));
			return list(v);
		}
	} catch (const std::exception& e) { return "throw"; }
	catch (...) { return "throw"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		out(apply(w));
	}
	return 0;
}
