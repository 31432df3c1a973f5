// strings, the vocabulary of HTTP, dates, identifiers, byte order, log lines
#include "util.hpp"
#include "core/http/http.hpp"
#include "core/server/server.hpp"
#include "core/polyfill/polyfill.hpp"
#include "core/crypto/crypto.hpp"
#include "core/utils/utils.hpp"
#include <climits>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <limits>
#include <memory>
#include <mutex>
#include <thread>

using namespace drv;
using namespace Lambda;

static bool slowly = false;
extern "C" ssize_t write(int fd, const void* b, size_t n) {
	if (slowly) std::this_thread::yield();
	return syscall(SYS_write, fd, b, n);
}

static std::string list(const std::vector<std::string>& v) {
	std::string r = "l";
	for (auto& x : v) r += " " + hex(x);
	return r;
}
static const char* tf(bool b) { return b ? "true" : "false"; }
static std::string v(const std::string& s) { return "v " + hex(s); }
// the same call in both of its forms
template <class A, class B> static std::string both(const std::string& x, A in, B copy) {
	auto y = x;
	in(y);
	const auto keep = x;
	const auto z = copy(x);
	if (y != z || keep != x) return "differ";
	return v(y);
}
template <class T> static std::string mem(T x) { return v(std::string((const char*)&x, sizeof(x))); }
template <class T> static std::string order(const std::string& op, const std::string& raw) {
	T x;
	memcpy(&x, raw.data(), sizeof(x));
	if (op == "net") {
		if (Bits::netwnormx(Bits::netwnormx(x)) != x) return "differ";
		return mem(Bits::netwnormx(x));
	}
	if (Bits::storenormx(Bits::storenormx(x)) != x) return "differ";
	return mem(Bits::storenormx(x));
}
static std::string head(const HTTP::Headers& h) {
	std::string r;
	for (auto& [k, val] : h.entries()) r += " " + hex(k) + " " + hex(val);
	return r;
}
static std::string show(const Date& d) {
	return std::to_string((long long)d.getTime()) + " " + std::to_string(d.getYear()) + " " + std::to_string(d.getMonth()) + " " + std::to_string(d.getDay()) + " "
		+ std::to_string(d.getHours()) + " " + std::to_string(d.getMinutes()) + " " + std::to_string(d.getSeconds()) + " "
		+ hex(d.toUTCString()) + " " + hex(d.toHRTString()) + " " + hex(d.getDate());
}
static std::map<std::string, std::unique_ptr<Crypto::ShortID>> ids;

// what a piece of code prints to stdout and stderr
template <class F> static std::pair<std::string, std::string> printed(F f) {
	fflush(stdout);
	std::cout << std::flush;
	std::string r[2];
	FILE* t[2] = { tmpfile(), tmpfile() };
	int keep[2] = { dup(1), dup(2) };
	for (int i = 0; i < 2; i++) dup2(fileno(t[i]), i + 1);
	f();
	std::cout << std::flush;
	std::cerr << std::flush;
	fflush(stdout);
	fflush(stderr);
	for (int i = 0; i < 2; i++) {
		dup2(keep[i], i + 1);
		close(keep[i]);
		fseek(t[i], 0, SEEK_END);
		r[i].resize(ftell(t[i]));
		rewind(t[i]);
		if (fread(r[i].data(), 1, r[i].size(), t[i]) != r[i].size()) r[i] = "?";
		fclose(t[i]);
	}
	return { r[0], r[1] };
}
static SyncOut::MgsOverload item(const std::string& kind, const std::string& x) {
	auto i = [&]() { return std::stoll(x); };
	if (kind == "s") return std::string(x);
	if (kind == "c") return x.c_str();
	if (kind == "b") return x == "1";
	if (kind == "ch") return (char)x[0];
	if (kind == "uch") return (unsigned char)i();
	if (kind == "i16") return (short)i();
	if (kind == "u16") return (unsigned short)i();
	if (kind == "i32") return (int)i();
	if (kind == "u32") return (unsigned int)i();
	if (kind == "l") return (long)i();
	if (kind == "ll") return (long long)i();
	if (kind == "ul") return (unsigned long)std::stoull(x);
	if (kind == "ull") return (unsigned long long)std::stoull(x);
	if (kind == "null") return (const char*)nullptr;
	return {};
}

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	auto a = [&](size_t i) { return w.size() > i ? unhex(w[i]) : std::string(); };
	auto num = [&](size_t i) { return std::stoll(w.at(i)); };
	try {
		using namespace Strings;
		if (op == "lower") return both(a(1), [](std::string& s) { toLowerCase(s); }, [](const std::string& s) { return toLowerCase(s); });
		if (op == "upper") return both(a(1), [](std::string& s) { toUpperCase(s); }, [](const std::string& s) { return toUpperCase(s); });
		if (op == "title") return both(a(1), [](std::string& s) { toTittleCase(s); }, [](const std::string& s) { return toTittleCase(s); });
		if (op == "trim") return both(a(1), [](std::string& s) { trim(s); }, [](const std::string& s) { return trim(s); });
		if (op == "repl") return both(a(1), [&](std::string& s) { replace(s, a(2), a(3)); }, [&](const std::string& s) { return replace(s, a(2), a(3)); });
		if (op == "replall") return both(a(1), [&](std::string& s) { replaceAll(s, a(2), a(3)); }, [&](const std::string& s) { return replaceAll(s, a(2), a(3)); });
		if (op == "split") {
			const auto r = split(a(1), a(2));
			if (a(2).size() == 1 && split(a(1), a(2)[0]) != r) return "differ";
			return list(r);
		}
		if (op == "join") {
			std::vector<std::string> x;
			for (size_t i = 2; i < w.size(); i++) x.push_back(a(i));
			return v(join(x, a(1).c_str()));
		}
		if (op == "incl") {
			const auto r = includes(a(1), a(2));
			if (a(2).size() == 1 && includes(a(1), a(2)[0]) != r) return "differ";
			return tf(r);
		}
		if (op == "inclany") {
			std::vector<std::string> x;
			for (size_t i = 2; i < w.size(); i++) x.push_back(a(i));
			return tf(includes(a(1), x));
		}
		if (op == "starts") return tf(startsWith(a(1), a(2)));
		if (op == "ends") return tf(endsWith(a(1), a(2)));
		// ---- HTTP
		if (op == "method") {
			HTTP::Method m(a(1));
			HTTP::Method c(a(1).c_str());
			const std::string t = m;
			if (!(m == c) && a(1).find('\0') == std::string::npos) return "differ";
			if (t != m.toString() || !(HTTP::Method(t) == m)) return "differ";
			return "m " + hex(t) + " " + std::to_string((int)(HTTP::Methods)m);
		}
		if (op == "meq") {
			HTTP::Method m(a(1));
			const bool r = m == a(2);
			if (a(2).find('\0') == std::string::npos && (m == a(2).c_str()) != r) return "differ";
			return tf(r);
		}
		if (op == "mdef") return v(HTTP::Method().toString());
		if (op == "status") { HTTP::Status s((uint32_t)num(1)); return "s " + std::to_string(s.code()) + " " + hex(s.text()) + " " + std::to_string((int)s.type()); }
		if (op == "statust") { HTTP::Status s((uint32_t)num(1), a(2)); return "s " + std::to_string(s.code()) + " " + hex(s.text()) + " " + std::to_string((int)s.type()); }
		if (op == "basic") {
			auto c = HTTP::Auth::parseBasicAuth(a(1));
			if (!c) return "none";
			return "l " + hex(c->user) + " " + hex(c->password);
		}
		if (op == "body") {
			const auto x = a(1);
			HTTP::BodyBuffer b1(x), b2(bytes(x)), b3;
			b3 = x;
			HTTP::BodyBuffer b4(b1), b5("old");
			b5 = b2;
			HTTP::BodyBuffer b6("older");
			b6 = bytes(x);
			HTTP::BodyBuffer b7(std::move(b4));
			for (auto* b : { &b1, &b2, &b3, &b5, &b6, &b7 })
				if (b->text() != x || b->buffer() != bytes(x) || b->size() != x.size() || std::string(*b) != x) return "differ";
			if (x.find('\0') == std::string::npos) {
				HTTP::BodyBuffer c1(x.c_str()), c2;
				c2 = x.c_str();
				if (c1.text() != x || c2.text() != x) return "differ";
			}
			return v(b1.text());
		}
		if (op == "resp") { // status, body, header pairs: every constructor
			const HTTP::Status st((uint32_t)num(1));
			HTTP::Headers h;
			for (size_t i = 3; i + 1 < w.size(); i += 2) h.append(a(i), a(i + 1));
			const HTTP::BodyBuffer b(a(2));
			HTTP::Response r1(st), r2(st, h), r3(st, b), r4(b), r5(st, h, b);
			auto fp = [&](const HTTP::Response& r) { return std::to_string(r.status.code()) + " " + hex(r.body.text()) + head(r.headers); };
			const auto code = std::to_string(num(1));
			if (fp(r1) != code + " -" || fp(r2) != code + " -" + head(h) || fp(r3) != code + " " + hex(a(2)) || fp(r4) != "200 " + hex(a(2))) return "differ";
			HTTP::Response r6(r5);
			HandlerResponse hr(r6), ht(a(2)), hb(bytes(a(2)));
			if (fp(hr.response.value()) != fp(r5) || fp(ht.response.value()) != "200 " + hex(a(2))) return "differ";
			if (hb.response->body.text() != a(2) || hb.response->status.code() != 200 || hb.response->headers.get("content-type") != "application/octet-stream") return "differ";
			return "r " + fp(r5);
		}
		if (op == "reqs") { // url, method, body, header pairs
			HTTP::Headers h;
			for (size_t i = 4; i + 1 < w.size(); i += 2) h.append(a(i), a(i + 1));
			HTTP::BodyBuffer b(a(3));
			const HTTP::Method m(a(2));
			HTTP::Request q1(a(1)), q2(a(1), m), q3(a(1), h), q4(a(1), m, b), q5(a(1), m, h, b);
			auto fp = [&](const HTTP::Request& r) { return hex(r.url.pathname) + " " + hex(r.method.toString()) + " " + hex(r.body.text()) + head(r.headers); };
			const auto p = hex(a(1)) + " ", mm = hex(m.toString());
			if (fp(q1) != p + hex(std::string("GET")) + " -" || fp(q2) != p + mm + " -" || fp(q3) != p + hex(std::string("GET")) + " -" + head(h) || fp(q4) != p + mm + " " + hex(a(3))) return "differ";
			std::string ck;
			for (auto& [k, val] : q5.getCookies().entries()) ck += " " + hex(k) + " " + hex(val);
			HTTP::Request q6(q5);
			return "r " + fp(q6) + " |" + ck;
		}
		if (op == "setck") { // pairs
			HTTP::Response r;
			r.headers.append("set-cookie", "z=0");
			std::vector<HTTP::KVpair> p;
			for (size_t i = 1; i + 1 < w.size(); i += 2) p.push_back({ a(i), a(i + 1) });
			if (p.size() == 0) r.setCookies(std::initializer_list<HTTP::KVpair> {});
			if (p.size() == 1) r.setCookies({ p[0] });
			if (p.size() == 2) r.setCookies({ p[0], p[1] });
			if (p.size() == 3) r.setCookies({ p[0], p[1], p[2] });
			return list(r.headers.getAll("set-cookie"));
		}
		if (op == "mime") return v(Content::getExtMimetype(a(1)));
		if (op == "ext") { const auto e = Content::getMimetypeExt(a(1)); return "l " + hex(e) + " " + hex(Content::getExtMimetype(e)); }
		// ---- dates, identifiers, byte order
		if (op == "date") return "d " + show(Date((time_t)num(1)));
		if (op == "now") {
			const auto t0 = time(nullptr);
			Date d;
			const auto t1 = time(nullptr);
			Date e(d);
			if (show(e) != show(d)) return "differ";
			if (d.getTime() < t0 || d.getTime() > t1) return "off";
			return "d " + show(d);
		}
		if (op == "id") { ids[w[1]] = w.size() > 2 ? std::make_unique<Crypto::ShortID>((uint32_t)num(2)) : std::make_unique<Crypto::ShortID>(); return "done"; }
		if (op == "iupd") { if (w.size() > 2) ids.at(w[1])->update((uint32_t)num(2)); else ids.at(w[1])->update(); return "done"; }
		if (op == "icopy") { ids[w[1]] = std::make_unique<Crypto::ShortID>(*ids.at(w[2])); return "done"; }
		if (op == "imove") { ids[w[1]] = std::make_unique<Crypto::ShortID>(std::move(*ids.at(w[2]))); ids.erase(w[2]); return "done"; }
		if (op == "iset") { *ids.at(w[1]) = *ids.at(w[2]); return "done"; }
		if (op == "ishow") {
			const auto x = ids.at(w[1])->id();
			std::string be;
			for (int i = 3; i >= 0; i--) be.push_back((char)(x >> (8 * i)));
			return "i " + hex(be) + " " + hex(ids.at(w[1])->toString());
		}
		if (op == "ifresh") { // threads, each makes some
			std::mutex m;
			std::string r = "f";
			std::vector<std::thread> ts;
			for (int t = 0; t < num(1); t++) ts.emplace_back([&]() {
				std::string mine;
				for (int i = 0; i < num(2); i++) {
					Crypto::ShortID x;
					std::string be;
					for (int k = 3; k >= 0; k--) be.push_back((char)(x.id() >> (8 * k)));
					mine += " " + hex(be) + " " + hex(x.toString());
				}
				std::lock_guard l(m);
				r += mine;
			});
			for (auto& t : ts) t.join();
			return r;
		}
		if (op == "net" || op == "store") {
			const auto x = a(2);
			if (w[1] == "i16") return order<int16_t>(op, x);
			if (w[1] == "u16") return order<uint16_t>(op, x);
			if (w[1] == "i32") return order<int32_t>(op, x);
			if (w[1] == "u32") return order<uint32_t>(op, x);
			if (w[1] == "i64") return order<int64_t>(op, x);
			if (w[1] == "u64") return order<uint64_t>(op, x);
		}
		// ---- log lines
		if (op == "say" || op == "cry") { // list or one, then kind text ...
			std::vector<SyncOut::MgsOverload> x;
			for (size_t i = 2; i + 1 < w.size(); i += 2) x.push_back(item(w[i], a(i + 1)));
			auto r = printed([&]() {
				const bool one = w[1] == "one";
				if (op == "say") {
					if (one) syncout.log(x.at(0));
					else if (x.size() == 0) syncout.log(std::initializer_list<SyncOut::MgsOverload> {});
					else if (x.size() == 1) syncout.log({ x[0] });
					else if (x.size() == 2) syncout.log({ x[0], x[1] });
					else if (x.size() == 3) syncout.log({ x[0], x[1], x[2] });
					else syncout.log({ x[0], x[1], x[2], x[3] });
				} else {
					if (one) syncout.error(x.at(0));
					else if (x.size() == 0) syncout.error(std::initializer_list<SyncOut::MgsOverload> {});
					else if (x.size() == 1) syncout.error({ x[0] });
					else if (x.size() == 2) syncout.error({ x[0], x[1] });
					else if (x.size() == 3) syncout.error({ x[0], x[1], x[2] });
					else syncout.error({ x[0], x[1], x[2], x[3] });
				}
			});
			return "l " + hex(r.first) + " " + hex(r.second);
		}
		if (op == "chorus") { // threads, lines each, words per line
			const int nt = num(1), n = num(2), nw = num(3);
			slowly = true;
			auto r = printed([&]() {
				setvbuf(stdout, nullptr, w[4] == "1" ? _IONBF : _IOFBF, BUFSIZ);
				std::vector<std::thread> ts;
				for (int t = 0; t < nt; t++) ts.emplace_back([&, t]() {
					for (int i = 0; i < n; i++) {
						const std::string a1 = "t" + std::to_string(t), a2 = std::string(nw, 'a' + t), a3 = "n" + std::to_string(i);
						if ((i + t) % 3 == 0) syncout.log({ a1, a2, a3 });
						else if ((i + t) % 3 == 1) syncout.log(a1 + " " + a2 + " " + a3);
						else if (t % 2) syncout.error({ a1, a2, a3 });
						else syncout.error(a1 + " " + a2 + " " + a3);
					}
				});
				for (auto& t : ts) t.join();
			});
			slowly = false;
			return "l " + hex(r.first) + " " + hex(r.second);
		}
	} catch (const std::exception& e) { return "throw"; }
	catch (...) { return "throw"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		out(apply(w));
	}
	return 0;
}
