// Plays scripted HTTP connections against a LambdaInstance, one at a time.
#include <functional>
#include "netshim.hpp"
#include <lambda.hpp>
#include <chrono>
#include <thread>

using namespace Lambda;

struct Behaviour {
	std::string kind, text, body;
	int status = 200;
	std::vector<std::pair<std::string, std::string>> hdrs;
};
struct Case {
	std::vector<Behaviour> hand;
	std::vector<std::string> names, params;
	size_t calls = 0;
};
static Case current;
static net::ScriptPtr conn;

static std::vector<std::string> split(const std::string& s, char c) {
	std::vector<std::string> r;
	if (s.empty() || s == "none") return r;
	size_t p = 0;
	for (;;) {
		const auto q = s.find(c, p);
		r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
		if (q == std::string::npos) return r;
		p = q + 1;
	}
}

static HandlerResponse handle(const HTTP::Request& req, const RequestContext& ctx) {
	using drv::hex;
	std::string l = "req " + hex(req.method.toString()) + ' ' + hex(req.url.pathname) + ' ';
	std::string h;
	for (const auto& e : req.headers.entries()) h += (h.size() ? ";" : "") + hex(e.first) + '=' + hex(e.second);
	l += (h.size() ? h : "none") + ' ';
	h.clear();
	for (const auto& n : current.names) h += (h.size() ? ";" : "") + hex(n) + '=' + hex(req.headers.get(n));
	l += (h.size() ? h : "none") + ' ';
	h.clear();
	for (const auto& n : current.params) h += (h.size() ? ";" : "") + hex(n) + '=' + hex(req.url.searchParams.get(n));
	l += (h.size() ? h : "none") + ' ';
	l += hex(req.url.host) + ' ' + hex(req.url.hostname) + ' ' + hex(req.url.port) + ' ' + hex(req.url.username) + ' ' +
		hex(req.url.password) + ' ' + hex(req.body.buffer()) + ' ' + hex(req.body.text());
	conn->log(l);
	const auto i = current.calls++;
	static const Behaviour dflt { "resp", "", "default" };
	const auto& b = i < current.hand.size() ? current.hand[i] : dflt;
	if (b.kind == "std") throw std::runtime_error(b.text);
	if (b.kind == "lambda") throw Lambda::Error(b.text);
	if (b.kind == "int") throw 42;
	if (b.kind == "cstr") throw "a message";
	if (b.kind == "none") return {};
	HTTP::Response r(b.text.size() ? HTTP::Status(b.status, b.text) : HTTP::Status(b.status), drv::bytes(b.body));
	for (const auto& x : b.hdrs) r.headers.append(x.first, x.second);
	return r;
}

struct Server {
	std::unique_ptr<LambdaInstance> inst;
	int port = 0;
};

static Server& server(const std::map<std::string, std::string>& o) {
	static std::map<std::string, Server> all;
	std::string key;
	for (auto k : { "max", "reuse", "comp", "err", "list" }) key += o.at(k) + '/';
	auto& s = all[key];
	if (s.inst) return s;
	ServerConfig c;
	c.loglevel.requests = c.loglevel.startMessage = c.loglevel.transportEvents = false;
	c.transport.maxRequestSize = std::stoul(o.at("max"));
	c.transport.reuseConnections = o.at("reuse") == "1";
	c.transport.useCompression = o.at("comp") == "1";
	c.errorResponseType = o.at("err") == "plain" ? ErrorResponseType::Plain : o.at("err") == "json" ? ErrorResponseType::JSON : ErrorResponseType::HTML;
	c.service.useThreadList = o.at("list") == "1";
	static uint64_t rnd = std::chrono::steady_clock::now().time_since_epoch().count() * 2654435761u + getpid() * 97;
	for (int tries = 0; ; tries++) {
		rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
		c.service.port = 10000 + (rnd >> 33) % 20000;
		try {
			s.inst = std::make_unique<LambdaInstance>(handle, c);
			break;
		} catch (const std::exception& e) {
			if (tries > 50) { fprintf(stderr, "no port: %s\n", e.what()); _exit(9); }
		}
	}
	s.port = c.service.port;
	return s;
}

int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		std::map<std::string, std::string> o;
		for (auto& w : drv::words(line)) {
			const auto q = w.find('=');
			if (q != std::string::npos) o[w.substr(0, q)] = w.substr(q + 1);
		}
		current = {};
		for (auto& b : split(o["hand"], ',')) {
			auto p = split(b, ':');   // kind:status:text:hdrs:body
			Behaviour x;
			x.kind = p[0];
			x.status = std::stoi(p[1]);
			x.text = drv::unhex(p[2]);
			for (auto& h : split(p[3], ';')) {
				const auto q = h.find('=');
				x.hdrs.push_back({ drv::unhex(h.substr(0, q)), drv::unhex(h.substr(q + 1)) });
			}
			x.body = drv::unhex(p[4]);
			current.hand.push_back(x);
		}
		for (auto& n : split(o["names"], '.')) current.names.push_back(drv::unhex(n));
		for (auto& n : split(o["params"], '.')) current.params.push_back(drv::unhex(n));
		auto& srv = server(o);
		conn = std::make_shared<net::Script>();
		for (auto& s : split(o["segs"], '.')) conn->segs.push_back(drv::unhex(s));
		conn->fin = o["fin"];
		conn->partial = std::stoul(o["part"]);
		conn->rnd = std::stoull(o["seed"]);
		net::emit("case");
		net::dial(srv.port, conn);
		// drain until the server is done with the connection
		char buf[65536];
		const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(10);
		bool ended = false, reset = false;
		while (!ended && std::chrono::steady_clock::now() < until) {
			int fd;
			{ std::lock_guard<std::mutex> l(conn->mtx); fd = conn->cfd; }
			if (fd < 0) {     // the client has reset the connection: the server's close is all there is to wait for
				reset = true;
				std::lock_guard<std::mutex> l(net::mapMtx);
				ended = true;
				for (auto& h : net::byHandle) if (h.second == conn) ended = false;
				if (!ended) usleep(100);
				continue;
			}
			if (!net::readable(fd, 5)) continue;
			const auto n = ::recv(fd, buf, sizeof(buf), 0);
			if (n == 0 || (n < 0 && errno == ECONNRESET)) ended = true;
			else if (n < 0 && errno == EBADF) continue;
		}
		if (!ended) { conn->log("hang"); _exit(7); }
		// let the worker go before the script does
		for (int i = 0; i < 20000; i++) {
			{
				std::lock_guard<std::mutex> l(net::mapMtx);
				bool open = false;
				for (auto& h : net::byHandle) if (h.second == conn) open = true;
				if (!open) break;
			}
			usleep(50);
		}
		conn->log("end");
		if (conn->cfd >= 0) close(conn->cfd);
		net::emit("done");
	}
	_exit(0);
}
