// Plays event stream sessions: what the application does is scripted, what is sent is recorded at the socket calls.
#include <functional>
#include "netshim.hpp"
#include <lambda.hpp>
#include <chrono>
#include <thread>
using namespace Lambda;

static net::ScriptPtr conn;
static std::vector<std::string> prog;
static std::atomic<bool> eof { false };
static LambdaInstance* running = nullptr;

static std::vector<std::string> split(const std::string& s, char c) {
	std::vector<std::string> r;
	if (s.empty() || s == "none") return r;
	size_t p = 0;
	for (;;) {
		const auto q = s.find(c, p);
		r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
		if (q == std::string::npos) return r;
		p = q + 1;
	}
}

static HandlerResponse handle(const HTTP::Request& req, const RequestContext& ctx) {
	auto s = conn;
	SSE::Writer w = ctx.startEventStream();
	s->log("open");
	int n = 0;
	for (const auto& op : prog) {
		const auto p = split(op, ':');
		if (p[0] == "push") {
			SSE::EventMessage m;
			if (p[1] != "~") m.event = drv::unhex(p[1]);
			if (p[2] != "~") m.id = drv::unhex(p[2]);
			if (p[3] != "~") m.retry = (uint32_t)std::stoul(p[3]);
			m.data = drv::unhex(p[4]);
			s->log("push " + std::to_string(n++));
			try { w.push(m); s->log("ret 1"); }
			catch (const std::exception&) { s->log("ret 0"); }
		} else if (p[0] == "ask") {
			const bool c = w.connected();
			s->log(std::string("ask ") + (c ? "1" : "0"));
		} else if (p[0] == "close") {
			s->log("close");
			try { w.close(); s->log("ret 1"); }
			catch (const std::exception&) { s->log("ret 0"); }
			if (s->cfd >= 0) {
				for (int i = 0; i < 5000 && !eof; i++) usleep(1000);
				s->log(eof ? "eof" : "noeof");
			}
		} else if (p[0] == "fail") {
			std::lock_guard<std::mutex> l(s->mtx);
			s->failErr = p[2] == "pipe" ? EPIPE : p[2] == "reset" ? ECONNRESET : ETIMEDOUT;
			s->failLeft = std::stol(p[1]);
		} else if (p[0] == "rst") {
			struct linger lg { 1, 0 };
			std::lock_guard<std::mutex> l(s->mtx);
			setsockopt(s->cfd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
			const int fd = s->cfd;
			s->cfd = -1;
			close(fd);
			usleep(2000);
			s->log("gone");
		} else if (p[0] == "shut") {
			running->shutdownn();
			s->log("shut");
		} else if (p[0] == "throw") {
			s->log("throw");
			s->over = true;
			throw std::runtime_error("the application failed");
		}
	}
	s->log("return");
	s->over = true;
	return {};
}

struct Server { std::unique_ptr<LambdaInstance> inst; int port = 0; };
static Server start(bool list) {
	Server s;
	ServerConfig c;
	c.loglevel.requests = c.loglevel.startMessage = c.loglevel.transportEvents = false;
	c.service.useThreadList = list;
	static uint64_t rnd = std::chrono::steady_clock::now().time_since_epoch().count() * 2654435761u + getpid() * 97;
	for (int tries = 0; ; tries++) {
		rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
		c.service.port = 10000 + (rnd >> 33) % 20000;
		try { s.inst = std::make_unique<LambdaInstance>(handle, c); break; }
		catch (const std::exception& e) { if (tries > 50) { fprintf(stderr, "no port: %s\n", e.what()); _exit(9); } }
	}
	s.port = c.service.port;
	return s;
}

int main() {
	// what the server logs about itself is no part of the record
	setvbuf(stdout, nullptr, _IONBF, 0);
	Server shared[2];
	std::string line;
	while (std::getline(std::cin, line)) {
		std::map<std::string, std::string> o;
		for (auto& w : drv::words(line)) {
			const auto q = w.find('=');
			if (q != std::string::npos) o[w.substr(0, q)] = w.substr(q + 1);
		}
		prog = split(o["prog"], ',');
		const bool own = o["own"] == "1", list = own || o["list"] == "1";
		Server mine;
		if (own) mine = start(true);
		else if (!shared[list].inst) shared[list] = start(list);
		Server& srv = own ? mine : shared[list];
		running = srv.inst.get();
		eof = false;
		conn = std::make_shared<net::Script>();
		conn->tag = "@";
		conn->note = true;
		conn->segs.push_back(drv::unhex(o["head"]));
		conn->fin = "silent";
		conn->partial = std::stoul(o["part"]);
		conn->rnd = std::stoull(o["seed"]);
		net::emit("case");
		net::dial(srv.port, conn);
		char buf[65536];
		const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20);
		bool ended = false;
		while (!ended && std::chrono::steady_clock::now() < until) {
			int fd;
			{ std::lock_guard<std::mutex> l(conn->mtx); fd = conn->cfd; }
			if (fd < 0) {
				std::lock_guard<std::mutex> l(net::mapMtx);
				ended = true;
				for (auto& h : net::byHandle) if (h.second == conn) ended = false;
				if (!ended) usleep(100);
				continue;
			}
			if (!net::readable(fd, 5)) continue;
			const auto n = ::recv(fd, buf, sizeof(buf), 0);
			if (n == 0 || (n < 0 && errno == ECONNRESET)) { eof = true; ended = true; }
		}
		if (!ended) { net::emit("hang"); _exit(7); }
		for (int i = 0; i < 200000; i++) {
			{
				std::lock_guard<std::mutex> l(net::mapMtx);
				bool open = !conn->over;
				for (auto& h : net::byHandle) if (h.second == conn) open = true;
				if (!open) break;
			}
			usleep(50);
		}
		if (own) mine.inst.reset();
		else usleep(0);
		conn->log("end");
		if (conn->cfd >= 0) close(conn->cfd);
		net::emit("done");
	}
	_exit(0);
}
