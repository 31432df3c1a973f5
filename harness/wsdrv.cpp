// Plays scripted websocket sessions against a LambdaInstance.
//   case ...   one session, the client's bytes are given out one step at a time
//   live ...   real time; all live lines of a run are played at once, after the last line
#include <functional>
#define DRV_PERTURB
#include "perturb.hpp"
#include "netshim.hpp"
#include <lambda.hpp>
#include <chrono>
#include <thread>
#include <zlib.h>

using namespace Lambda;
typedef std::chrono::steady_clock Clock;

static std::vector<std::string> split(const std::string& s, char c) {
	std::vector<std::string> r;
	if (s.empty() || s == "none") return r;
	size_t p = 0;
	for (;;) {
		const auto q = s.find(c, p);
		r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
		if (q == std::string::npos) return r;
		p = q + 1;
	}
}
static std::string token(const std::vector<uint8_t>& d) {
	char b[64];
	snprintf(b, sizeof b, "%zu.%08lx", d.size(), crc32(0, d.data(), d.size()));
	return b;
}
struct Step { size_t msgs, pongs; std::string bytes; };
struct LiveOp { long at; std::string what, arg; };
struct Session {
	net::ScriptPtr conn;
	std::deque<Step> steps;
	std::vector<std::string> prog;
	bool catches = false, held = false;
	std::atomic<bool> up { false }, refused { false }, over { false };
	std::atomic<size_t> msgs { 0 }, pongs { 0 };
	size_t endMsgs = 0, endPongs = 0;
	bool quiet = false;
	Clock::time_point waiting {};
	// live
	bool live = false;
	Clock::time_point t0 {};
	std::vector<LiveOp> ops;
	int answers = 0;
	long maxms = 0;
	bool detached = true;
	void log(const std::string& s) {
		if (!live) return conn->log(s);
		const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t0).count();
		net::emit(conn->tag + std::to_string(ms) + ' ' + s);
	}
};
typedef std::shared_ptr<Session> SessionPtr;
static std::mutex sesMtx;
static std::map<std::string, SessionPtr> sessions;   // by path

static std::vector<uint8_t> pattern(size_t idx, size_t size) {
	auto r = drv::bytes("#" + std::to_string(idx) + ";");
	while (r.size() < size) r.push_back((uint8_t)(idx * 7 + r.size()));
	return r;
}

static void sendOne(SessionPtr s, Websocket::WebsocketContext& ws, size_t i, const std::vector<uint8_t>& d, bool bin, bool part) {
	s->log("snd " + std::to_string(i));
	try {
		ws.sendMessage(Websocket::Message(d, bin, part));
		s->log("sok " + std::to_string(i));
	} catch (const std::exception&) {
		s->log("sex " + std::to_string(i));
	}
}
static bool take(SessionPtr s, Websocket::WebsocketContext& ws) {
	bool more = false;
	try {
		more = ws.awaitMessage();
	} catch (const std::exception&) {
		s->log("awx");
		return false;
	}
	if (!more) { s->log("awf"); return false; }
	const auto m = ws.nextMessage();
	s->log("msg " + token(m.data) + ' ' + (m.binary ? "1" : "0") + ' ' + (m.partial ? "1" : "0"));
	s->msgs++;
	return true;
}

static HandlerResponse handle(const HTTP::Request& req, const RequestContext& ctx) {
	SessionPtr s;
	{
		std::lock_guard<std::mutex> l(sesMtx);
		auto i = sessions.find(req.url.pathname);
		if (i != sessions.end()) s = i->second;
	}
	if (!s) return HTTP::Response(404);
	struct Over { SessionPtr s; ~Over() { if (s->live && s->up) s->log("freed"); s->over = true; } } over { s };
	try {
		auto ws = ctx.upgrateToWebsocket();
		s->up = true;
		s->log("up");
		size_t sends = 0;
		for (const auto& o : s->prog) {
			auto p = split(o, ':');
			if (p[0] == "drain") {
				while (take(s, ws)) ;
				break;
			} else if (p[0] == "get") {
				if (!take(s, ws)) break;
			} else if (p[0] == "spin") {
				const auto until = Clock::now() + std::chrono::seconds(4);
				while (!ws.hasMessage() && Clock::now() < until) usleep(200);
				if (!ws.hasMessage()) { s->log("late"); continue; }
				const auto m = ws.nextMessage();
				s->log("msg " + token(m.data) + ' ' + (m.binary ? "1" : "0") + ' ' + (m.partial ? "1" : "0"));
				s->msgs++;
			} else if (p[0] == "empty") {
				bool threw = false;
				if (!ws.hasMessage()) {
					try { ws.nextMessage(); } catch (const std::exception&) { threw = true; }
					if (!threw) s->log("phantom");
				}
			} else if (p[0] == "send") {
				sendOne(s, ws, sends++, drv::bytes(drv::unhex(p[3])), p[1] == "B", p[2] == "1");
			} else if (p[0] == "burst") {
				const size_t n = std::stoul(p[1]), c = std::stoul(p[2]), z = std::stoul(p[3]);
				std::vector<std::thread> ts;
				for (size_t t = 0; t < n; t++) ts.emplace_back([&, t]() {
					for (size_t k = 0; k < c; k++) {
						const auto i = sends + t * c + k;
						sendOne(s, ws, i, pattern(i, z), i % 2, false);
					}
				});
				for (auto& t : ts) t.join();
				sends += n * c;
			} else if (p[0] == "close") {
				s->log("cls " + p[1]);
				try { ws.close((Websocket::CloseReason)std::stoi(p[1])); } catch (const std::exception&) { s->log("clx"); }
			} else if (p[0] == "sleep") {
				usleep(std::stoul(p[1]) * 1000);
			} else if (p[0] == "throw") {
				s->log("ret");
				throw std::runtime_error("application failure");
			}
		}
		s->log("ret");
	} catch (const std::exception&) {
		s->refused = !s->up;
		if (!s->catches || s->up) throw;
		s->log("uperr");
		return HTTP::Response(200, {}, "refused");
	}
	return {};
}

static int port = 0;
static std::unique_ptr<LambdaInstance> start(size_t max, bool list, int& portOut) {
	ServerConfig c;
	c.loglevel.requests = c.loglevel.startMessage = c.loglevel.transportEvents = false;
	c.transport.maxRequestSize = max;
	c.errorResponseType = ErrorResponseType::Plain;
	c.service.useThreadList = list;
	static uint64_t rnd = Clock::now().time_since_epoch().count() * 2654435761u + getpid() * 97;
	for (int tries = 0; ; tries++) {
		rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
		c.service.port = portOut = 10000 + (rnd >> 33) % 20000;
		try {
			return std::make_unique<LambdaInstance>(handle, c);
		} catch (const std::exception& e) {
			if (tries > 50) { fprintf(stderr, "no port: %s\n", e.what()); _exit(9); }
		}
	}
}
static int server(size_t max, bool list) {
	static std::map<std::pair<size_t, bool>, std::pair<std::unique_ptr<LambdaInstance>, int>> all;
	auto& s = all[{ max, list }];
	if (!s.first) s.first = start(max, list, s.second);
	return s.second;
}

// counts the frames a client gets
struct Frames {
	std::string b;
	bool head = false;
	std::function<void(int, const std::string&)> on;
	void add(const char* p, size_t n) {
		b.append(p, n);
		if (!head) {
			const auto e = b.find("\r\n\r\n");
			if (e == std::string::npos) return;
			if (b.compare(0, 12, "HTTP/1.1 101")) { b.clear(); return; }
			b.erase(0, e + 4);
			head = true;
		}
		for (;;) {
			if (b.size() < 2) return;
			size_t l = (uint8_t)b[1] & 127, h = 2;
			if (l == 126) { if (b.size() < 4) return; l = (uint8_t)b[2] * 256 + (uint8_t)b[3]; h = 4; }
			else if (l == 127) { if (b.size() < 10) return; l = 0; for (int i = 2; i < 10; i++) l = l * 256 + (uint8_t)b[i]; h = 10; }
			if (b.size() - h < l || l > (1u << 28)) return;
			on((uint8_t)b[0], b.substr(h, l));
			b.erase(0, h + l);
		}
	}
};

static int advance(Session& s) {
	if (!s.up) {
		// the reader can ask for input before the application has got its session
		if (s.refused) return 0;
		const auto now = Clock::now();
		if (s.waiting == Clock::time_point {}) s.waiting = now;
		return now - s.waiting < std::chrono::seconds(5) ? 2 : 0;
	}
	const bool last = s.steps.empty();
	const size_t m = last ? s.endMsgs : s.steps.front().msgs, p = last ? s.endPongs : s.steps.front().pongs;
	if (s.msgs < m || s.pongs < p) {
		const auto now = Clock::now();
		if (s.waiting == Clock::time_point {}) s.waiting = now;
		if (now - s.waiting < std::chrono::seconds(4) && !s.over) return 2;
		if (!s.over && !s.quiet) s.conn->log("late");
	}
	s.waiting = {};
	if (!last) {
		s.conn->segs.push_back(s.steps.front().bytes);
		s.steps.pop_front();
		return 1;
	}
	if (!s.quiet) { s.quiet = true; s.conn->log("quiet"); }
	if (s.held) return 2;
	return 0;
}

static void playCase(std::map<std::string, std::string>& o) {
	auto s = std::make_shared<Session>();
	s->conn = std::make_shared<net::Script>();
	auto& c = s->conn;
	for (auto& x : split(o["segs"], '.')) c->segs.push_back(drv::unhex(x));
	for (auto& x : split(o["steps"], ',')) {
		auto p = split(x, ':');
		s->steps.push_back({ std::stoul(p[0]), std::stoul(p[1]), drv::unhex(p[2]) });
	}
	s->endMsgs = std::stoul(o["endm"]);
	s->endPongs = std::stoul(o["endp"]);
	s->prog = split(o["prog"], ',');
	s->catches = o["catch"] == "1";
	s->held = o["fin"] == "held";
	c->fin = s->held ? "eof" : o["fin"];
	c->partial = std::stoul(o["part"]);
	c->jitter = std::stoul(o["jit"]);
	c->rnd = c->jrnd = std::stoull(o["seed"]);
	c->idle = [raw = s.get()](net::Script&) { return advance(*raw); };
	const auto prt = server(std::stoul(o["max"]), o["list"] == "1");
	{ std::lock_guard<std::mutex> l(sesMtx); sessions.clear(); sessions["/ws"] = s; }
	drv::perturbSeed = o["pert"] == "1" ? std::stoull(o["seed"]) * 2654435761u + 1 : 0;
	net::emit("case");
	net::dial(prt, c);
	Frames f;
	f.on = [&](int b, const std::string&) { if ((b & 15) == 10) s->pongs++; };
	char buf[65536];
	const auto until = Clock::now() + std::chrono::seconds(15);
	bool ended = false;
	while (!ended && Clock::now() < until) {
		int fd;
		{ std::lock_guard<std::mutex> l(c->mtx); fd = c->cfd; }
		if (fd < 0) {
			std::lock_guard<std::mutex> l(net::mapMtx);
			ended = true;
			for (auto& h : net::byHandle) if (h.second == c) ended = false;
			if (!ended) usleep(100);
			continue;
		}
		if (!net::readable(fd, 5)) continue;
		const auto n = ::recv(fd, buf, sizeof(buf), 0);
		if (n > 0) f.add(buf, n);
		if (n == 0 || (n < 0 && errno == ECONNRESET)) ended = true;
	}
	if (!ended) { c->log("hang"); _exit(7); }
	for (int i = 0; i < 40000; i++) {
		bool open = false;
		{
			std::lock_guard<std::mutex> l(net::mapMtx);
			for (auto& h : net::byHandle) if (h.second == c) open = true;
		}
		if (!open && (s->over || !s->up)) break;
		usleep(100);
		if (i == 39999) { c->log("hang"); _exit(7); }
	}
	drv::perturbSeed = 0;
	c->log("end");
	if (c->cfd >= 0) close(c->cfd);
	net::emit("done");
}

static std::string maskedFrame(int op, const std::string& d) {
	std::string r { (char)(0x80 | op), (char)(0x80 | d.size()), 1, 2, 3, 4 };
	for (size_t i = 0; i < d.size(); i++) r.push_back(d[i] ^ (char)(i % 4 + 1));
	return r;
}
static void playLive(std::map<std::string, std::string> o, int shared) {
	auto s = std::make_shared<Session>();
	s->live = true;
	s->conn = std::make_shared<net::Script>();
	s->conn->tag = "L" + o["id"] + " ";
	s->prog = split(o["prog"], ',');
	s->answers = std::stoi(o["answers"]);
	for (auto& x : split(o["ops"], ',')) { auto p = split(x, ':'); s->ops.push_back({ std::stol(p[0]), p[1], p.size() > 2 ? drv::unhex(p[2]) : "" }); }
	std::unique_ptr<LambdaInstance> own;
	int prt = shared;
	if (o["own"] == "1") own = start(1 << 20, true, prt);
	const auto path = "/live" + o["id"];
	{ std::lock_guard<std::mutex> l(sesMtx); sessions[path] = s; }
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	int one = 1;
	setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	sockaddr_in d {};
	d.sin_family = AF_INET;
	d.sin_port = htons(prt);
	d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(fd, (sockaddr*)&d, sizeof(d))) { perror("connect"); _exit(9); }
	s->t0 = Clock::now();
	const auto req = "GET " + path + " HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
	net::rawsend(fd, req.data(), req.size());
	Frames f;
	int pings = 0;
	f.on = [&](int b, const std::string& p) {
		const int op = b & 15;
		if (op == 9) {
			pings++;
			s->log("ping");
			if (s->answers < 0 || pings <= s->answers) {
				const auto r = maskedFrame(10, p);
				if (net::rawsend(fd, r.data(), r.size()) > 0) s->log("answer");
			}
		} else if (op == 8) s->log("close " + std::to_string(p.size() >= 2 ? (uint8_t)p[0] * 256 + (uint8_t)p[1] : 0));
		else s->log("frame " + std::to_string(b));
	};
	char buf[4096];
	size_t next = 0;
	bool begun = false;
	long start0 = 0;
	std::thread shut;
	bool open = true;
	const long limit = std::stol(o["limit"]);
	auto now = [&]() { return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - s->t0).count(); };
	while (now() < limit) {
		// the plan starts when the session does
		if (f.head && !s->up) { usleep(500); continue; }
		if (f.head && !begun) { begun = true; start0 = now(); }
		while (begun && next < s->ops.size() && now() - start0 >= s->ops[next].at) {
			const auto& x = s->ops[next++];
			s->log("op " + x.what);
			if (x.what == "bytes" && open) net::rawsend(fd, x.arg.data(), x.arg.size());
			else if (x.what == "eof" && open) { shutdown(fd, SHUT_WR); }
			else if (x.what == "rst" && open) {
				struct linger lg { 1, 0 };
				setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
				close(fd);
				open = false;
			} else if (x.what == "shutdown" && own) {
				shut = std::thread([&]() { own->shutdownn(); own->awaitFinished(); s->log("finished"); });
			}
		}
		if (!open) { if (s->over) break; usleep(2000); continue; }
		if (!net::readable(fd, 2)) continue;
		const auto n = ::recv(fd, buf, sizeof(buf), 0);
		if (n > 0) f.add(buf, n);
		else { s->log("end"); close(fd); open = false; }
	}
	if (open) { s->log("open"); close(fd); }
	for (int i = 0; i < 5000 && !s->over; i++) usleep(1000);
	if (!s->over) { s->log("hang"); _exit(7); }
	if (shut.joinable()) shut.join();
	s->log("done");
}

int main() {
	std::string line;
	std::vector<std::map<std::string, std::string>> live;
	while (std::getline(std::cin, line)) {
		std::map<std::string, std::string> o;
		for (auto& w : drv::words(line)) {
			const auto q = w.find('=');
			if (q != std::string::npos) o[w.substr(0, q)] = w.substr(q + 1);
		}
		if (line.compare(0, 4, "live") == 0) live.push_back(o);
		else playCase(o);
	}
	if (live.size()) {
		const auto p = server(1 << 20, false);
		std::vector<std::thread> ts;
		for (auto& o : live) { ts.emplace_back(playLive, o, p); usleep(15000); }
		for (auto& t : ts) t.join();
		net::emit("played");
	}
	_exit(0);
}
