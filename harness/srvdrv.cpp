// Runs whole servers with numbered clients: the script comes line by line, what happens is recorded as it happens.
#include "util.hpp"
#include "perturb.hpp"
#include <lambda.hpp>
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/resource.h>
#include <sys/socket.h>
#include <thread>
using namespace Lambda;
using Clock = std::chrono::steady_clock;

static std::mutex emitMtx;
static std::condition_variable emitCv;
static std::set<std::string> seen;
static std::atomic<long> failAccept { 0 }, failThread { 0 };
static std::atomic<int> acceptErrno { 0 };
static void emit(const std::string& s) {
	{
		std::lock_guard<std::mutex> g(emitMtx);
		seen.insert(s);
		const std::string l = "@" + s + "\n";
		size_t o = 0;
		while (o < l.size()) {
			const auto n = syscall(SYS_write, 1, l.data() + o, l.size() - o);
			if (n <= 0) break;
			o += n;
		}
	}
	emitCv.notify_all();
}
static long waitLimit = 10000;
static bool await(const std::vector<std::string>& any, long ms) {
	std::unique_lock<std::mutex> l(emitMtx);
	return emitCv.wait_until(l, std::chrono::system_clock::now() + std::chrono::milliseconds(ms), [&] {
		for (auto& a : any) if (seen.count(a)) return true;
		// a prefix is enough when it ends with a star
		for (auto& a : any) if (a.back() == '*') for (auto& s : seen) if (!s.compare(0, a.size() - 1, a, 0, a.size() - 1)) return true;
		return false;
	});
}

extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) {
	static auto f = (int(*)(int, struct sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "accept");
	drv::maybeDelay(10);
	if (failAccept > 0) {
		struct pollfd p { fd, POLLIN, 0 };
		poll(&p, 1, -1);
		if ((p.revents & POLLIN) && failAccept-- > 0) {
			if (acceptErrno == ECONNABORTED) {
				const int r = f(fd, a, l);
				if (r >= 0) syscall(SYS_close, r);
			}
			errno = acceptErrno;
			return -1;
		}
	}
	const int r = f(fd, a, l);
	const int e = errno;
	drv::maybeDelay(10);
	errno = e;
	return r;
}
#ifndef DRV_PERTURB
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
	static auto real = (int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
	if (failThread > 0 && failThread-- > 0) return EAGAIN;
	return real(t, a, fn, arg);
}
#endif

// ---- gates
static std::mutex gateMtx;
static std::condition_variable gateCv;
static std::set<std::string> released;
static bool openAll = false;
static void gate(const std::string& t) {
	std::unique_lock<std::mutex> l(gateMtx);
	gateCv.wait_for(l, std::chrono::seconds(30), [&] { return openAll || released.count(t); });
}

struct Srv {
	std::shared_ptr<LambdaInstance> inst;
	uint16_t port = 0;
	bool list = true;
};
static std::map<std::string, Srv> srvs;
static std::mutex srvMtx;

static HandlerResponse handle(const HTTP::Request& req, const RequestContext& ctx) {
	const std::string t = req.url.searchParams.get("t"), path = req.url.pathname;
	const std::string v = req.url.searchParams.get("v");
	struct Leave {
		std::string t;
		~Leave() { if (t.size()) emit("leave " + t); }
	} leave { t };
	if (t.size()) emit("enter " + t);
	HTTP::Response res("tok " + t + "\n");
	if (path == "/gate") gate(t);
	else if (path == "/nap") std::this_thread::sleep_for(std::chrono::microseconds(std::stoul(v)));
	else if (path == "/throw") throw std::runtime_error("failed");
	else if (path == "/throwint") throw 7;
	else if (path == "/null") return {};
	else if (path == "/close") res.headers.set("connection", "close");
	else if (path == "/big") res.body = "tok " + t + "\n" + std::string(std::stoul(v), 'x');
	else if (path == "/post") res.body = "tok " + t + "\n" + std::to_string(req.body.text().size());
	else if (path == "/storm") {
		if (v.size() && v != "0") std::this_thread::sleep_for(std::chrono::microseconds(std::stoul(v)));
		res.body = req.body.text();
	}
	else if (path == "/poke") {
		// looks at everything that a request has to offer
		size_t n = 0;
		for (auto& kv : req.headers.entries()) n += kv.first.size() + req.headers.getAll(kv.first).size() + req.headers.get(kv.second).size();
		for (auto& kv : req.url.searchParams.entries()) n += kv.second.size() + req.url.searchParams.stringify().size();
		const auto cookies = req.getCookies();
		for (auto& kv : cookies.entries()) n += cookies.get(kv.first).size();
		n += req.url.href().size() + HTTP::URL(req.url.href()).href().size() + req.body.text().size();
		const auto cred = HTTP::Auth::parseBasicAuth(req.headers.get("authorization"));
		if (cred.has_value()) n += cred->user.size() + cred->password.size();
		res.headers.set("x-echo", req.headers.get("x-echo"));
		res.setCookies(cookies);
		res.body = std::to_string(n);
	} else if (path == "/quit") {
		LambdaInstance* i = nullptr;
		{ std::lock_guard<std::mutex> l(srvMtx); i = srvs[v].inst.get(); }
		if (i) i->shutdownn();
	} else if (path == "/sse" || path == "/ssethrow" || path == "/sseloop" || path == "/ssegate") {
		auto w = ctx.startEventStream();
		SSE::EventMessage m;
		m.data = "tok " + t;
		w.push(m);
		if (path == "/ssethrow") throw std::runtime_error("failed");
		if (path == "/ssegate") { gate(t); w.push(m); }
		if (path == "/sseloop") while (w.connected()) {
			w.push(m);
			std::this_thread::sleep_for(std::chrono::milliseconds(2));
		}
		return {};
	} else if (path == "/ws" || path == "/wsthrow" || path == "/wsdrop" || path == "/wsgate") {
		auto w = ctx.upgrateToWebsocket();
		if (path == "/wsthrow") throw std::runtime_error("failed");
		if (path == "/wsdrop") return {};
		if (path == "/wsgate") gate(t);
		while (w.awaitMessage()) {
			auto m = w.nextMessage();
			w.sendMessage(m);
		}
		return {};
	}
	return res;
}

// ---- clients
struct Client {
	int fd = -1, port = 0;
	bool mute = false, raw = false, over = false, quiet = false;
	std::string buf;
	std::vector<std::string> toks;      // asked and not answered
};
static std::mutex cliMtx;
static std::map<std::string, Client> clients;
static std::atomic<bool> stopReader { false };
static std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }
static void digest(const std::string& name, Client& c) {
	for (;;) {
		if (c.raw || c.quiet) { c.buf.clear(); return; }
		const auto h = c.buf.find("\r\n\r\n");
		if (h == std::string::npos) return;
		const auto head = lower(c.buf.substr(0, h + 2));
		const int code = head.size() > 12 ? atoi(head.c_str() + 9) : 0;
		if (head.rfind("http/1.1 ", 0)) { emit("garbage " + name); c.raw = true; continue; }
		if (code == 101 || head.find("text/event-stream") != std::string::npos) {
			c.raw = true;
			emit("stream " + name);
			continue;
		}
		size_t len = 0;
		const auto p = head.find("\r\ncontent-length:");
		if (p != std::string::npos) len = strtoul(head.c_str() + p + 17, nullptr, 10);
		if (c.buf.size() < h + 4 + len) return;
		std::string tok = "?";
		const auto body = c.buf.substr(h + 4, len);
		if (!body.compare(0, 4, "tok ")) tok = body.substr(4, body.find('\n') - 4);
		c.buf.erase(0, h + 4 + len);
		emit("resp " + name + " " + std::to_string(code) + " " + (tok.size() ? tok : "?"));
	}
}
static void reader() {
	static char buf[1 << 16];
	while (!stopReader) {
		std::vector<struct pollfd> ps;
		std::vector<std::string> ns;
		{
			std::lock_guard<std::mutex> l(cliMtx);
			for (auto& [n, c] : clients) if (c.fd >= 0 && !c.mute && !c.over) { ps.push_back({ c.fd, POLLIN, 0 }); ns.push_back(n); }
		}
		if (ps.empty()) { usleep(300); continue; }
		if (poll(ps.data(), ps.size(), 1) <= 0) continue;
		for (size_t i = 0; i < ps.size(); i++) if (ps[i].revents) {
			std::lock_guard<std::mutex> l(cliMtx);
			auto f = clients.find(ns[i]);
			if (f == clients.end() || f->second.fd != ps[i].fd) continue;
			auto& c = f->second;
			const auto n = ::recv(c.fd, buf, sizeof(buf), MSG_DONTWAIT);
			if (n > 0) { c.buf.append(buf, n); digest(ns[i], c); }
			else if (n == 0 || (errno != EAGAIN && errno != EINTR)) { c.over = true; if (!c.quiet) emit("eof " + ns[i]); }
		}
	}
}
static int dial(uint16_t port) {
	const int fd = socket(AF_INET, SOCK_STREAM, 0);
	int one = 1;
	setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	struct timeval tv { 5, 0 };
	setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
	sockaddr_in d {};
	d.sin_family = AF_INET;
	d.sin_port = htons(port);
	d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(fd, (sockaddr*)&d, sizeof(d))) { syscall(SYS_close, fd); return -1; }
	return fd;
}
static void sendAll(int fd, const std::string& s) {
	size_t o = 0;
	while (o < s.size()) {
		const auto n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
		if (n <= 0) return;
		o += n;
	}
}
static int countFds() {
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	while (auto e = readdir(d)) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}
static int countTasks() {
	int n = 0;
	DIR* d = opendir("/proc/self/task");
	while (auto e = readdir(d)) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}

int main() {
	setvbuf(stdout, nullptr, _IONBF, 0);
	std::thread rd(reader);
	std::vector<std::thread> bg;
	std::map<std::string, Srv> detached;
	uint64_t rnd = Clock::now().time_since_epoch().count() * 2654435761u + getpid() * 97;
	std::string line;
	int baseFds = countFds(), baseTasks = countTasks();
	while (std::getline(std::cin, line)) {
		const auto w = drv::words(line);
		if (w.empty()) continue;
		const auto& op = w[0];
		std::map<std::string, std::string> o;
		for (auto& x : w) { const auto q = x.find('='); if (q != std::string::npos) o[x.substr(0, q)] = x.substr(q + 1); }
		const auto inst = [&](const std::string& n) { std::lock_guard<std::mutex> l(srvMtx); return srvs[n].inst; };
		if (op == "case") {
			std::lock_guard<std::mutex> l(emitMtx);
			seen.clear();
			syscall(SYS_write, 1, "case\n", 5);
		} else if (op == "fresh") {
			// servers from here on count for descriptors
			baseFds = countFds();
			baseTasks = countTasks() - (int)bg.size();
		} else if (op == "seed") {
			drv::perturbSeed = std::stoull(w[1]);
		} else if (op == "new") {
			ServerConfig c;
			c.loglevel.requests = c.loglevel.startMessage = c.loglevel.transportEvents = false;
			Srv s;
			s.list = c.service.useThreadList = o["list"] != "0";
			if (o.count("max")) c.service.maxConnections = std::stoul(o["max"]);
			if (o.count("rto")) c.service.connectionTimeouts.receive = std::stoul(o["rto"]);
			if (o.count("sto")) c.service.connectionTimeouts.send = std::stoul(o["sto"]);
			c.service.fastPortReuse = o["fast"] == "1";
			const bool again = o.count("port");
			// one detached server of a kind serves all cases of this run
			const auto kind = o["rto"] + "/" + o["sto"];
			if (!s.list && detached.count(kind)) {
				emit("made " + w[1] + " " + std::to_string(c.service.maxConnections));
				std::lock_guard<std::mutex> l(srvMtx);
				srvs[w[1]] = detached[kind];
				continue;
			}
			for (int tries = 0; ; tries++) {
				rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
				c.service.port = again ? srvs[o["port"]].port : 10000 + (rnd >> 33) % 20000;
				try { s.inst = std::make_shared<LambdaInstance>(handle, c); break; }
				catch (const std::exception&) {
					if (again || (c.service.maxConnections && c.service.maxConnections < 50) || tries > 60) break;
				}
			}
			s.port = c.service.port;
			if (s.inst && !s.list) detached[kind] = s;
			emit((s.inst ? "made " : "rejected ") + w[1] + " " + std::to_string(c.service.maxConnections));
			std::lock_guard<std::mutex> l(srvMtx);
			srvs[w[1]] = s;
		} else if (op == "open") {
			// open c server [mute] [port]
			Client c;
			c.mute = o.count("mute");
			c.quiet = o.count("quiet");
			if (o.count("small")) {
				c.fd = socket(AF_INET, SOCK_STREAM, 0);
				int sz = 2048;
				setsockopt(c.fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz));
				sockaddr_in d {};
				d.sin_family = AF_INET;
				d.sin_port = htons(srvs[w[2]].port);
				d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
				if (!c.quiet) emit("open " + w[1] + " " + w[2]);
				if (connect(c.fd, (sockaddr*)&d, sizeof(d))) { syscall(SYS_close, c.fd); c.fd = -1; }
			} else {
				if (!c.quiet) emit("open " + w[1] + " " + w[2]);
				c.fd = dial(srvs[w[2]].port);
			}
			if (c.fd < 0 && !c.quiet) emit("noconn " + w[1]);
			std::lock_guard<std::mutex> l(cliMtx);
			clients[w[1]] = c;
		} else if (op == "ask") {
			// ask c tok bytes
			int fd;
			{ std::lock_guard<std::mutex> l(cliMtx); fd = clients[w[1]].fd; }
			emit("ask " + w[1] + " " + w[2]);
			if (fd >= 0) sendAll(fd, drv::unhex(w[3]));
		} else if (op == "tx") {
			int fd;
			{ std::lock_guard<std::mutex> l(cliMtx); fd = clients[w[1]].fd; }
			if (fd >= 0) sendAll(fd, drv::unhex(w[2]));
		} else if (op == "bye") {
			// bye c close|rst|half
			std::lock_guard<std::mutex> l(cliMtx);
			auto& c = clients[w[1]];
			if (!c.quiet) emit("bye " + w[1]);
			if (c.fd < 0) continue;
			if (w[2] == "half") { shutdown(c.fd, SHUT_WR); continue; }
			if (w[2] == "rst") { struct linger lg { 1, 0 }; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg)); }
			syscall(SYS_close, c.fd);
			c.fd = -1;
		} else if (op == "unmute") {
			std::lock_guard<std::mutex> l(cliMtx);
			clients[w[1]].mute = false;
		} else if (op == "rel") {
			{ std::lock_guard<std::mutex> l(gateMtx); released.insert(w[1]); }
			gateCv.notify_all();
		} else if (op == "wait" || op == "hope") {
			// alternatives are separated by commas, words by underscores
			std::vector<std::string> any;
			std::string cur;
			for (char ch : w[1] + ",") {
				if (ch == ',') { any.push_back(cur); cur.clear(); }
				else cur.push_back(ch == '_' ? ' ' : ch);
			}
			const long ms = w.size() > 2 ? std::stol(w[2]) : waitLimit;
			if (!await(any, ms) && op == "wait") {
				emit("hang " + w[1]);
				_exit(7);
			}
		} else if (op == "limit") {
			waitLimit = std::stol(w[1]);
		} else if (op == "sleep") {
			usleep(std::stoul(w[1]));
		} else if (op == "live") {
			// until there are that many connection threads; a server may do without them, so not for long
			const int want = baseTasks + (int)bg.size() + std::stoi(w[1]);
			for (int i = 0; i < 6000 && countTasks() > want; i++) usleep(250);
			if (o.count("exact")) for (int i = 0; i < 2000 && countTasks() != want; i++) usleep(250);
		} else if (op == "settle") {
			// threads that are still on their way out get there
			const int want = baseTasks + (int)bg.size() + std::stoi(w[1]);
			for (int i = 0; i < 6000 && countTasks() > want; i++) usleep(250);
			usleep(countTasks() > want ? 100000 : 500);
			emit("settle");
		} else if (op == "shut" || op == "await" || op == "kill") {
			const auto n = w[1];
			auto i = inst(n);
			// nobody else holds on to it
			const auto what = op;
			const auto tag = w.size() > 2 && w[2].find('=') == std::string::npos ? n + " " + w[2] : n;
			if (what == "kill") { std::lock_guard<std::mutex> l(srvMtx); srvs[n].inst.reset(); }
			emit(what + " " + tag);
			auto* p = new std::shared_ptr<LambdaInstance>(std::move(i));
			auto job = [what, tag, p] {
				bool ok = true;
				try {
					if (what == "shut") (*p)->shutdownn();
					else if (what == "await") (*p)->awaitFinished();
					else p->reset();
				} catch (...) { ok = false; }
				if (what != "kill") delete p;
				emit(ok ? what + "x " + tag : "raised " + what);
			};
			if (o.count("here")) job();
			else bg.emplace_back(job);
		} else if (op == "failaccept") {
			acceptErrno = w[2] == "ECONNABORTED" ? ECONNABORTED : w[2] == "EINTR" ? EINTR : w[2] == "EMFILE" ? EMFILE : w[2] == "EPROTO" ? EPROTO : ENFILE;
			failAccept = std::stol(w[1]);
		} else if (op == "failthread") {
			failThread = std::stol(w[1]);
			emit("fault " + w[1]);
		} else if (op == "storm" || op == "storming") {
			// storm server threads rounds seed: every client checks its own answers
			const int n = std::stoi(w[2]), rounds = std::stoi(w[3]);
			const auto seed = std::stoull(w[4]);
			const auto port = srvs[w[1]].port;
			auto job = [n, rounds, seed, port] {
			std::vector<std::thread> ts;
			std::atomic<int> good { 0 }, bad { 0 }, lost { 0 };
			for (int k = 0; k < n; k++) ts.emplace_back([&, k] {
				uint64_t r = seed + k * 7919 + 1;
				auto next = [&](int m) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (int)((r >> 33) % m); };
				int fd = -1;
				int serial = 0;
				for (int i = 0; i < rounds; ) {
					if (fd < 0) fd = dial(port);
					if (fd < 0) { lost++; i++; continue; }
					struct timeval tv { 10, 0 };
					setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
					const int batch = 1 + next(3);
					std::string req, expect;
					bool closing = false;
					std::vector<std::string> toks;
					for (int b = 0; b < batch && !closing; b++) {
						const auto t = "s" + std::to_string(k) + "x" + std::to_string(serial++);
						closing = next(5) == 0;
						const int pad = next(4) ? next(40) : next(60000);
						req += "POST /storm?q=" + t + "&v=" + std::to_string(next(2) ? 0 : next(300)) + " HTTP/1.1\r\nHost: a\r\n" +
							(closing ? "Connection: close\r\n" : "") + "Content-Length: " + std::to_string(t.size() + pad) + "\r\n\r\n" + t + std::string(pad, 'a' + k % 26);
						toks.push_back(t + std::string(pad, 'a' + k % 26));
					}
					sendAll(fd, req);
					std::string got;
					char buf[8192];
					bool dead = false;
					for (auto& t : toks) {
						for (;;) {
							const auto h = got.find("\r\n\r\n");
							if (h != std::string::npos) {
								const auto head = lower(got.substr(0, h + 2));
								const auto p = head.find("\r\ncontent-length:");
								const size_t len = p == std::string::npos ? 0 : strtoul(head.c_str() + p + 17, nullptr, 10);
								if (got.size() >= h + 4 + len) {
									(got.substr(h + 4, len) == t ? good : bad)++;
									got.erase(0, h + 4 + len);
									break;
								}
							}
							const auto m = ::recv(fd, buf, sizeof(buf), 0);
							if (m <= 0) { dead = true; break; }
							got.append(buf, m);
						}
						i++;
						if (dead) { lost++; break; }
					}
					if (dead || closing || next(6) == 0) { syscall(SYS_close, fd); fd = -1; }
				}
				if (fd >= 0) syscall(SYS_close, fd);
			});
			for (auto& t : ts) t.join();
			emit("stormed " + std::to_string(good) + " " + std::to_string(bad) + " " + std::to_string(lost));
			};
			if (op == "storm") job();
			else bg.emplace_back(job);
		} else if (op == "fds") {
			// all clients are gone: only what the servers need may be left
			int n = 0;
			for (int i = 0; i < 1000; i++) {
				n = countFds() - baseFds;
				if (n <= std::stoi(w[1])) break;
				usleep(5000);
			}
			emit("fds " + std::to_string(n) + " " + w[1]);
		} else if (op == "done") {
			failAccept = 0;
			failThread = 0;
			{ std::lock_guard<std::mutex> l(gateMtx); openAll = true; }
			gateCv.notify_all();
			{
				std::lock_guard<std::mutex> l(cliMtx);
				for (auto& [n, c] : clients) if (c.fd >= 0) syscall(SYS_close, c.fd);
				clients.clear();
			}
			for (auto& t : bg) t.join();
			bg.clear();
			{
				std::lock_guard<std::mutex> l(srvMtx);
				// a detached one can't be destroyed
				for (auto& [n, s] : srvs) if (s.inst && s.list) s.inst.reset();
				srvs.clear();
			}
			{ std::lock_guard<std::mutex> l(gateMtx); openAll = false; released.clear(); }
			syscall(SYS_write, 1, "done\n", 5);
		}
	}
	syscall(SYS_write, 1, "bye\n", 4);
	_exit(0);
}
